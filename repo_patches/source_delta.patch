From 22f2ce78dbcb4892f5b5d5c7dea64734f67f0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 01/77] fix: race between direct and deferred contributions at
 sub-image borders

Pixels closer to the border of a sub-image than the filter range are also
written by the threads rendering the neighbour sub-images. These threads hold
the film lock, but the owner of the pixel added its samples without it, so
contributions got lost. Add without lock only the pixels no other thread can
reach. Also the end coordinates of a sub-image are exclusive.
---
 src/cameras/image_film.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 821fb54..9499d52 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -62,13 +62,20 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     update_x1 = min(update_x1, width);
     update_y1 = min(update_y1, height);
 
+    //the samples of the neighbour sub-images can reach the pixels closer to the
+    //border than the range of the filter: those must be added with the lock
+    const int border_x = (int)ceilf(filter->range_x);
+    const int border_y = (int)ceilf(filter->range_y);
+
     //foreach affected pixel
     for(int y = update_y0; y<update_y1; y++)
         for(int x = update_x0; x<update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
-            if(x<secure_area->startx || x>secure_area->endx ||
-               y<secure_area->starty || y>secure_area->endy)
+            if(x<secure_area->startx+border_x ||
+               x>=secure_area->endx-border_x ||
+               y<secure_area->starty+border_y ||
+               y>=secure_area->endy-border_y)
             {
                 //critical section, other threads could interfere. deferred add
                 TodoPixel pixel_toadd;
-- 
2.43.0


From da5d31fb8ef961bc799c306efcb559c76a620093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 02/77] fix: data races between the progress bar and the
 rendering threads

The job queue was read without holding its mutex and the flag terminating the
listener was a plain bool written by another thread.
---
 src/renderer.cpp | 22 +++++++++++++---------
 src/renderer.hpp |  7 +++++--
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index b683157..8e8cffa 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -9,8 +9,8 @@ static void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
                      Scene* scene, LightIntegrator* mc_solver);
 
 
-static void progressBar(std::stack<Renderer_task>* jobs, unsigned long ts,
-                        bool& alive);
+static void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                        unsigned long ts, std::atomic<bool>& alive);
 
 Renderer::Renderer(int width, int height, int spp, const char* out,
                    int thread_number):film(width, height, out)
@@ -111,7 +111,7 @@ int Renderer::render(Scene* s)
         }
     }
     steady_clock::time_point a = steady_clock::now();
-    RendererProgressBar progress_bar(&jobs);
+    RendererProgressBar progress_bar(&jobs, &jobs_mtx);
     //create threads
     for(int i = 0; i<Renderer::numthreads; i++)
     {
@@ -244,11 +244,13 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
     film->add_pixel_forced(&ex);
 }
 
-RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs)
+RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs,
+                                         std::mutex* lock)
 {
     RendererProgressBar::jobs = jobs;
     RendererProgressBar::alive = true;
-    RendererProgressBar::listener = std::thread(progressBar, jobs, jobs->size(),
+    RendererProgressBar::listener = std::thread(progressBar, jobs, lock,
+                                                jobs->size(),
                                                 std::ref(alive));
 }
 
@@ -269,8 +271,8 @@ void RendererProgressBar::kill()
     Console.progress_bar_done();
 }
 
-void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
-                 bool& alive)
+void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                 unsigned long jobs_no, std::atomic<bool>& alive)
 {
     unsigned long remaining;
     float done;
@@ -279,8 +281,10 @@ void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
     time_t eta;
     while(alive)
     {
-        remaining = jobs->size(); //I don't care about dirty reads, it's an
-        current_time = time(NULL); //eta, I cannot block n threads for an eta
+        lock->lock();
+        remaining = jobs->size();
+        lock->unlock();
+        current_time = time(NULL);
         done = (float)(jobs_no-remaining)/(float)jobs_no;
         eta = (time_t)((float)(current_time-start_time)/(jobs_no-remaining)*
                        remaining);
diff --git a/src/renderer.hpp b/src/renderer.hpp
index 75b7671..314a62c 100644
--- a/src/renderer.hpp
+++ b/src/renderer.hpp
@@ -27,6 +27,8 @@
 #include "integrators/light_integrator.hpp"
 #include "settings.h"
 #include <thread> //std::thread
+#include <atomic> //std::atomic
+#include <mutex> //std::mutex
 #include <stack> //std::stack
 #include <chrono> //std::this_thread::sleep_for, platform independent
 #include <ctime> //time for srand
@@ -60,8 +62,9 @@ public:
     /** \brief Default constructor
      *
      * \param[in] jobs The job queue
+     * \param[in] lock The mutex protecting the job queue
      */
-    RendererProgressBar(std::stack<Renderer_task>* jobs);
+    RendererProgressBar(std::stack<Renderer_task>* jobs, std::mutex* lock);
 
     ///Default destructor
     ~RendererProgressBar();
@@ -78,7 +81,7 @@ private:
     std::thread listener;
 
     //used to terminate the thread
-    bool alive;
+    std::atomic<bool> alive;
 };
 
 /**
-- 
2.43.0


From 5f6a6dedb5a88f5904bb25e50392e9cb42d363da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:53 +0000
Subject: [PATCH 03/77] fix: texture filtering reads outside the MIP map

---
 src/textures/image_map.cpp     | 10 +++++-----
 src/textures/texture_image.cpp |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1c41184..21b7bd1 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -124,7 +124,7 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
     TexelUnion p0; //retval
     if(chosen<=0.f) //use full size map
         p0 = bilinear(u, v, 0);
-    else if(chosen>maps_no-1) //return the single, most distant pixel
+    else if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else //perform trilinear interpolation
     {
@@ -179,7 +179,7 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
     // shorter axis 0 previously catched in an if
     float chosen = max(0.f, maps_no-1+log2f(shorter_axis));
     TexelUnion p0; //retval
-    if(chosen>maps_no-1) //return the single, most distant pixel
+    if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else
     {
@@ -247,7 +247,7 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     dvdy *= side[level];
 
     //calulate ellipse coefficients
-    float a = dvdx*dvdx*+dvdy*dvdy+1.f;
+    float a = dvdx*dvdx+dvdy*dvdy+1.f;
     float b = -2.f*(dudx*dvdx+dudy*dvdy);
     float c = dudx*dudx+dudy*dudy+1.f;
     const float invf = 1.f/(a*c-b*b*.25f);
@@ -274,12 +274,12 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     for(int y = v0; y<=v1; y++)
     {
         //wraps texture if ellipse is outside bounds
-        int newy = y<0?side[level]+y:y>side[level]-1?y%side[level]:y;
+        int newy = ((y%side[level])+side[level])%side[level];
         const float voff = newy-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
-            int newx = x<0?side[level]+x:x>side[level]-1?x%side[level]:x;
+            int newx = ((x%side[level])+side[level])%side[level];
             const float uoff = newx-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index e3b03b5..b333e45 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -62,10 +62,10 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
     float v = hit->uv.y*scale.y+shift.y;
 
     //apply repeating if uv are outside 0-1 range
-    if(u>1.f)
-        u = u-(int)u;
-    if(v>1.f)
-        v = v-(int)v;
+    if(u<0.f || u>1.f)
+        u = u-floorf(u);
+    if(v<0.f || v>1.f)
+        v = v-floorf(v);
 
     TexelUnion res;
     if(unfiltered)
-- 
2.43.0


From 7b6eb075c0d68ca06b9466f312f9b88119e0d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 04/77] fix: masks read stale or uninitialised ray
 differentials

---
 src/primitives/hit_point.hpp | 2 +-
 src/primitives/triangle.cpp  | 2 +-
 src/renderer.cpp             | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primitives/hit_point.hpp b/src/primitives/hit_point.hpp
index 1f97c3a..0971e55 100644
--- a/src/primitives/hit_point.hpp
+++ b/src/primitives/hit_point.hpp
@@ -54,7 +54,7 @@ struct HitPoint
     Vec2 dv;
 
     //true if the values du and dv are set
-    bool differentials;
+    bool differentials = false;
 };
 
 void calculate_differentials(HitPoint* hp, Ray* rx, Ray* ry);
diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 9416495..f25d693 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -101,7 +101,7 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-    tmp.dv = h->du;
+    tmp.dv = h->dv;
     tmp.differentials = h->differentials;
     if(!mask->is_masked(&tmp))
     {
diff --git a/src/renderer.cpp b/src/renderer.cpp
index 8e8cffa..5b548c2 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -225,6 +225,8 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
             for(int i = 0; i<spp; i++)
             {
                 camera->create_ray(&(samples[i]), &r, &rx, &ry);
+                //differentials of the previous sample are meaningless here
+                h.differentials = false;
                 if(scene->k.intersect(&r, &h))
                 {
                     calculate_differentials(&h, &rx, &ry);
-- 
2.43.0


From 5379453166315bcfd0740180eba3d115a8cb5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 05/77] fix: kd-tree overflow with shared assets and stale
 nodes after a rebuild

---
 src/accelerators/kdtree.cpp | 43 +++++++++++++++++++++++--------------
 src/accelerators/kdtree.hpp | 10 +++++++--
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 968e24b..22bef6d 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -150,11 +150,20 @@ KdTree::~KdTree()
 
 void KdTree::addAsset(const Asset* addme)
 {
-    if(assets_number == _MAX_ASSETS_)
+    if(assets.size() == _MAX_ASSETS_)
+    {
         Console.severe(MESSAGE_MAXASSETNUMBER);
+        return;
+    }
+    assets.push_back(addme);
+}
+
+void KdTree::addLeafAsset(const Asset* addme)
+{
     if(assets_number == assets_allocated)
     {
-        int allocNo = min(assets_allocated << 1, _MAX_ASSETS_);
+        //no upper limit here: an asset can be referenced by several leaves
+        int allocNo = assets_allocated << 1;
         const Asset** tmp = (const Asset**)malloc(sizeof(Asset*)*(allocNo));
         if(tmp)
         {
@@ -214,22 +223,24 @@ void KdTree::buildTree()
     using KdHelpers::KdTreeBuildNode;
     using KdHelpers::SplitCandidate;
 
-    if(assets_number == 0)
+    if(assets.empty())
         return;
     KdTreeBuildNode* node = (KdTreeBuildNode*)malloc(sizeof(KdTreeBuildNode));
 
     //get the aabb for the whole scene
-    scene_aabb = AABB(*(assetsList[0]->get_AABB)());
-    for(int i = 1; i<assets_number; i++)
-        scene_aabb.engulf(assetsList[i]->get_AABB());
-
-    //copy the assets, since the original array will be rewritten in a
-    //different order
-    Asset** alcopy = (Asset**)malloc(sizeof(Asset*)*KdTree::assets_number);
-    memcpy(alcopy, KdTree::assetsList, sizeof(Asset*)*KdTree::assets_number);
-    unsigned int a_n = KdTree::assets_number; //assets_number will be set to 0
-    KdTree::assets_number = 0;//and assets will be reinserted in order during
-    //building of the kd-tree
+    scene_aabb = AABB(*(assets[0]->get_AABB)());
+    for(unsigned int i = 1; i<assets.size(); i++)
+        scene_aabb.engulf(assets[i]->get_AABB());
+
+    //discard what a previous build left: the references in the leaves (inserted
+    //again, in order, while building the kd-tree) and the nodes
+    KdTree::assets_number = 0;
+    KdTree::nodes_index = 0;
+
+    //copy the assets, since the array will be split among the nodes
+    unsigned int a_n = (unsigned int)assets.size();
+    Asset** alcopy = (Asset**)malloc(sizeof(Asset*)*a_n);
+    memcpy(alcopy, assets.data(), sizeof(Asset*)*a_n);
 
     //allocate the array of possible candidates. sc[axis][candidate]
     SplitCandidate** sc = (SplitCandidate**)malloc(sizeof(SplitCandidate*)*3);
@@ -272,7 +283,7 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
         //now i can reference them with a pointer to the first and the number
         //of assets for the leaf
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::addLeafAsset(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -367,7 +378,7 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
         node->offset_start = KdTree::assets_number;
         node->assets_number = a_n;
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::addLeafAsset(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
diff --git a/src/accelerators/kdtree.hpp b/src/accelerators/kdtree.hpp
index 00831f8..9d65df5 100644
--- a/src/accelerators/kdtree.hpp
+++ b/src/accelerators/kdtree.hpp
@@ -234,13 +234,19 @@ private:
     //flatten out the tree into an array
     void finalize(void* node);
 
+    //add a reference to an asset in the array referenced by the leaves
+    void addLeafAsset(const Asset* addme);
+
     //the aabb containing every asset of this kd-tree
     AABB scene_aabb;
 
-    //the list of assets managed by this kd-tree
+    //the assets added to this kd-tree
+    std::vector<const Asset*> assets;
+
+    //the list of assets referenced by the leaves of this kd-tree
     const Asset** assetsList;
 
-    //the number of assets managed and the index of the next insertion
+    //the number of assets referenced and the index of the next insertion
     int assets_number;
 
     //the allocated size of the assetsList array
-- 
2.43.0


From c444c15b95a6833a2ddaa341af0e058b0320a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 06/77] fix: kd-tree may lose assets with a flat bounding box

---
 src/accelerators/kdtree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 22bef6d..770edaf 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -110,6 +110,10 @@ namespace KdHelpers
     //used to sort the splicandidate in the kdtree build
     bool compare_sc(const SplitCandidate s1, const SplitCandidate s2)
     {
+        //the left side of a flat aabb comes before its right side, otherwise
+        //its asset could be assigned to none of the children
+        if(s1.pos == s2.pos)
+            return s1.isLeftSide && !s2.isLeftSide;
         return s1.pos<s2.pos;
     }
 
-- 
2.43.0


From dce2557b5d564313e0115bad0f50fecb409a09ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 07/77] fix: materials assigned to the wrong faces of a mesh

---
 src/accelerators/bvh.cpp | 7 ++++++-
 src/accelerators/bvh.hpp | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b0c61dd..c0eb71d 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -301,6 +301,7 @@ static uint32_t traverseTree(Triangle* tris, Primitive* p, uint32_t offs,
 Bvh::~Bvh()
 {
     free(nodesList);
+    free(faces);
 }
 
 void Bvh::buildTree(Triangle* tris, int len)
@@ -363,8 +364,12 @@ void Bvh::buildTree(Triangle* tris, int len)
     Triangle* tmp = (Triangle*)malloc(sizeof(Triangle)*len);
     memcpy((void*)tmp, (void*)tris,
            sizeof(Triangle)*len);//create reference copy
+    //the triangles are reordered, but the caller knows only the original order
+    free(faces);
+    faces = (unsigned int*)malloc(sizeof(unsigned int)*len);
     for(int i = 0; i<len; i++)
     {
+        faces[i] = (unsigned int)prims[i].index;
         tris[i].a = tmp[prims[i].index].a; //copy from the reference
         tris[i].b = tmp[prims[i].index].b;
         tris[i].c = tmp[prims[i].index].c;
@@ -428,7 +433,7 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
                     unsigned int tmp_index = node->offset+i;
                     if(Bvh::tris[tmp_index].intersect(r, distance, h, mask))
                     {
-                        h->index = tmp_index;
+                        h->index = faces == NULL?tmp_index:faces[tmp_index];
                         found = true;
                     }
                 }
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 9c092f1..2a966df 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -114,6 +114,9 @@ private:
 
     //A pointer to the array of triangles around which the bvh is built
     Triangle* tris;
+
+    //Index of every triangle before the reordering. NULL if not reordered
+    unsigned int* faces = NULL;
 };
 
 #endif
-- 
2.43.0


From 0a57911c257eba531ee8bc38f257a3e40343a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 08/77] fix: a render whose image could not be saved ended with
 success

---
 src/renderer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index 5b548c2..c6e713d 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -139,7 +139,11 @@ int Renderer::render(Scene* s)
 
     Console.log(MESSAGE_IMAGEO, NULL);
     //save the image
-    Renderer::film.save_image();
+    if(!Renderer::film.save_image())
+    {
+        Console.severe(MESSAGE_W_DENIED_RC);
+        return EXIT_FAILURE;
+    }
     Console.log(MESSAGE_BYE, NULL);
 
     return 0;
-- 
2.43.0


From 381cc85b661c07e8b5249e00644be9352272fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 09/77] fix: the program dies if the system refuses to create a
 thread

---
 src/renderer.cpp | 41 +++++++++++++++++++++++++++++++----------
 src/renderer.hpp |  1 +
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index c6e713d..cc325b4 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -113,16 +113,29 @@ int Renderer::render(Scene* s)
     steady_clock::time_point a = steady_clock::now();
     RendererProgressBar progress_bar(&jobs, &jobs_mtx);
     //create threads
-    for(int i = 0; i<Renderer::numthreads; i++)
+    int created = 0;
+    try
     {
-        Renderer::workers[i] = std::thread(executor, camera, &film, &jobs_mtx,
-                                           spp,
-                                           sampler_t, &jobs, s,
-                                           Renderer::mc_solver);
+        while(created<Renderer::numthreads)
+        {
+            Renderer::workers[created] = std::thread(executor, camera, &film,
+                                                     &jobs_mtx, spp,
+                                                     sampler_t, &jobs, s,
+                                                     Renderer::mc_solver);
+            created++;
+        }
+    }
+    catch(const std::system_error&)
+    {
+        //the system refuses to create more threads: the ones already created
+        //are enough to render everything. If there are none, use this thread
+        if(created == 0)
+            executor(camera, &film, &jobs_mtx, spp, sampler_t, &jobs, s,
+                     Renderer::mc_solver);
     }
 
     //wait for them to finish
-    for(int i = 0; i<Renderer::numthreads; i++)
+    for(int i = 0; i<created; i++)
     {
         Renderer::workers[i].join();
     }
@@ -255,15 +268,23 @@ RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs,
 {
     RendererProgressBar::jobs = jobs;
     RendererProgressBar::alive = true;
-    RendererProgressBar::listener = std::thread(progressBar, jobs, lock,
-                                                jobs->size(),
-                                                std::ref(alive));
+    try
+    {
+        RendererProgressBar::listener = std::thread(progressBar, jobs, lock,
+                                                    jobs->size(),
+                                                    std::ref(alive));
+    }
+    catch(const std::system_error&)
+    {
+        //no progress will be reported, but the image can still be rendered
+    }
 }
 
 RendererProgressBar::~RendererProgressBar()
 {
     RendererProgressBar::alive = false;
-    RendererProgressBar::listener.join();
+    if(RendererProgressBar::listener.joinable())
+        RendererProgressBar::listener.join();
 }
 
 void RendererProgressBar::kill()
diff --git a/src/renderer.hpp b/src/renderer.hpp
index 314a62c..ed3ea05 100644
--- a/src/renderer.hpp
+++ b/src/renderer.hpp
@@ -27,6 +27,7 @@
 #include "integrators/light_integrator.hpp"
 #include "settings.h"
 #include <thread> //std::thread
+#include <system_error> //std::system_error
 #include <atomic> //std::atomic
 #include <mutex> //std::mutex
 #include <stack> //std::stack
-- 
2.43.0


From bd402385fa91512d6034f91e794c6d1dc9d8f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 10/77] fix: a light sample without intersection used
 uninitialised data

---
 src/lights/area_light.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 1b54aa1..8793631 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -74,19 +74,14 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
     ray.direction.normalize();
     HitPoint hit;
     *distance = FLT_MAX;
-    //will always succeed
-//    bool res=
-    AreaLight::model->intersect(&ray, distance, &hit, &mask);
-    //erase the next if after all the intersections are tried
-    //TODO: now this should never happen and has been commented. Tried
-    //blackbox testing for something like 1 hour, but maybe for newer
-    //shapes this could generate problems so it is left here as a reference
-//    if(!res)
-//    {
-//        bool res=AreaLight::model->intersect(&ray,distance,&hit);
-//        *pdf = 0;
-//        return SPECTRUM_BLACK;
-//    }
+    //the sampled point can be missed if it is masked, on the silhouette of the
+    //light or too near to the origin of the ray
+    if(!AreaLight::model->intersect(&ray, distance, &hit, &mask))
+    {
+        *pdf = 0;
+        *distance = FLT_MAX;
+        return SPECTRUM_BLACK;
+    }
     light_point = ray.apply(*distance);
     normal = hit.normal_h; //object space
     *wi = ray.direction;
-- 
2.43.0


From 1b4814402a2f669a74512a17427aed437c072c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 11/77] fix: bmp files: unreported write errors, damaged files
 accepted or crashing

---
 src/utility/imageio/bmp.c | 51 ++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 728896b..939252f 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -12,6 +12,20 @@ uint32_t bmp_size(int width, int height, short bpp)
            4*(((1 << bpp) & 0xFFFF)+height*((width*bpp+31)/32));
 }
 
+/* bytes added to every row so that its length is a multiple of 4 */
+static int row_padding(int width, int bpp)
+{
+    return (4-(width*bpp)%4)%4;
+}
+
+/* dimensions that can be represented and do not overflow any buffer */
+static char valid_dimensions(int32_t width, int32_t height)
+{
+    if(width<=0 || height == 0 || height<-INT32_MAX)
+        return 0;
+    return abs(height)<=(INT32_MAX/4-4)/width;
+}
+
 char bmp_valid(const char* name)
 {
     char retval = 0;
@@ -45,7 +59,9 @@ char bmp_dimensions(const char* name, int* width, int* height)
         if(res)
         {
             res = fread(&dib, sizeof(struct bmp_dib_v3), 1, fin);
-            if(res && ENDIANNESS_LITTLE16(header.signature) == BMP_MAGIC)
+            if(res && ENDIANNESS_LITTLE16(header.signature) == BMP_MAGIC &&
+               valid_dimensions(ENDIANNESS_LITTLE32(dib.width),
+                                ENDIANNESS_LITTLE32(dib.height)))
             {
                 *width = ENDIANNESS_LITTLE32(dib.width);
                 *height = ENDIANNESS_LITTLE32(dib.height);
@@ -92,11 +108,12 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
         uint8_t* row;
         create_bmp_header(width, height, &header, &dib);
         bpp = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
-        padding = (width*bpp)%4;
-        row = (uint8_t*)malloc(sizeof(uint8_t)*(bpp*width+padding));
-        fwrite(&header, sizeof(struct bmp_header), 1, fout);
-        fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout);
-        for(y = 0; y<height; y++)
+        padding = row_padding(width, bpp);
+        row = (uint8_t*)calloc(bpp*width+padding, sizeof(uint8_t));
+        retval = row != NULL &&
+                 fwrite(&header, sizeof(struct bmp_header), 1, fout) &&
+                 fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout);
+        for(y = 0; y<height && retval; y++)
         {
             for(x = 0; x<width; x++)
             {
@@ -105,11 +122,13 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
                 row[x*3+2] = (data[y*width+x] & 0x0000FF00) >> 8; /* Red   */
                 data_idx += 3;
             }
-            fwrite(row, sizeof(uint8_t), bpp*width+padding, fout);
+            retval = fwrite(row, bpp*width+padding, 1, fout) == 1;
         }
         free(row);
-        fclose(fout);
-        retval = data_idx == width*height*bpp;
+        retval = retval && data_idx == width*height*bpp;
+        /* the last bytes may be written (and refused) only now */
+        if(fclose(fout) != 0)
+            retval = 0;
     }
     return retval;
 }
@@ -130,13 +149,15 @@ char bmp_read(const char* name, uint32_t* values)
         /* not v3 or other fancy features not supported */
         if(res && dib.compression == 0 && dib.palette_no == 0 &&
            (ENDIANNESS_LITTLE16(dib.bpp) == 24 ||
-            ENDIANNESS_LITTLE16(dib.bpp) == 32))
+            ENDIANNESS_LITTLE16(dib.bpp) == 32) &&
+           valid_dimensions(ENDIANNESS_LITTLE32(dib.width),
+                            ENDIANNESS_LITTLE32(dib.height)))
         {
             int height = ENDIANNESS_LITTLE32(dib.height);
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
             const int BPP = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
             const char HAS_ALPHA = BPP == 4;
-            const char PADDING = (WIDTH*BPP)%4;
+            const char PADDING = row_padding(WIDTH, BPP);
             int y;
             int ymax;
             int x;
@@ -155,8 +176,10 @@ char bmp_read(const char* name, uint32_t* values)
                 ymax = height;
                 y = 0;
             }
-            fseek(fin, ENDIANNESS_LITTLE32(header.data_offset), SEEK_SET);
-            while(y != ymax && fread(row, BPP*WIDTH+PADDING, 1, fin))
+            if(fseek(fin, ENDIANNESS_LITTLE32(header.data_offset), SEEK_SET))
+                ymax = y;
+            while(row != NULL && y != ymax &&
+                  fread(row, BPP*WIDTH+PADDING, 1, fin))
             {
                 x = 0;
                 while(x<WIDTH)
@@ -164,7 +187,7 @@ char bmp_read(const char* name, uint32_t* values)
                     uint32_t pixel;
                     /* ensures the alpha is always 0xFF */
                     pixel = 0x000000FF;
-                    pixel |= row[x*BPP+0] << 24;
+                    pixel |= (uint32_t)row[x*BPP+0] << 24;
                     pixel |= row[x*BPP+1] << 16;
                     pixel |= row[x*BPP+2] << 8;
                     if(HAS_ALPHA)
-- 
2.43.0


From 43d54fd18e197bc10063593b9e7c91c122b1cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 12/77] fix: ppm files: unreported write errors, damaged files
 accepted or crashing

---
 src/utility/imageio/ppm.c | 104 ++++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 43 deletions(-)

diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index b6595b0..131f434 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -2,8 +2,20 @@
 /*  license: MIT                */
 
 #include "ppm.h"
+#include <limits.h>
 
-#define CLAMP(x, y, z) ((x)<0)?0:(x)>(z)?(z):(x)
+#define CLAMP(x, y, z) (((x)<(y))?(y):((x)>(z)?(z):(x)))
+
+/* reads the magic number and the dimensions, returns 0 if they are not valid */
+static char read_header(FILE* fin, char* magic, int* width, int* height)
+{
+    char retval = 0;
+    if(fscanf(fin, "%c%c", magic+0, magic+1) == 2 && magic[0] == 'P' &&
+       (magic[1] == '3' || magic[1] == '6'))
+        retval = fscanf(fin, "%d%d", width, height) == 2 &&
+                 *width>0 && *height>0 && *height<=INT_MAX/3/2/ *width;
+    return retval;
+}
 
 char ppm_write(const char* name, int width, int height, const uint32_t* array)
 {
@@ -13,7 +25,7 @@ char ppm_write(const char* name, int width, int height, const uint32_t* array)
     if(fout != NULL)
     {
         int32_t written = 0; //ssize_t on unix is SSIZE_T on windows. This is a joke.
-        fprintf(fout, "P6 %d %d 255 ", width, height);
+        char header = fprintf(fout, "P6 %d %d 255 ", width, height)>0;
         for(i = 0; i<width*height; i++)
         {
             /* convert BGRA to RGB */
@@ -23,8 +35,10 @@ char ppm_write(const char* name, int width, int height, const uint32_t* array)
             pixel[2] = (array[i] & 0xFF000000) >> 24;
             written += fwrite(&pixel, sizeof(uint8_t), 3, fout);
         }
-        fclose(fout);
-        retval = written == width*height*3;
+        retval = header && written == width*height*3;
+        /* the last bytes may be written (and refused) only now */
+        if(fclose(fout) != 0)
+            retval = 0;
     }
     return retval;
 }
@@ -36,10 +50,12 @@ char ppm_dimensions(const char* name, int* width, int* height)
     if(fin != NULL)
     {
         char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
-        if(magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6'))
+        int w;
+        int h;
+        if(read_header(fin, magic, &w, &h) && !ferror(fin))
         {
-            fscanf(fin, "%d%d", width, height);
+            *width = w;
+            *height = h;
             retval = 1;
         }
         fclose(fin);
@@ -54,9 +70,9 @@ char ppm_valid(const char* name)
     if(fin != NULL)
     {
         char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        retval = fscanf(fin, "%c%c", magic+0, magic+1) == 2 &&
+                 magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6');
         fclose(fin);
-        retval = magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6');
     }
     return retval;
 }
@@ -71,40 +87,36 @@ char ppm_read(const char* name, uint32_t* values)
         uint8_t red;
         uint8_t green;
         uint8_t blue;
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        int width_signed;
+        int height_signed;
+        int depth_short;
         /* check magic number to determine if ASCII or binary */
-        if(magic[0] == 'P')
+        if(read_header(fin, magic, &width_signed, &height_signed) &&
+           fscanf(fin, "%d", &depth_short) == 1 &&
+           depth_short>0 && depth_short<=65535)
         {
-            unsigned int width;
-            unsigned int height;
-            float depth;
-            uint16_t depth_short;
-            fscanf(fin, "%u%u%hu", &width, &height, &depth_short);
-            /* not my fucking problem if the depth is > 65536, the specification
-             states that the aforementioned value is the max */
-            depth = (float)depth_short;
+            const unsigned int width = (unsigned int)width_signed;
+            const unsigned int height = (unsigned int)height_signed;
+            const float depth = (float)depth_short;
             if(magic[1] == '3') /* ASCII */
             {
-                char val[6];
-                uint16_t num_val;
+                unsigned int val[3];
                 unsigned int i;
-                for(i = 0; i<width*height; i++)
+                retval = 1;
+                for(i = 0; i<width*height && retval; i++)
                 {
-                    values[i] = 0x000000FF;
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    red = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    green = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    blue = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    values[i] |= red << 8;
-                    values[i] |= green << 16;
-                    values[i] |= blue << 24;
+                    retval = fscanf(fin, "%u%u%u", val+0, val+1, val+2) == 3;
+                    if(retval)
+                    {
+                        red = (uint8_t)(CLAMP(val[0]/depth, 0.f, 1.f)*255);
+                        green = (uint8_t)(CLAMP(val[1]/depth, 0.f, 1.f)*255);
+                        blue = (uint8_t)(CLAMP(val[2]/depth, 0.f, 1.f)*255);
+                        values[i] = 0x000000FF;
+                        values[i] |= red << 8;
+                        values[i] |= green << 16;
+                        values[i] |= (uint32_t)blue << 24;
+                    }
                 }
-                retval = 1;
             }
             else if(magic[1] == '6') /* Binary */
             {
@@ -120,20 +132,23 @@ char ppm_read(const char* name, uint32_t* values)
                 {
                     uint8_t* row = (uint8_t*)malloc(sizeof(uint8_t)*width*3);
                     /* read a pixel block of READ_BUFFER size */
-                    while(y<height &&
+                    while(row != NULL && y<height &&
                           fread(row, sizeof(uint8_t)*(width*3), 1, fin))
                     {
                         row_idx = 0;
                         x = 0;
                         while(x<width)
                         {
-                            red = (uint8_t)((row[row_idx++]/depth)*255);
-                            green = (uint8_t)((row[row_idx++]/depth)*255);
-                            blue = (uint8_t)((row[row_idx++]/depth)*255);
+                            red = row[row_idx++];
+                            red = (uint8_t)(CLAMP(red/depth, 0.f, 1.f)*255);
+                            green = row[row_idx++];
+                            green = (uint8_t)(CLAMP(green/depth, 0.f, 1.f)*255);
+                            blue = row[row_idx++];
+                            blue = (uint8_t)(CLAMP(blue/depth, 0.f, 1.f)*255);
                             values[output_idx] = 0x000000FF;
                             values[output_idx] |= red << 8;
                             values[output_idx] |= green << 16;
-                            values[output_idx++] |= blue << 24;
+                            values[output_idx++] |= (uint32_t)blue << 24;
                             x++;
                         }
                         y++;
@@ -144,7 +159,7 @@ char ppm_read(const char* name, uint32_t* values)
                 {
                     uint16_t* row = (uint16_t*)malloc(sizeof(uint16_t)*width*3);
                     /* read a pixel block of READ_BUFFER size */
-                    while(y<height &&
+                    while(row != NULL && y<height &&
                           fread(row, sizeof(uint16_t)*(width*3), 1, fin))
                     {
                         row_idx = 0;
@@ -164,7 +179,7 @@ char ppm_read(const char* name, uint32_t* values)
                             values[output_idx] = 0x000000FF;
                             values[output_idx] |= red << 8;
                             values[output_idx] |= green << 16;
-                            values[output_idx++] |= blue << 24;
+                            values[output_idx++] |= (uint32_t)blue << 24;
                             x++;
                         }
                         y++;
@@ -174,6 +189,9 @@ char ppm_read(const char* name, uint32_t* values)
                 retval = output_idx == width*height;
             }
         }
+        /* a number may have been cut by a read error */
+        if(ferror(fin))
+            retval = 0;
         fclose(fin);
     }
     return retval;
-- 
2.43.0


From efc7cd5e1de0b19f8f8222784b08471cc2c557bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 13/77] fix: tga files: unreported write errors, damaged files
 accepted or crashing

---
 src/utility/imageio/tga.c | 117 ++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 68 deletions(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 182962c..73cb906 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -35,6 +35,9 @@ static char valid_header(struct tga_header* header)
                header->bpp == 16 || header->bpp == 15);
     retval &= header->colourmap_type == 0;
     retval &= descriptor == 0 || descriptor == TGA_UPPER_ORIGIN;
+    retval &= header->width != 0 && header->height != 0 &&
+              ENDIANNESS_LITTLE16(header->height)<=
+              INT32_MAX/4/ENDIANNESS_LITTLE16(header->width);
     return retval;
 }
 
@@ -75,7 +78,11 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
 {
     const char BPP = 3;
     char retval = 0;
-    FILE* fout = fopen(name, "wb");
+    FILE* fout;
+    /* the header has only 16 bits for each dimension */
+    if(width>UINT16_MAX || height>UINT16_MAX)
+        return 0;
+    fout = fopen(name, "wb");
     if(fout != NULL)
     {
         struct tga_header header;
@@ -90,8 +97,9 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
         header.bpp = BPP << 3;
         header.img_descriptor = TGA_UPPER_ORIGIN;
         row = (uint8_t*)malloc(sizeof(uint8_t)*(width*BPP));
-        fwrite(&header, sizeof(struct tga_header), 1, fout);
-        for(y = 0; y<height; y++)
+        retval = row != NULL &&
+                 fwrite(&header, sizeof(struct tga_header), 1, fout);
+        for(y = 0; y<height && retval; y++)
         {
             for(x = 0; x<width; x++)
             {
@@ -101,11 +109,13 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
                 row[x*BPP+2] = (data[y*width+x] & 0x0000FF00) >> 8; /* Red   */
                 data_idx += BPP;
             }
-            fwrite(row, sizeof(uint8_t), BPP*width, fout);
+            retval = fwrite(row, BPP*width, 1, fout) == 1;
         }
-        fclose(fout);
         free(row);
-        retval = data_idx == width*height*BPP;
+        retval = retval && data_idx == width*height*BPP;
+        /* the last bytes may be written (and refused) only now */
+        if(fclose(fout) != 0)
+            retval = 0;
     }
     return retval;
 }
@@ -164,7 +174,7 @@ char tga_read(const char* name, uint32_t* values)
                         values[i] = 0x000000FF;
                         values[i] |= pixel[2] << 8;  /* Red   */
                         values[i] |= pixel[1] << 16; /* Green */
-                        values[i] |= pixel[0] << 24; /* Blue  */
+                        values[i] |= (uint32_t)pixel[0] << 24; /* Blue  */
                     }
                     else if(BPP == 4) /* 32 bit no RLE */
                     {
@@ -172,7 +182,7 @@ char tga_read(const char* name, uint32_t* values)
                         values[i] |= pixel[3] << 0;  /* Alpha */
                         values[i] |= pixel[2] << 8;  /* Red   */
                         values[i] |= pixel[1] << 16; /* Green */
-                        values[i] |= pixel[0] << 24; /* Blue  */
+                        values[i] |= (uint32_t)pixel[0] << 24; /* Blue  */
                     }
                     else /* 16 bit no RLE */
                     {
@@ -182,7 +192,7 @@ char tga_read(const char* name, uint32_t* values)
                         values[i] |= ((pixel[1] & 0x7C) << 1) << 8;
                         values[i] |= ((pixel[1] & 0x03) << 6 |
                                       (pixel[0] & 0xE0) >> 2) << 16;
-                        values[i] |= ((pixel[0] & 0x1F) << 3) << 24;
+                        values[i] |= (uint32_t)((pixel[0] & 0x1F) << 3) << 24;
                     }
                     i++;
                     written++;
@@ -190,72 +200,30 @@ char tga_read(const char* name, uint32_t* values)
                 }
                 else /* RLE compression */
                 {
-                    if(pixel[0] & 0x80) /* RLE */
-                    {
-                        int rle_len = 1+(pixel[0] & 0x7F);
-                        for(rle = 0; rle<rle_len; rle++)
-                        {
-                            if(BPP == 3) /* 24 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else if(BPP == 4) /* 32 bit no RLE */
-                            {
-                                values[i] = 0x00000000;
-                                values[i] |= pixel[4] << 0;  /* Alpha */
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else /* 16 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                /* the shift is a multiplication by 8 */
-                                /* used to map a value from 0-31 to 0-255 */
-                                values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
-                                values[i] |= ((pixel[2] & 0x03) << 6 |
-                                              (pixel[1] & 0xE0) >> 2) << 16;
-                                values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
-                            }
-                            i++;
-                            written++;
-                            x++;
-                            if(x == WIDTH) /* wrap line */
-                            {
-                                y += increment;
-                                if(y == ymax) /* endgame */
-                                {
-                                    /* set condition to break both loops */
-                                    y = ymax-increment;
-                                    x = WIDTH;
-                                }
-                                else
-                                    x = 0;
-                                i = y*WIDTH;
-                            }
-                        }
-                    }
-                    else /* normal */
+                    /* a packet is either a pixel repeated LEN times or LEN
+                       different pixels. The first one was already read */
+                    const char RAW = (pixel[0] & 0x80) == 0;
+                    const int LEN = 1+(pixel[0] & 0x7F);
+                    for(rle = 0; rle<LEN; rle++)
                     {
-                        if(BPP == 3) /* 24 bit no RLE */
+                        if(RAW && rle>0 && !fread(pixel+1, BPP, 1, fin))
+                            break;
+                        if(BPP == 3) /* 24 bit */
                         {
                             values[i] = 0x000000FF;
                             values[i] |= pixel[3] << 8;  /* Red   */
                             values[i] |= pixel[2] << 16; /* Green */
-                            values[i] |= pixel[1] << 24; /* Blue  */
+                            values[i] |= (uint32_t)pixel[1] << 24; /* Blue  */
                         }
-                        else if(BPP == 4) /* 32 bit no RLE */
+                        else if(BPP == 4) /* 32 bit */
                         {
                             values[i] = 0x00000000;
                             values[i] |= pixel[4] << 0;  /* Alpha */
                             values[i] |= pixel[3] << 8;  /* Red   */
                             values[i] |= pixel[2] << 16; /* Green */
-                            values[i] |= pixel[1] << 24; /* Blue  */
+                            values[i] |= (uint32_t)pixel[1] << 24; /* Blue  */
                         }
-                        else /* 16 bit no RLE */
+                        else /* 16 bit */
                         {
                             values[i] = 0x000000FF;
                             /* the shift is a multiplication by 8 */
@@ -263,18 +231,31 @@ char tga_read(const char* name, uint32_t* values)
                             values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
                             values[i] |= ((pixel[2] & 0x03) << 6 |
                                           (pixel[1] & 0xE0) >> 2) << 16;
-                            values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
+                            values[i] |= (uint32_t)((pixel[1] & 0x1F) << 3) << 24;
                         }
-                        x++;
-                        written++;
                         i++;
+                        written++;
+                        x++;
+                        if(x == WIDTH) /* wrap line */
+                        {
+                            y += increment;
+                            if(y == ymax) /* endgame */
+                            {
+                                /* set condition to break every loop */
+                                y = ymax-increment;
+                                x = WIDTH;
+                                break;
+                            }
+                            else
+                                x = 0;
+                            i = y*WIDTH;
+                        }
                     }
-
                 }
             }
             y += increment;
         }
-        retval = WIDTH*HEIGHT == written;
+        retval = WIDTH*HEIGHT == written && !ferror(fin);
     }
     fclose(fin);
     return retval;
-- 
2.43.0


From 9de15e9578fec4942762c233b13a7e4ae5301a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 14/77] fix: jpg files: unreported write errors, damaged files
 accepted or crashing

---
 src/utility/imageio/jpg.c | 174 +++++++++++++++++++++++---------------
 1 file changed, 106 insertions(+), 68 deletions(-)

diff --git a/src/utility/imageio/jpg.c b/src/utility/imageio/jpg.c
index 5031ba6..73d4050 100644
--- a/src/utility/imageio/jpg.c
+++ b/src/utility/imageio/jpg.c
@@ -2,13 +2,44 @@
 /*  license: MIT                */
 
 #include "jpg.h"
+#include <limits.h>
+#include <setjmp.h>
 
 #define UNUSED(x) (void)(x)
 
+/* error manager that returns to the caller of the library upon errors */
+struct jpg_error_mgr
+{
+    struct jpeg_error_mgr base; /* must be the first one */
+    jmp_buf caller;
+};
+
 static void jpg_error(j_common_ptr jpg_img)
+{
+    /* avoid terminating program if jpg error is encountered. The library can
+       not continue after an error, so this function must not return */
+    longjmp(((struct jpg_error_mgr*)jpg_img->err)->caller, 1);
+}
+
+static void jpg_message(j_common_ptr jpg_img)
 {
     UNUSED(jpg_img);
-    /* avoid terminating program if jpg error is encountered */
+}
+
+static struct jpeg_error_mgr* jpg_init_error(struct jpg_error_mgr* jpg_err)
+{
+    memset(jpg_err, 0, sizeof(struct jpg_error_mgr));
+    jpeg_std_error(&(jpg_err->base));
+    jpg_err->base.error_exit = jpg_error;
+    jpg_err->base.output_message = jpg_message;
+    return &(jpg_err->base);
+}
+
+/* the library accepts dimensions that overflow the buffer of the caller */
+static char valid_dimensions(const struct jpeg_decompress_struct* jpg_img)
+{
+    return jpg_img->image_width>0 && jpg_img->image_height>0 &&
+           jpg_img->image_height<=INT_MAX/sizeof(uint32_t)/jpg_img->image_width;
 }
 
 char jpg_write(const char* name, int width, int height, const uint32_t* data)
@@ -18,40 +49,42 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
     if(fout != NULL)
     {
         struct jpeg_compress_struct jpg_img;
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         int i;
         JSAMPROW current_row;
         /*not the best thing, but the jpeg functions wants a modifiable array*/
         uint8_t* data_nc = (uint8_t*)malloc(sizeof(uint8_t)*width*height*3);
         memset(&jpg_img, 0, sizeof(jpg_img));
-        memset(&jpg_err, 0, sizeof(jpg_err));
-        for(i = 0; i<width*height; i++)
+        for(i = 0; i<width*height && data_nc != NULL; i++)
         {
             /* convert BGRA to RGB */
             data_nc[i*3+0] = (data[i] & 0x0000FF00) >> 8;
             data_nc[i*3+1] = (data[i] & 0x00FF0000) >> 16;
             data_nc[i*3+2] = (data[i] & 0xFF000000) >> 24;
         }
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_compress(&jpg_img);
-        jpeg_stdio_dest(&jpg_img, fout);
-        jpg_img.image_width = width;
-        jpg_img.image_height = height;
-        jpg_img.input_components = 3;
-        jpg_img.in_color_space = JCS_RGB;
-        jpeg_set_defaults(&jpg_img);
-        jpeg_set_quality(&jpg_img, 100, 1);
-        jpeg_start_compress(&jpg_img, 1);
-        while(jpg_img.next_scanline<jpg_img.image_height)
+        jpg_img.err = jpg_init_error(&jpg_err);
+        if(setjmp(jpg_err.caller) == 0 && data_nc != NULL)
         {
-            current_row = data_nc+jpg_img.next_scanline*3*width;
-            jpeg_write_scanlines(&jpg_img, &current_row, 1);
+            jpeg_create_compress(&jpg_img);
+            jpeg_stdio_dest(&jpg_img, fout);
+            jpg_img.image_width = width;
+            jpg_img.image_height = height;
+            jpg_img.input_components = 3;
+            jpg_img.in_color_space = JCS_RGB;
+            jpeg_set_defaults(&jpg_img);
+            jpeg_set_quality(&jpg_img, 100, 1);
+            jpeg_start_compress(&jpg_img, 1);
+            while(jpg_img.next_scanline<jpg_img.image_height)
+            {
+                current_row = data_nc+jpg_img.next_scanline*3*width;
+                jpeg_write_scanlines(&jpg_img, &current_row, 1);
+            }
+            jpeg_finish_compress(&jpg_img);
+            retval = jpg_err.base.num_warnings == 0;
         }
-        retval = 1;
-        jpeg_finish_compress(&jpg_img);
-        fclose(fout);
+        /* the last bytes may be written (and refused) only now */
+        if(fclose(fout) != 0)
+            retval = 0;
         free(data_nc);
         jpeg_destroy_compress(&jpg_img);
     }
@@ -66,19 +99,18 @@ char jpg_valid(const char* name)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
-        memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        /* check if the header is correct. The actual error handling does
-         * nothing, as the detection is performed by the read_header retval and
-         * distinguishing between errors is not required
-         */
-        retval = jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK;
+        jpg_img.err = jpg_init_error(&jpg_err);
+        if(setjmp(jpg_err.caller) == 0)
+        {
+            jpeg_create_decompress(&jpg_img);
+            jpeg_stdio_src(&jpg_img, fin);
+            /* check if the header is correct. Distinguishing between errors is
+             * not required
+             */
+            retval = jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK;
+        }
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
@@ -93,15 +125,17 @@ char jpg_dimensions(const char* name, int* width, int* height)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
-        memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
+        jpg_img.err = jpg_init_error(&jpg_err);
+        if(setjmp(jpg_err.caller) == 0)
+        {
+            jpeg_create_decompress(&jpg_img);
+            jpeg_stdio_src(&jpg_img, fin);
+            retval = jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK &&
+                     valid_dimensions(&jpg_img);
+        }
+        if(retval)
         {
             /* actual data written in the header. To get the real value I should
              * call the jpeg_decompress and read output_width and output_height.
@@ -110,7 +144,6 @@ char jpg_dimensions(const char* name, int* width, int* height)
              */
             *width = jpg_img.image_width;
             *height = jpg_img.image_height;
-            retval = 1;
         }
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
@@ -131,38 +164,43 @@ char jpg_read(const char* name, uint32_t* values)
         uint8_t* row;
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
-        memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
+        jpg_img.err = jpg_init_error(&jpg_err);
+        if(setjmp(jpg_err.caller) == 0)
         {
-            jpeg_start_decompress(&jpg_img);
-            row_len = jpg_img.output_width*jpg_img.output_components;
-            row = (uint8_t*)malloc(sizeof(uint8_t)*row_len);
-            retval = 1;
-            while(jpg_img.output_scanline<jpg_img.output_height)
+            jpeg_create_decompress(&jpg_img);
+            jpeg_stdio_src(&jpg_img, fin);
+            if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK &&
+               valid_dimensions(&jpg_img))
             {
-                y = jpg_img.output_scanline;
-                retval &= jpeg_read_scanlines(&jpg_img, &row, 1)>0;
-                x = 0;
-                while(x<jpg_img.output_width)
+                /* three channels per pixel also for grayscale images */
+                jpg_img.out_color_space = JCS_RGB;
+                jpeg_start_decompress(&jpg_img);
+                row_len = jpg_img.output_width*jpg_img.output_components;
+                /* allocated by the library, released by the destroy */
+                row = (*jpg_img.mem->alloc_small)((j_common_ptr)&jpg_img,
+                                                  JPOOL_IMAGE, row_len);
+                while(jpg_img.output_scanline<jpg_img.output_height)
                 {
-                    int i = y*jpg_img.output_width+x;
-                    values[i] = 0x000000FF;
-                    values[i] |= row[x*3+0] << 8;
-                    values[i] |= row[x*3+1] << 16;
-                    values[i] |= row[x*3+2] << 24;
-                    x++;
+                    y = jpg_img.output_scanline;
+                    jpeg_read_scanlines(&jpg_img, &row, 1);
+                    x = 0;
+                    while(x<jpg_img.output_width)
+                    {
+                        int i = y*jpg_img.output_width+x;
+                        values[i] = 0x000000FF;
+                        values[i] |= row[x*3+0] << 8;
+                        values[i] |= row[x*3+1] << 16;
+                        values[i] |= (uint32_t)row[x*3+2] << 24;
+                        x++;
+                    }
                 }
+                jpeg_finish_decompress(&jpg_img);
+                /* a truncated or damaged file generates just a warning */
+                retval = jpg_err.base.num_warnings == 0;
             }
-            free(row);
         }
-        jpeg_finish_decompress(&jpg_img);
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
-- 
2.43.0


From 56ef17ced4da737b477848bce3259d4b7f740a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 15/77] fix: png files: unreported write errors, damaged files
 accepted or crashing

---
 src/utility/imageio/png.c | 191 ++++++++++++++++++++++----------------
 1 file changed, 110 insertions(+), 81 deletions(-)

diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index 51432ab..1140041 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -2,6 +2,7 @@
 /*  license: MIT                */
 
 #include "png.h"
+#include <limits.h>
 
 char png_write(const char* name, int width, int height, const uint32_t* data)
 {
@@ -13,39 +14,53 @@ char png_write(const char* name, int width, int height, const uint32_t* data)
         int x;
         int y;
         png_structp png_img;
-        png_infop png_info;
+        png_infop png_info = NULL;
+        png_bytep* rows;
         /* avoid discarding const from data */
-        png_bytep* rows = (png_bytep*)malloc(sizeof(png_bytep)*height);
-        for(y = 0; y<height; y++)
+        uint8_t* data_nc = (uint8_t*)malloc((size_t)width*height*COMPONENTS);
+        rows = (png_bytep*)malloc(sizeof(png_bytep)*height);
+        png_img = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
+                                          NULL);
+        if(png_img != NULL)
+            png_info = png_create_info_struct(png_img);
+        if(data_nc != NULL && rows != NULL && png_info != NULL &&
+           setjmp(png_jmpbuf(png_img)) == 0)
         {
-            rows[y] = (png_bytep)malloc(sizeof(png_bytep)*width*COMPONENTS);
-            for(x = 0; x<width; x++)
+            for(y = 0; y<height; y++)
             {
-                rows[y][x*3+0] = (data[y*width+x] & 0x0000FF00) >> 8;
-                rows[y][x*3+1] = (data[y*width+x] & 0x00FF0000) >> 16;
-                rows[y][x*3+2] = (data[y*width+x] & 0xFF000000) >> 24;
+                rows[y] = data_nc+(size_t)y*width*COMPONENTS;
+                for(x = 0; x<width; x++)
+                {
+                    rows[y][x*3+0] = (data[y*width+x] & 0x0000FF00) >> 8;
+                    rows[y][x*3+1] = (data[y*width+x] & 0x00FF0000) >> 16;
+                    rows[y][x*3+2] = (data[y*width+x] & 0xFF000000) >> 24;
+                }
             }
+            png_init_io(png_img, fout);
+            png_set_IHDR(png_img, png_info, width, height,
+                         8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
+                         PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
+            png_write_info(png_img, png_info);
+            png_write_image(png_img, rows);
+            png_write_end(png_img, NULL);
+            retval = 1;
         }
-        png_img = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
-                                          NULL);
-        png_info = png_create_info_struct(png_img);
-        png_init_io(png_img, fout);
-        png_set_IHDR(png_img, png_info, width, height,
-                     8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
-                     PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
-        png_write_info(png_img, png_info);
-        png_write_image(png_img, rows);
-        png_write_end(png_img, NULL);
-        for(y = 0; y<height; y++)
-            free(rows[y]);
-        free(rows);
         png_destroy_write_struct(&png_img, &png_info);
-        fclose(fout);
-        retval = 1;
+        free(rows);
+        free(data_nc);
+        /* the last bytes may be written (and refused) only now */
+        if(fclose(fout) != 0)
+            retval = 0;
     }
     return retval;
 }
 
+/* the library accepts dimensions that overflow the buffer of the caller */
+static char valid_dimensions(int width, int height)
+{
+    return width>0 && height>0 && height<=INT_MAX/(int)sizeof(uint32_t)/width;
+}
+
 char png_valid(const char* name)
 {
     char retval = 0;
@@ -53,8 +68,8 @@ char png_valid(const char* name)
     if(fin != NULL)
     {
         uint8_t header[8];
-        fread(header, 1, 8, fin);
-        retval = png_sig_cmp(header, 0, 8) == 0;
+        retval = fread(header, 1, 8, fin) == 8 &&
+                 png_sig_cmp(header, 0, 8) == 0;
         fclose(fin);
     }
     return retval;
@@ -68,20 +83,23 @@ char png_dimensions(const char* name, int* width, int* height)
     {
         uint8_t header[8];
         png_structp png_img;
-        png_infop png_info;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        png_infop png_info = NULL;
+        if(fread(header, 1, 8, fin) == 8 && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
-            png_info = png_create_info_struct(png_img);
-            png_init_io(png_img, fin);
-            png_set_sig_bytes(png_img, 8);
-            png_read_info(png_img, png_info);
-            *width = png_get_image_width(png_img, png_info);
-            *height = png_get_image_height(png_img, png_info);
+            if(png_img != NULL)
+                png_info = png_create_info_struct(png_img);
+            if(png_info != NULL && setjmp(png_jmpbuf(png_img)) == 0)
+            {
+                png_init_io(png_img, fin);
+                png_set_sig_bytes(png_img, 8);
+                png_read_info(png_img, png_info);
+                *width = png_get_image_width(png_img, png_info);
+                *height = png_get_image_height(png_img, png_info);
+                retval = valid_dimensions(*width, *height);
+            }
             png_destroy_read_struct(&png_img, &png_info, NULL);
-            retval = 1;
         }
         fclose(fin);
     }
@@ -97,66 +115,77 @@ char png_read(const char* name, uint32_t* values)
         int y;
         int x;
         uint8_t header[8];
-        png_byte** rows;
+        png_byte** volatile rows = NULL;
         png_structp png_img;
-        png_infop png_info;
+        png_infop png_info = NULL;
         int width;
         int height;
         int color_type;
         int bpp;
         int index_rgb;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 1, 8, fin) == 8 && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
-            png_info = png_create_info_struct(png_img);
-            png_init_io(png_img, fin);
-            png_set_sig_bytes(png_img, 8);
-            png_read_info(png_img, png_info);
-
-            width = png_get_image_width(png_img, png_info);
-            height = png_get_image_height(png_img, png_info);
-            color_type = png_get_color_type(png_img, png_info);
-            bpp = png_get_bit_depth(png_img, png_info);
-            /* -------- Convert every possible PNG to RGBA format ----------- */
-            if(bpp == 16)
-                png_set_strip_16(png_img);
-            if(color_type == PNG_COLOR_TYPE_PALETTE)
-                png_set_palette_to_rgb(png_img);
-            if(color_type == PNG_COLOR_TYPE_GRAY && bpp<8)
-                png_set_expand_gray_1_2_4_to_8(png_img);
-            if(png_get_valid(png_img, png_info, PNG_INFO_tRNS))
-                png_set_tRNS_to_alpha(png_img);
-            /* write 0xFF as alpha */
-            if(color_type == PNG_COLOR_TYPE_RGB ||
-               color_type == PNG_COLOR_TYPE_GRAY ||
-               color_type == PNG_COLOR_TYPE_PALETTE)
-                png_set_filler(png_img, 0xFF, PNG_FILLER_AFTER);
-            if(color_type == PNG_COLOR_TYPE_GRAY ||
-               color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
-                png_set_gray_to_rgb(png_img);
-            /* -------------------------------------------------------------- */
-            png_read_update_info(png_img, png_info);
-            rows = (png_byte**)malloc(sizeof(png_byte*)*height);
-            for(y = 0; y<height; y++)
-                rows[y] = (png_byte*)malloc(sizeof(png_byte)*width*4);
-            png_read_image(png_img, rows);
-            index_rgb = 0;
-            for(y = 0; y<height; y++)
+            if(png_img != NULL)
+                png_info = png_create_info_struct(png_img);
+            if(png_info != NULL && setjmp(png_jmpbuf(png_img)) == 0)
             {
-                for(x = 0; x<width; x++)
+                png_init_io(png_img, fin);
+                png_set_sig_bytes(png_img, 8);
+                png_read_info(png_img, png_info);
+
+                width = png_get_image_width(png_img, png_info);
+                height = png_get_image_height(png_img, png_info);
+                color_type = png_get_color_type(png_img, png_info);
+                bpp = png_get_bit_depth(png_img, png_info);
+                /* -------- Convert every possible PNG to RGBA format ----------- */
+                if(bpp == 16)
+                    png_set_strip_16(png_img);
+                if(color_type == PNG_COLOR_TYPE_PALETTE)
+                    png_set_palette_to_rgb(png_img);
+                if(color_type == PNG_COLOR_TYPE_GRAY && bpp<8)
+                    png_set_expand_gray_1_2_4_to_8(png_img);
+                if(png_get_valid(png_img, png_info, PNG_INFO_tRNS))
+                    png_set_tRNS_to_alpha(png_img);
+                /* write 0xFF as alpha */
+                if(color_type == PNG_COLOR_TYPE_RGB ||
+                   color_type == PNG_COLOR_TYPE_GRAY ||
+                   color_type == PNG_COLOR_TYPE_PALETTE)
+                    png_set_filler(png_img, 0xFF, PNG_FILLER_AFTER);
+                if(color_type == PNG_COLOR_TYPE_GRAY ||
+                   color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
+                    png_set_gray_to_rgb(png_img);
+                /* -------------------------------------------------------------- */
+                png_read_update_info(png_img, png_info);
+                if(valid_dimensions(width, height) &&
+                   png_get_rowbytes(png_img, png_info) == (size_t)width*4)
+                    rows = (png_byte**)malloc(sizeof(png_byte*)*height);
+                if(rows != NULL)
                 {
-                    values[index_rgb] = rows[y][x*4+3];
-                    values[index_rgb] |= rows[y][x*4+2] << 24;
-                    values[index_rgb] |= rows[y][x*4+1] << 16;
-                    values[index_rgb++] |= rows[y][x*4+0] << 8;
+                    /* read directly in the output and then reorder it */
+                    for(y = 0; y<height; y++)
+                        rows[y] = (png_byte*)(values+(size_t)y*width);
+                    png_read_image(png_img, rows);
+                    png_read_end(png_img, NULL);
+                    index_rgb = 0;
+                    for(y = 0; y<height; y++)
+                    {
+                        for(x = 0; x<width; x++)
+                        {
+                            const png_byte* pixel = rows[y]+x*4;
+                            uint32_t value = pixel[3];
+                            value |= (uint32_t)pixel[2] << 24;
+                            value |= (uint32_t)pixel[1] << 16;
+                            value |= (uint32_t)pixel[0] << 8;
+                            values[index_rgb++] = value;
+                        }
+                    }
+                    retval = index_rgb == width*height;
                 }
-                free(rows[y]);
             }
-            free(rows);
+            free((void*)rows);
             png_destroy_read_struct(&png_img, &png_info, NULL);
-            retval = index_rgb == width*height;
         }
         fclose(fin);
     }
-- 
2.43.0


From d3267162b599c597401d50cea9d0fef6eff8c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 16/77] fix: tiff files: unreported write errors, damaged files
 accepted or crashing

---
 src/utility/imageio/tiff.c | 49 +++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 36931a9..b343d1f 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -2,6 +2,7 @@
 /*  license: MIT                */
 
 #include "tiff.h"
+#include <limits.h>
 
 char tiff_write(const char* name, int width, int height, const uint32_t* data)
 {
@@ -15,6 +16,8 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
         int y = 0;
         int x = 0;
         uint8_t* row;
+        const TIFFCloseProc close_file = TIFFGetCloseProc(fout);
+        const thandle_t file = TIFFClientdata(fout);
         TIFFSetField(fout, TIFFTAG_IMAGEWIDTH, width);
         TIFFSetField(fout, TIFFTAG_IMAGELENGTH, height);
         TIFFSetField(fout, TIFFTAG_SAMPLESPERPIXEL, 3);
@@ -23,7 +26,7 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
         TIFFSetField(fout, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
         TIFFSetField(fout, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB);
         row = (uint8_t*)_TIFFmalloc(TIFFScanlineSize(fout));
-        while(y<height)
+        while(row != NULL && y<height)
         {
             x = 0;
             while(x<width)
@@ -33,12 +36,16 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
                 row[x*3+2] = (data[y*width+x] & 0xFF000000) >> 24;
                 x++;
             }
-            if(TIFFWriteScanline(fout, row, y++, 0)<0)
+            if(TIFFWriteScanline(fout, row, y, 0)<0)
                 break;
+            y++;
         }
         _TIFFfree(row);
-        TIFFClose(fout);
-        retval = y == height;
+        /* same as TIFFClose, that does not report errors */
+        retval = y == height && TIFFFlush(fout);
+        TIFFCleanup(fout);
+        if(close_file(file) != 0)
+            retval = 0;
     }
     return retval;
 }
@@ -58,6 +65,14 @@ char tiff_valid(const char* name)
     return retval;
 }
 
+static char read_dimensions(TIFF* fin, int* width, int* height)
+{
+    return TIFFGetField(fin, TIFFTAG_IMAGEWIDTH, width) &&
+           TIFFGetField(fin, TIFFTAG_IMAGELENGTH, height) &&
+           *width>0 && *height>0 &&
+           *height<=INT_MAX/(int)sizeof(uint32_t)/ *width;
+}
+
 char tiff_dimensions(const char* name, int* width, int* height)
 {
     char retval = 0;
@@ -67,8 +82,14 @@ char tiff_dimensions(const char* name, int* width, int* height)
     fin = TIFFOpen(name, "r");
     if(fin != NULL)
     {
-        retval |= TIFFGetField(fin, TIFFTAG_IMAGEWIDTH, width);
-        retval &= TIFFGetField(fin, TIFFTAG_IMAGELENGTH, height);
+        int w = 0;
+        int h = 0;
+        if(read_dimensions(fin, &w, &h))
+        {
+            *width = w;
+            *height = h;
+            retval = 1;
+        }
         TIFFClose(fin);
     }
     return retval;
@@ -86,14 +107,14 @@ char tiff_read(const char* name, uint32_t* values)
         int width = 0;
         int height = 0;
         int channels = 0;
-        uint32_t* data;
-        retval |= TIFFGetField(fin, TIFFTAG_IMAGEWIDTH, &width);
-        retval &= TIFFGetField(fin, TIFFTAG_IMAGELENGTH, &height);
-        retval &= TIFFGetField(fin, TIFFTAG_SAMPLESPERPIXEL, &channels);
-        data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
+        uint32_t* data = NULL;
         /* The first retval is used to ensure channels/width/height are valid */
-        if(retval && (channels == 3 || channels == 4) &&
-           TIFFReadRGBAImage(fin, width, height, data, 0))
+        retval = read_dimensions(fin, &width, &height) &&
+                 TIFFGetField(fin, TIFFTAG_SAMPLESPERPIXEL, &channels);
+        if(retval)
+            data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
+        if(data != NULL && (channels == 3 || channels == 4) &&
+           TIFFReadRGBAImage(fin, width, height, data, 1))
         {
             int x;
             int y;
@@ -105,7 +126,7 @@ char tiff_read(const char* name, uint32_t* values)
                 {
                     int index = y*width+x;
                     int tif_index = (height-1-y)*width+x;
-                    values[index] = TIFFGetB(data[tif_index]) << 24;
+                    values[index] = (uint32_t)TIFFGetB(data[tif_index]) << 24;
                     values[index] |= TIFFGetG(data[tif_index]) << 16;
                     values[index] |= TIFFGetR(data[tif_index]) << 8;
                     if(HAS_ALPHA)
-- 
2.43.0


From 7933c7e0be0f3625d2e0f1bc097ee624b893932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 17/77] fix: dimensions of tiff images not available without
 jpeg

---
 src/utility/imageio/imageio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/imageio/imageio.c b/src/utility/imageio/imageio.c
index 5e15257..2e91b12 100644
--- a/src/utility/imageio/imageio.c
+++ b/src/utility/imageio/imageio.c
@@ -76,7 +76,7 @@ char img_dimensions(const char* name, const char* ext,
     else if(strcmp(ext, "png") == 0)
         retval = png_dimensions(name, width, height);
 #endif
-#ifdef JPEG_FOUND
+#ifdef TIFF_FOUND
     else if(strcmp(ext, "tif") == 0 || strcmp(ext, "tiff") == 0)
         retval = tiff_dimensions(name, width, height);
 #endif
-- 
2.43.0


From e647af4931fd0fd3c6a97f747fd1332393faa44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 18/77] fix: damaged texture files used with undefined content

---
 src/textures/texture_image.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index b333e45..108c7ee 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -14,13 +14,22 @@ TextureImage::TextureImage(const File& src, Vec2& shift, Vec2& scale,
         {
             int width;
             int height;
-            img_dimensions(src.absolute_path(), src.extension(),
-                           &width, &height);
-            if(width == height && (height & (height-1)) == 0) //power of 2
+            uint32_t* bgra_data = NULL;
+            bool valid = img_dimensions(src.absolute_path(), src.extension(),
+                                        &width, &height);
+            //side is stored in 16 bits
+            bool power2 = valid && width == height && width>0 &&
+                          width<=UINT16_MAX && (height & (height-1)) == 0;
+            if(power2) //power of 2
+            {
+                bgra_data = (uint32_t*)malloc((size_t)width*height*
+                                              sizeof(uint32_t));
+                valid = bgra_data != NULL &&
+                        img_read8(src.absolute_path(), src.extension(),
+                                  bgra_data);
+            }
+            if(power2 && valid)
             {
-                uint32_t* bgra_data = (uint32_t*)malloc(width*height*sizeof
-                        (uint32_t));
-                img_read8(src.absolute_path(), src.extension(), bgra_data);
                 switch(filter)
                 {
                     case UNFILTERED:
@@ -32,14 +41,15 @@ TextureImage::TextureImage(const File& src, Vec2& shift, Vec2& scale,
                     case EWA:imagemap = new ImageMapEWA(bgra_data, width);
                         break;
                 }
-                free(bgra_data);
                 TexLib.inherit_map(src.absolute_path(), imagemap);
             }
             else
             {
-                Console.warning(MESSAGE_TEXTURE_POWER2, src.absolute_path());
+                Console.warning(valid?MESSAGE_TEXTURE_POWER2:
+                                MESSAGE_TEXTURE_ERROR, src.absolute_path());
                 imagemap = TexLib.get_dflt_map();
             }
+            free(bgra_data);
         }
         else
         {
-- 
2.43.0


From 6b31d63b212568bd9b654cb6d3e9d8ea838a4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 19/77] fix: hits on a triangle kept the face index of an
 earlier hit

---
 src/primitives/triangle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index f25d693..72f41c6 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -115,6 +115,7 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
 
     // from here it is a guaranteed hit
     *distance = dist;
+    h->index = 0;
     h->point_h = r->apply(dist);
     //compute normal in the point, given normals in the vertices
     h->normal_h = a.n*w+b.n*u+c.n*v;
-- 
2.43.0


From e7a681065fd0a9884cae7fae5c59647b21c0efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 20/77] fix: a masked sphere hid nearer surfaces behind its far
 side

---
 src/primitives/sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 6a60ac3..47990e4 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -116,7 +116,7 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
             hit->dpdu = tmp.dpdu;
             hit->dpdv = tmp.dpdv;
         }
-        else if(!std::isnan(sol2))
+        else if(!std::isnan(sol2) && sol2<=*distance)
         {
             //repeat the procedure with second hit, first was invalidated
             hitp = r->apply(sol2);
-- 
2.43.0


From 04a29dbc65e3757cfdf6fc1ac510463065f7bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 21/77] fix: obj parser leaked its buffer and file and kept
 data of the previous file

---
 src/parsers/parser_obj.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index fbc5757..b01ef42 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -22,15 +22,16 @@ ParserObj::ParserObj()
 
 ParserObj::~ParserObj()
 {
-    if(buffer_ro != NULL)
-    {
-        buffer_ro = NULL;
-        delete buffer_ro;
-    }
+    end_parsing();
 }
 
 void ParserObj::start_parsing(const char* path)
 {
+    //drop everything about the previous file
+    end_parsing();
+    vertices.clear();
+    textures.clear();
+    normals.clear();
     ParserObj::path = path;
     lineno = 1;
     face_no = 0; //used to know when nothing was parsed
@@ -51,11 +52,8 @@ void ParserObj::start_parsing(const char* path)
 
 void ParserObj::end_parsing()
 {
-    if(buffer_ro != NULL)
-    {
-        buffer_ro = NULL;
-        delete buffer_ro;
-    }
+    free(buffer_ro);
+    buffer_ro = NULL;
     if(fin != NULL)
     {
         fclose(fin);
-- 
2.43.0


From aded1a9ce5b28c8482fb8682a018d6d11451bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 22/77] fix: obj files without a final newline hung the import
 and read errors were ignored

---
 src/localization.h         |  2 ++
 src/parsers/parser_obj.cpp | 50 ++++++++++++++++++++------------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/localization.h b/src/localization.h
index e3967a2..e30ea9f 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -122,6 +122,8 @@
 
 #define MESSAGE_INPUT_ERROR "Unable to open file %s: %s"
 
+#define MESSAGE_READ_ERROR "Error while reading file %s: %s"
+
 #define MESSAGE_TEXTURE_ERROR "Unable to load texture %s"
 
 #define MESSAGE_TEXTURE_DUPLICATE "Texture %s is already in library and won't"\
diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index b01ef42..e300313 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -8,6 +8,8 @@
 #endif
 #define END_OF_BUFFER_GUARD 0x7 //unused ASCII char, keep it as kinda EOF
 #define TOKEN_SIZE 255
+//the guard is in the file as well if the file is damaged, so check its position
+#define END_OF_BUFFER(ptr, start, len) ((ptr) == (start)+(len))
 
 static inline void get_next_token(char** source, char* buffer, int max_size,
                                   int* read_bytes, char* buffer_ro, FILE* in);
@@ -84,7 +86,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
     used_materials.insert({{"Default", 0}});
     object_name = "";
     char token[TOKEN_SIZE];
-    while(*buffer != END_OF_BUFFER_GUARD)
+    while(!END_OF_BUFFER(buffer, buffer_ro, read_bytes))
     {
         if(craft_token)
         {
@@ -298,13 +300,6 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         recreate_normals = true;
                     }
                     face_tmp.push_back(res);
-                    //  Never managed to reach this point.
-                    //  TODO: try with non POSIX files
-                    // if(*buffer == END_OF_BUFFER_GUARD)
-                    // {
-                    //     feed_buffer(&read_bytes, buffer_ro, fin);
-                    //     buffer = buffer_ro;
-                    // }
                 }
                 if(recreate_normals)
                 {
@@ -375,30 +370,39 @@ bool ParserObj::get_next_mesh(Mesh* obj)
         //skip rest of line /////////////
         while(*buffer != '\n')
         {
-            if(*buffer == END_OF_BUFFER_GUARD)
+            if(END_OF_BUFFER(buffer, buffer_ro, read_bytes))
             {
                 feed_buffer(&read_bytes, buffer_ro, fin);
                 buffer = buffer_ro;
+                if(read_bytes == 0) //file ended without a newline
+                    break;
             }
             else
                 buffer++;
         }
         //////////////////////////////////
-        if(*buffer != END_OF_BUFFER_GUARD)
+        if(!END_OF_BUFFER(buffer, buffer_ro, read_bytes))
         {
             buffer++;
             lineno++;
             //avoid leaving buffer pointer on the guard while there
             //are still bytes to read
-            if(*buffer == END_OF_BUFFER_GUARD)
+            if(END_OF_BUFFER(buffer, buffer_ro, read_bytes))
             {
                 feed_buffer(&read_bytes, buffer_ro, fin);
                 buffer = buffer_ro;
-                //if buffer is still equal END_OF_BUFFER_GUARD the file is ended
+                //if buffer is still on the guard the file is ended
             }
         }
     }
     finalize_mesh(obj);;
+    //the file ended, but not because everything was read
+    if(ferror(fin))
+    {
+        Console.severe(MESSAGE_READ_ERROR, path, strerror(errno));
+        clearerr(fin);
+        retval = false;
+    }
     return retval;
 }
 
@@ -472,17 +476,16 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
 {
     char current = **source;
     //skip spaces
-    while(current == ' ' || current == '\t' || current == END_OF_BUFFER_GUARD)
+    while(current == ' ' || current == '\t' ||
+          END_OF_BUFFER(*source, buffer_ro, *read_bytes))
     {
-        if(current == END_OF_BUFFER_GUARD)
+        if(END_OF_BUFFER(*source, buffer_ro, *read_bytes))
         {
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD)
-            //    return;
+            if(*read_bytes == 0) //end of file
+                break; //break instead of return since I want an ok token
         }
         else
         {
@@ -494,15 +497,14 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
     int i = 0;
     while(current != ' ' && current != '\n' && current != '\r')
     {
-        if(current == END_OF_BUFFER_GUARD)
+        if(END_OF_BUFFER(*source, buffer_ro, *read_bytes))
         {
-            feed_buffer(read_bytes, buffer_ro, input);
+            if(*read_bytes != 0) //otherwise the end was already reached
+                feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD) //end of file
-            //    break; //break instead of return since I want an ok token
+            if(*read_bytes == 0) //end of file
+                break; //break instead of return since I want an ok token
         }
         else
         {
-- 
2.43.0


From 0b53bd5b113659ea696a1d82363de044b9c68eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:07 +0000
Subject: [PATCH 23/77] fix: faces of obj files: missing normals, trailing
 spaces, tabs and wrong indexes

---
 src/localization.h         |  3 +++
 src/parsers/parser_obj.cpp | 51 +++++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/localization.h b/src/localization.h
index e30ea9f..6c9e0c3 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -155,6 +155,9 @@
 #define MESSAGE_INDEX_OBJ "Error while parsing file %s. "\
 "File file was malformed. Face at line %d refers to a non-existent index"
 
+#define MESSAGE_FACE_OBJ "Error while parsing file %s. "\
+"File was malformed. Face at line %d has less than three vertices"
+
 #define MESSAGE_OBJ_ERROR "Reading of file %s failed. The expected extension "\
 "was .obj but instead the file extension is .%s. File has not been "\
 "imported"
diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index e300313..687678d 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -223,10 +223,14 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             {
                 bool recreate_normals = false;
                 bool recreate_textures = false;
-                while(*buffer == ' ') //load every component of the face
+                face_tmp.clear();
+                //load every component of the face
+                while(*buffer == ' ' || *buffer == '\t')
                 {
                     get_next_token(&buffer, token, TOKEN_SIZE,
                                    &read_bytes, buffer_ro, fin);
+                    if(token[0] == '\0') //spaces at the end of the line
+                        break;
                     char* tk_idx = token; //token index
                     //process face
                     int vert_idx = 0;
@@ -239,30 +243,29 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         tk_idx++;
                         if(*tk_idx != '/') //v/vt/vn
                             text_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                        tk_idx++;
-                        norm_idx = (int)strtol(tk_idx, &tk_idx, 10);
+                        if(*tk_idx != '\0') //otherwise v/vt
+                        {
+                            tk_idx++;
+                            norm_idx = (int)strtol(tk_idx, &tk_idx, 10);
+                        }
                     }
                     //check indexes consistency
-                    if(vert_idx != 0)
+                    int vert_size = (int)vertices.size();
+                    if(vert_idx<0 && vert_idx>=-vert_size)
+                        vert_idx = vert_size+vert_idx;
+                    else if(vert_idx>0 && vert_idx<=vert_size)
+                        vert_idx--;
+                    else //every vertex needs a position, so 0 is wrong as well
                     {
-                        int vert_size = (int)vertices.size();
-                        if(vert_idx<0)
-                            vert_idx = vert_size+vert_idx;
-                        else if(vert_idx>0 && vert_idx<=vert_size)
-                            vert_idx--;
-                        else
-                        {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
-                        }
-                        res.p = vertices.at((unsigned long)vert_idx);
+                        Console.severe(MESSAGE_INDEX_OBJ, path, lineno);
+                        finalize_mesh(obj);
+                        return false;
                     }
+                    res.p = vertices.at((unsigned long)vert_idx);
                     if(text_idx != 0)
                     {
                         int text_size = (int)textures.size();
-                        if(text_idx<0)
+                        if(text_idx<0 && text_idx>=-text_size)
                             text_idx = text_size+text_idx;
                         else if(text_idx>0 && text_idx<=text_size)
                             text_idx--;
@@ -282,7 +285,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     if(norm_idx != 0)
                     {
                         int norm_size = (int)normals.size();
-                        if(norm_idx<0)
+                        if(norm_idx<0 && norm_idx>=-norm_size)
                             norm_idx = norm_size+norm_idx;
                         else if(norm_idx>0 && norm_idx<=norm_size)
                             norm_idx--;
@@ -301,7 +304,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     }
                     face_tmp.push_back(res);
                 }
-                if(recreate_normals)
+                if(recreate_normals && face_tmp.size()>2)
                 {
                     //the normal should be created for the entire face
                     //no risk of losing info: if the normal is missing
@@ -356,8 +359,9 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         face_no++;
                     }
                 }
-                else //face with less than 2 vertex. not even writing to
-                {    // console
+                else //face with less than 3 vertices
+                {
+                    Console.severe(MESSAGE_FACE_OBJ, path, lineno);
                     finalize_mesh(obj);
                     return false;
                 }
@@ -495,7 +499,8 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
     }
     //get token
     int i = 0;
-    while(current != ' ' && current != '\n' && current != '\r')
+    while(current != ' ' && current != '\t' && current != '\n' &&
+          current != '\r')
     {
         if(END_OF_BUFFER(*source, buffer_ro, *read_bytes))
         {
-- 
2.43.0


From b7bb5af0ed46d0bf2fee2e0e6c48a236e4446f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:33 +0000
Subject: [PATCH 24/77] fix: objects without faces ended the import of obj
 files

---
 src/parsers/parser_obj.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 687678d..b546df4 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -130,6 +130,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         normals.emplace_back(x, y, z);
                         break;
                     }
+                    case 'p': //parameter space vertices, used by freeforms
+                        break;
                     default: //vertices
                     {
                         float x, y, z;
@@ -183,7 +185,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             case 'o':
             {
                 //old object finished, bail out
-                if(object_name != "")
+                if(object_name != "" && face_no>0)
                 {
                     //since the original get_next_token already ate the 'g'
                     //buffer needs to be decremented. But buffer could have
@@ -201,7 +203,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             }
             case 'g':
             {
-                if(object_name != "" && groups_as_names)
+                if(object_name != "" && groups_as_names && face_no>0)
                 {
                     //like in the 'o' switch, but craft a 'g' instead
                     craft_token = 'g';
-- 
2.43.0


From 732ab461498c387c33b2009fe463515f11467094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 25/77] fix: files chained after the first one were searched in
 the wrong folder

---
 src/parsers/config_driver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ccb2c41..6e358ca 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -70,9 +70,12 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     children.clear();
     for(unsigned int i = 0; i<consolidated_children.size(); i++)
     {
-        File file1 = is_absolute(consolidated_children[i].c_str())?
-                     File(consolidated_children[i].c_str()):
-                     current_dir.append(consolidated_children[i].c_str());
+        //append() modifies the File, so work on a copy of the current folder
+        File file1(current_dir);
+        if(is_absolute(consolidated_children[i].c_str()))
+            file1 = File(consolidated_children[i].c_str());
+        else
+            file1.append(consolidated_children[i].c_str());
         file = file1.absolute_path();
         if(file1.exists())
         {
-- 
2.43.0


From 2cf39e4c28f199b8060c0a6dbbdba71dd8dfc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:01 +0000
Subject: [PATCH 26/77] fix: message for a missing chained file read a
 non-existent argument

---
 src/parsers/config_driver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 6e358ca..1609940 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -2,6 +2,8 @@
 //license: GNU GPLv3
 
 #include "config_driver.hpp"
+#include <cerrno> //ENOENT
+#include <cstring> //strerror
 
 ///minimum value for ParsedMaterial::rough_x when the material is not specular
 #define MIN_ROUGHNESS 0.001f
@@ -84,7 +86,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
             scan_end();
         }
         else
-            Console.severe(MESSAGE_INPUT_ERROR, file.c_str());
+            Console.severe(MESSAGE_INPUT_ERROR, file.c_str(), strerror(ENOENT));
     }
     //free some memory
     consolidated_children.clear();
-- 
2.43.0


From 0ac188e444d896f004bd5b64e7d799251e7a2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 27/77] fix: textures with the same file name in different
 folders were confused

---
 src/parsers/config_driver.cpp    | 26 +++++++++++++++++++++++---
 src/parsers/config_driver.hpp    | 16 ++++++++++++++--
 src/parsers/config_parser.tab.cc |  8 ++++----
 src/parsers/config_parser.y      |  8 ++++----
 4 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 1609940..e105f4d 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -122,6 +122,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
 
     //delete everything else used for parsing
     all_textures.clear();
+    unnamed_textures.clear();
     children.clear();
     deferred_materials.clear();
     deferred_dualmats.clear();
@@ -263,7 +264,8 @@ const TextureUniform* ConfigDriver::load_texture_uniform()
     return val;
 }
 
-const TextureImage* ConfigDriver::load_texture(const std::string& path)
+const TextureImage* ConfigDriver::load_texture(const std::string& path,
+                                               bool definition)
 {
 
     File cur_file = current_dir;
@@ -274,12 +276,30 @@ const TextureImage* ConfigDriver::load_texture(const std::string& path)
     else
         cur_file.append(path.c_str());
     //resolve texture name
-    if(tex_name.empty())
+    if(definition && tex_name.empty())
+    {
+        //textures defined without a name are known by their filename
         tex_name = cur_file.filename();
+        if(!TexLib.contains_texture(tex_name))
+            unnamed_textures.insert({{cur_file.absolute_path(), tex_name}});
+    }
+    else if(!definition)
+    {
+        //search in the library, otherwise consider it as a path. Files are
+        //identified by their whole path: two of them may share the filename
+        std::unordered_map<std::string, std::string>::const_iterator unnamed;
+        unnamed = unnamed_textures.find(cur_file.absolute_path());
+        if(TexLib.contains_texture(path))
+            tex_name = path;
+        else if(unnamed != unnamed_textures.end())
+            tex_name = unnamed->second;
+        else
+            tex_name = cur_file.absolute_path();
+    }
     if(TexLib.contains_texture(tex_name))
         //TexLib already contains TextureImage
         addme = (TextureImage*)TexLib.get_texture(tex_name);
-    else if(cur_file.exists() && cur_file.readable() && !           cur_file.is_folder() &&
+    else if(cur_file.exists() && cur_file.readable() && !cur_file.is_folder() &&
        img_valid(cur_file.absolute_path(), cur_file.extension()))
     {
         //Texture Image will deal with same file but different texture names
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 43a9523..699856c 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -389,8 +389,20 @@ public:
     ///Shift factor of the texture
     Vec2 tex_shift;
 
-    ///Load a texture and the corresponding map given the path on disk
-    const TextureImage* load_texture(const std::string& path);
+    ///Path on disk and name in the library of the textures defined without name
+    std::unordered_map<std::string, std::string> unnamed_textures;
+
+    /**
+     *  \brief Load a texture and the corresponding map
+     *
+     *  \param[in] path The path on disk or, if definition is false, the name of
+     *  a texture of the library
+     *  \param[in] definition True if the texture is being defined by the user,
+     *  false if the texture is just used by a material or a mask
+     *  \return The loaded texture, or the default one if it can't be loaded
+     */
+    const TextureImage* load_texture(const std::string& path,
+                                     bool definition=false);
 
     ///Hold all the maps, used to set them the filter after parsing
     std::vector<ImageMap*> all_textures;
diff --git a/src/parsers/config_parser.tab.cc b/src/parsers/config_parser.tab.cc
index e381c10..f477f3b 100644
--- a/src/parsers/config_parser.tab.cc
+++ b/src/parsers/config_parser.tab.cc
@@ -869,25 +869,25 @@ namespace yy {
 
   case 69:
 #line 234 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src, true);}
 #line 874 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 70:
 #line 235 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src, true);}
 #line 880 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 71:
 #line 236 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src, true);}
 #line 886 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 72:
 #line 237 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src, true);}
 #line 892 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
diff --git a/src/parsers/config_parser.y b/src/parsers/config_parser.y
index 401663a..15db287 100644
--- a/src/parsers/config_parser.y
+++ b/src/parsers/config_parser.y
@@ -231,10 +231,10 @@ light_stmt
 ;
 
 texture_obj /* name is already known at this point */
-: SRC COLON STRING {driver.tex_src=$3.substr(1,$3.size()-2);driver.load_texture(driver.tex_src);}
-| SRC COLON STRING texture_rec {driver.tex_src=$3.substr(1,$3.size()-2);driver.load_texture(driver.tex_src);}
-| texture_rec SRC COLON STRING {driver.tex_src=$4.substr(1,$4.size()-2);driver.load_texture(driver.tex_src);}
-| texture_rec SRC COLON STRING texture_rec {driver.tex_src=$4.substr(1,$4.size()-2);driver.load_texture(driver.tex_src);}
+: SRC COLON STRING {driver.tex_src=$3.substr(1,$3.size()-2);driver.load_texture(driver.tex_src, true);}
+| SRC COLON STRING texture_rec {driver.tex_src=$3.substr(1,$3.size()-2);driver.load_texture(driver.tex_src, true);}
+| texture_rec SRC COLON STRING {driver.tex_src=$4.substr(1,$4.size()-2);driver.load_texture(driver.tex_src, true);}
+| texture_rec SRC COLON STRING texture_rec {driver.tex_src=$4.substr(1,$4.size()-2);driver.load_texture(driver.tex_src, true);}
 ;
 
 texture_rec:texture_rec texture_stmt|texture_stmt;
-- 
2.43.0


From 505ac750754009c406d13a359f6dbed4dd92935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 28/77] fix: assigning a File leaked the path it had before

---
 src/utility/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 60dfb90..9adec93 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -275,6 +275,9 @@ bool File::is_file() const
 
 File& File::operator=(const File& old)
 {
+    if(this == &old)
+        return *this;
+    free(File::absolute);
     File::absolute = (char*)malloc(sizeof(char)*(strlen(old.absolute)+1));
     strcpy(absolute, old.absolute);
     //recalculate offsets(since I cannot blindly copy pointers of other classes)
-- 
2.43.0


From 8d77dfed0fa96bab54d0a49876b38cf772be79a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 29/77] fix: the parent folder of a File kept the type of its
 child

---
 src/utility/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 9adec93..4b30c3e 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -359,6 +359,10 @@ File File::get_parent() const
             //else
             /* do nothing, already catched in the max_decrement==-1 */;
         }
+#ifndef _WIN32
+        //the copied informations were about the child
+        retval.statres = stat(retval.absolute, &(retval.fileinfo)) == 0;
+#endif
     }
     return retval;
 }
-- 
2.43.0


From 1461e3d1708b9f63172d005f92d79e3dbde2f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 30/77] fix: parent of a file in a first level folder had a
 dangling file name

---
 src/utility/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 4b30c3e..d841d6b 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -354,7 +354,7 @@ File File::get_parent() const
             //go back with the file pointer until the last /
             while(i-->max_decrement && file[i] != File::PATH_SEPARATOR);
             //if not root, point to the filename
-            if(i != max_decrement)
+            if(i>=max_decrement)
                 retval.file += i+1;
             //else
             /* do nothing, already catched in the max_decrement==-1 */;
-- 
2.43.0


From b87d70bedec74bdd204fc6107e3413cb6c88dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 31/77] fix: relative paths crashed the program without a
 working directory

---
 src/utility/file.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index d841d6b..a269bcc 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -2,6 +2,8 @@
 //license: GNU GPLv3
 
 #include "file.hpp"
+#include "console.hpp"
+#include <cerrno> //errno
 
 #ifdef _WIN32
 //THIS MUST STAY HERE!
@@ -158,6 +160,12 @@ File::File(const char* path)
         GetFullPathNameA(".", current_dir_len+1, current_dir, NULL);
 #else
         current_dir = realpath(".", NULL);
+        if(current_dir == NULL)
+        {
+            //the working directory has been removed or can't be read
+            Console.critical(MESSAGE_INPUT_ERROR, ".", strerror(errno));
+            current_dir = strdup("/");
+        }
         current_dir_len = (int)strlen(current_dir);
 #endif
         absolute = (char*)malloc(sizeof(char)*(current_dir_len+1+pathlen+1));
-- 
2.43.0


From 075bbcd348514ad89ec00a13d7f2bfe56b87114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 32/77] fix: mkdirs result wrong when other programs create or
 remove folders

---
 src/utility/file.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index a269bcc..39b5b18 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -408,7 +408,12 @@ bool File::mkdirs()
 #endif
             {
                 res = File::mkdir();
-                created = true;
+                if(res)
+                    created = true;
+#ifndef _WIN32
+                else //fine if another program created it in the meantime
+                    res = is_folder();
+#endif
             }
             //resume searching
             absolute[index] = File::PATH_SEPARATOR;
@@ -424,8 +429,12 @@ bool File::mkdirs()
     }
     else
         created = true;
-    //no need to refresh informations since is done by the mkdir() function
-    return created;
+#ifndef _WIN32
+    //the last folder processed by mkdir() may be one of the parents, or a
+    //folder may have been removed while creating the others
+    File::statres = stat(absolute, &(File::fileinfo)) == 0;
+#endif
+    return created && is_folder();
 }
 
 void File::ls(std::vector<File>* retval) const
-- 
2.43.0


From f08378734c426e46214bab48caf3fd1401ac5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 33/77] fix: errors while listing a folder were hidden

---
 src/utility/file.cpp | 12 +++++++++---
 src/utility/file.hpp |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 39b5b18..c4c1531 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -437,8 +437,9 @@ bool File::mkdirs()
     return created && is_folder();
 }
 
-void File::ls(std::vector<File>* retval) const
+bool File::ls(std::vector<File>* retval) const
 {
+    bool complete = false;
     unsigned int len = (unsigned int)strlen(absolute);
     unsigned int allocated = len+255;
     //temp buffer for absolute files
@@ -470,14 +471,17 @@ void File::ls(std::vector<File>* retval) const
             }
         }
         while(FindNextFileA(current_dir, &element) != 0);
+        complete = GetLastError() == ERROR_NO_MORE_FILES;
         FindClose(current_dir);
     }
 #else
     DIR* current_dir;
     struct dirent* element;
-    if(is_folder() && (current_dir = opendir(absolute)) != NULL)
+    //opendir fails if the File is not a folder
+    if((current_dir = opendir(absolute)) != NULL)
     {
-        while((element = readdir(current_dir)) != NULL)
+        //errno is the only way to distinguish an error from the last element
+        while((errno = 0, element = readdir(current_dir)) != NULL)
         {
             //name too long, reallocate the temp buffer
             if((len+1+2+strlen(element->d_name))>=allocated)
@@ -496,8 +500,10 @@ void File::ls(std::vector<File>* retval) const
                 retval->emplace_back(element_name);
             }
         }
+        complete = errno == 0;
         closedir(current_dir);
     }
 #endif
     free(element_name);
+    return complete;
 }
diff --git a/src/utility/file.hpp b/src/utility/file.hpp
index 1e1f39c..9333de9 100644
--- a/src/utility/file.hpp
+++ b/src/utility/file.hpp
@@ -188,8 +188,10 @@ public:
      *
      *  \param[out] retval The vector containing the list of file of the current
      *  directory
+     *  \return true if every element has been listed, false if the folder could
+     *  not be read, or not entirely
      */
-    void ls(std::vector<File>* retval) const;
+    bool ls(std::vector<File>* retval) const;
 
     /** \brief Appends a path to the current one
      *
-- 
2.43.0


From 99d315b532ef2564350bab2caeae95af7e9c3139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 34/77] fix: low byte of big endian 16 bit values lost

The mask selected the low byte instead of the high one, so every component
of a 16 bit PPM was read with its low byte cleared.
---
 src/utility/imageio/endianness.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/imageio/endianness.h b/src/utility/imageio/endianness.h
index 952d8e0..33fce4d 100644
--- a/src/utility/imageio/endianness.h
+++ b/src/utility/imageio/endianness.h
@@ -11,7 +11,7 @@
 !defined(IS_BIG_ENDIAN)
 #define ENDIANNESS_LITTLE16(value) value
 #define ENDIANNESS_LITTLE32(value) value
-#define ENDIANNESS_BIG16(value) ((value & 0xFF) >> 8) | (value << 8)
+#define ENDIANNESS_BIG16(value) (((value & 0xFF00) >> 8) | (value << 8))
 #define ENDIANNESS_BIG32(value) ((value & 0xFF000000) >> 24) | \
                                        ((value & 0x00FF0000) >> 8) | \
                                        ((value & 0x0000FF00) << 8) | \
@@ -19,7 +19,7 @@
 #elif __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
 #define ENDIANNESS_BIG16(value) value
 #define ENDIANNESS_BIG32(value) value
-#define ENDIANNESS_LITTLE16(value) ((value & 0xFF) >> 8) | (value << 8)
+#define ENDIANNESS_LITTLE16(value) (((value & 0xFF00) >> 8) | (value << 8))
 #define ENDIANNESS_LITTLE32(value) ((value & 0xFF000000) >> 24) | \
                                        ((value & 0x00FF0000) >> 8) | \
                                        ((value & 0x0000FF00) << 8) | \
-- 
2.43.0


From 5820f14485c612dc5cff8d8145f129d4d11d0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 35/77] fix: ppm images read shifted if the separator could not
 be skipped

A failing fseek left the separator among the pixels. A failing fgetc sets the
error indicator of the stream, that is checked before returning.
---
 src/utility/imageio/ppm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index 131f434..7228c82 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -127,7 +127,7 @@ char ppm_read(const char* name, uint32_t* values)
                 /* skip 1 space, after the depth
                    by specification this will ALWAYS be ONE space or newline
                    so no \n\r or other windows shits */
-                fseek(fin, 1, SEEK_CUR);
+                fgetc(fin);
                 if(depth_short<=255)/* 1 byte per component */
                 {
                     uint8_t* row = (uint8_t*)malloc(sizeof(uint8_t)*width*3);
-- 
2.43.0


From e546633b58289797f1e2c18d4fc9b4cfaf49702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:00 +0000
Subject: [PATCH 36/77] fix: tga images read shifted if the id field could not
 be skipped

---
 src/utility/imageio/tga.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 73cb906..0107e57 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -160,7 +160,9 @@ char tga_read(const char* name, uint32_t* values)
             ymax = -1;
             y = HEIGHT-1;
         }
-        fseek(fin, SKIPME, SEEK_CUR); /* I don't care about these features */
+        /* I don't care about these features */
+        if(SKIPME != 0 && fseek(fin, SKIPME, SEEK_CUR))
+            ymax = y;
         while(y != ymax)
         {
             i = y*WIDTH;
-- 
2.43.0


From 010cd146cbe96b42edf43fe9e405b9511d9419d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 37/77] fix: meshes with infinite coordinates ended the program
 while building their tree

---
 src/accelerators/bvh.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index c0eb71d..d4e9f35 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -130,7 +130,8 @@ using bvhhelpers::Primitive;
 static uint32_t findBestMatch(std::vector<BvhBuildNode*>* c, BvhBuildNode* b)
 {
     float best_area = INFINITY;
-    uint32_t retval = 0; //if size == 1 return myself
+    //never myself, even if no area is comparable (i.e. infinite coordinates)
+    uint32_t retval = c->at(0) == b && c->size()>1 ? 1 : 0;
     for(unsigned int i = 0; i<c->size(); i++) //linear search
     {
         if(c->at(i) != b)
@@ -155,8 +156,8 @@ static uint32_t combineCluster(std::vector<BvhBuildNode*>* c, int n, char axis)
 {
     uint32_t created = 0;
     uint32_t* closest = (uint32_t*)malloc(sizeof(uint32_t)*c->size());
-    uint32_t left = 0xFFFFFFFF; //ensure segfault if this is not set
-    uint32_t right = 0xFFFFFFFF;
+    uint32_t left;
+    uint32_t right;
     if((int)c->size()>n) //calculate best pair only if needed
     {
         for(unsigned int i = 0; i<c->size(); i++)
@@ -169,6 +170,8 @@ static uint32_t combineCluster(std::vector<BvhBuildNode*>* c, int n, char axis)
     while((int)c->size()>n)
     {
         float best = INFINITY;
+        left = 0; //used if no area is comparable
+        right = closest[0];
         //find best of best-pairs
         for(unsigned int i = 0; i<c->size(); i++)
         {
-- 
2.43.0


From 275cd356ef031c672be246fdb4f876921d51d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:39 +0000
Subject: [PATCH 38/77] fix: mesh files were read on after an error, with the
 numbers around it damaged

---
 src/parsers/parser_obj.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index b546df4..f6c290c 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -527,6 +527,8 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
 
 static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input)
 {
-    *read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, input);
+    *read_bytes = 0;
+    if(!ferror(input)) //nothing after an error, what precedes could be missing
+        *read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, input);
     buffer_ro[*read_bytes] = END_OF_BUFFER_GUARD;
 }
-- 
2.43.0


From c3d45e8e3f30d711c4bda2d7051de9cef5928d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:42 +0000
Subject: [PATCH 39/77] fix: paths with .. next to the root were resolved
 wrong, writing before their buffer

---
 src/utility/file.cpp | 102 +++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 68 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index c4c1531..cf1f6dd 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -64,80 +64,46 @@ static void append_relative(const char* abs, const char* relative, char* out)
     rel[i] = '\0';
     strcpy(out, abs);
     int absolute_index = (int)strlen(abs);
-    unsigned int relative_index = 0;
-    if(rel[0] == '.')
+    int relative_index = 0;
+    //the root of an absolute path is never removed
+    if(absolute_index == 0)
+        while(absolute_index<min_abs_index && rel[relative_index] != '\0')
+            out[absolute_index++] = rel[relative_index++];
+    //every name is added along with the separator preceding it, so out never
+    //ends with a separator inside the loop
+    while(absolute_index>min_abs_index &&
+          out[absolute_index-1] == File::PATH_SEPARATOR)
+        absolute_index--;
+    while(rel[relative_index] != '\0')
     {
-        //resolve ../file
-        if(rel[1] == '.' && rel[2] == File::PATH_SEPARATOR)
+        //handle //
+        if(rel[relative_index] == File::PATH_SEPARATOR)
         {
-            relative_index = 2;
-            //backtrack to previous / in the absolute path
-            //(guaranteed to exists since file is absolute)
-            //position right on / ready to be substituted
-            while(absolute_index-->min_abs_index &&
-                  out[absolute_index] != File::PATH_SEPARATOR);
+            relative_index++;
+            continue;
         }
-        else if(rel[1] == File::PATH_SEPARATOR) //resolve ./file
-            relative_index = 1;
-    }
-    if(rel[relative_index] != File::PATH_SEPARATOR &&
-        absolute_index > min_abs_index) //to avoid starting with \\ on win abs
-    {
-        out[absolute_index++] = File::PATH_SEPARATOR;
-    }
-    /*
-     *  at this point
-     *  -> relative path does not start with . (checked in this if)
-     *  -> relative starts with / or a filename
-     *  -> absolute path ends with / if relative does not starts with /
-     */
-    while(relative_index<strlen(rel))
-    {
-        if(rel[relative_index] == File::PATH_SEPARATOR)
+        int name = relative_index;
+        while(rel[relative_index] != '\0' &&
+              rel[relative_index] != File::PATH_SEPARATOR)
+            relative_index++;
+        int name_len = relative_index-name;
+        //handle /./
+        if(name_len == 1 && rel[name] == '.')
+            continue;
+        //handle /../
+        if(name_len == 2 && rel[name] == '.' && rel[name+1] == '.')
         {
-            if(rel[relative_index+1] == '.')
-            {
-                //handle /./
-                if(rel[relative_index+2] == File::PATH_SEPARATOR ||
-                   rel[relative_index+2] == 0)
-                {
-                    relative_index += 2;
-                    continue;
-                }
-                    //handle /../
-                else if(rel[relative_index+2] == '.' &&
-                        (rel[relative_index+3] == File::PATH_SEPARATOR ||
-                         rel[relative_index+3] == 0))
-                {
-                    relative_index += 3;
-                    //avoid out of bounds if too many ../../../
-                    if(absolute_index<=min_abs_index+1)
-                        continue;
-                    absolute_index -= 2;
-                    while((absolute_index--)>min_abs_index &&
-                          out[absolute_index] != File::PATH_SEPARATOR);
-                    continue;
-                }
-            }
-                //handle //
-            else if(rel[relative_index+1] == File::PATH_SEPARATOR
-#ifdef _WIN32
-                    && absolute_index>0 //avoid erasing \\ in UNC paths
-#endif
-                )
-            {
-                relative_index++;
-                continue;
-            }
+            while(absolute_index>min_abs_index &&
+                  out[--absolute_index] != File::PATH_SEPARATOR);
+            continue;
         }
-        out[absolute_index++] = rel[relative_index++];
-    }
-    //remove last trailing char, if exists and not root trailing
-    if(out[absolute_index - 1] == File::PATH_SEPARATOR &&
-        absolute_index > min_abs_index +1)
-    {
-        absolute_index--;
+        out[absolute_index++] = File::PATH_SEPARATOR;
+        memcpy(out+absolute_index, rel+name, (size_t)name_len);
+        absolute_index += name_len;
     }
+    //root
+    if(absolute_index == min_abs_index)
+        out[absolute_index++] = File::PATH_SEPARATOR;
     out[absolute_index] = 0;
     free(rel);
 }
-- 
2.43.0


From f7282ca6de1f93207e32e882f518d84f160aaa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:13 +0000
Subject: [PATCH 40/77] fix: a missing unnamed texture was replaced by a file
 with the same name

---
 src/parsers/config_driver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index e105f4d..b62004b 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -270,6 +270,7 @@ const TextureImage* ConfigDriver::load_texture(const std::string& path,
 
     File cur_file = current_dir;
     const TextureImage* addme;
+    bool unnamed_definition = false;
     if(is_absolute(path.c_str()))
         //TODO: avoid recreating the cur_file class
         cur_file = File(path.c_str());
@@ -280,8 +281,7 @@ const TextureImage* ConfigDriver::load_texture(const std::string& path,
     {
         //textures defined without a name are known by their filename
         tex_name = cur_file.filename();
-        if(!TexLib.contains_texture(tex_name))
-            unnamed_textures.insert({{cur_file.absolute_path(), tex_name}});
+        unnamed_definition = true;
     }
     else if(!definition)
     {
@@ -305,6 +305,9 @@ const TextureImage* ConfigDriver::load_texture(const std::string& path,
         //Texture Image will deal with same file but different texture names
         addme = new TextureImage(cur_file, tex_shift, tex_scale, tex_filter);
         TexLib.inherit_texture(tex_name, addme);
+        //only if loaded, otherwise the name could be taken by another file
+        if(unnamed_definition)
+            unnamed_textures.insert({{cur_file.absolute_path(), tex_name}});
     }
     else
     {
-- 
2.43.0


From f88b836390605854bcb1711e60c0ab95ff35738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 41/77] fix: an inverted mask with a missing texture hid the
 object instead of being disabled

---
 src/parsers/config_driver.cpp  | 3 +++
 src/textures/texture_image.cpp | 5 +++++
 src/textures/texture_image.hpp | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index b62004b..516a670 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -728,6 +728,9 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
     else
     {
         map = load_texture(mask.mask_tex);
+        //the mask is disabled, even if inverted, when its texture is missing
+        if(!map->is_loaded())
+            map = NULL;
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index 108c7ee..2ede2ca 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -115,3 +115,8 @@ Vec2 TextureImage::get_scale() const
 {
     return TextureImage::scale;
 }
+
+bool TextureImage::is_loaded() const
+{
+    return imagemap != TexLib.get_dflt_map();
+}
diff --git a/src/textures/texture_image.hpp b/src/textures/texture_image.hpp
index bfaf17e..0872057 100644
--- a/src/textures/texture_image.hpp
+++ b/src/textures/texture_image.hpp
@@ -127,6 +127,14 @@ public:
      */
     Vec2 get_scale() const;
 
+    /**
+     *  \brief Returns true if this texture shows its own image
+     *
+     *  \return false if the image was missing, or could not be used, and has
+     *  been replaced by the default one
+     */
+    bool is_loaded() const;
+
     /** \brief Maps an (u,v) coordinate to a texture value
      *
      *  Given the coordinates \p u and \p v of a point, this method finds the
-- 
2.43.0


From 049a39cf8cc4a2f602b6d22c9d177fb109b50404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 42/77] fix: the message about an output path that is a folder
 printed a random string

---
 src/cameras/image_film.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 9499d52..0344c80 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -12,7 +12,7 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
     buffer.zero_out();
     if(output.exists() && output.is_folder())
     {
-        Console.critical(MESSAGE_OUTPUT_ISFOLDER);
+        Console.critical(MESSAGE_OUTPUT_ISFOLDER, output.absolute_path());
         return; // <- bail out in tests since critical msg does not kill program
     }
     File parent_folder = output.get_parent();
-- 
2.43.0


From 406f007f61ae6fa166f22c9e400357090723dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 43/77] fix: the message about a wrong token was written out of
 its buffer

---
 src/parsers/config_driver.cpp | 17 ++++++++++-------
 src/parsers/config_lexer.l    |  5 ++++-
 src/parsers/lex.yy.cc         |  5 ++++-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 516a670..cf5a00e 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -172,19 +172,22 @@ void ConfigDriver::error(const yy::location& l, const std::string& m)
 #define NRM "\x1B[0m"
 #define BLD "\x1B[1m"
 #define BUFFER 128
-    unsigned int end_col = 0<l.end.column?l.end.column-1:0;
+    int end_col = 0<l.end.column?(int)l.end.column-1:0;
     //underline wrong token
     if(l.begin.column<l.end.column && l.begin.line == l.end.line &&
        l.end.column-l.begin.column<=BUFFER-5) //prev. segfault if token len >buf
     {
-        char buf[128];
-        char under[128];
-        int offset = get_line(buf, 128);
-        for(unsigned int i = 0; i<l.begin.column-1-offset; i++)
+        char buf[BUFFER];
+        char under[BUFFER];
+        int offset = get_line(buf, BUFFER);
+        //a long token may start before the portion of line stored in the buffer
+        int under_begin = clamp((int)l.begin.column-1-offset, 0, BUFFER-1);
+        int under_end = clamp(end_col-offset, under_begin, BUFFER-1);
+        for(int i = 0; i<under_begin; i++)
             under[i] = ' ';
-        for(unsigned int i = l.begin.column-1-offset; i<end_col-offset; i++)
+        for(int i = under_begin; i<under_end; i++)
             under[i] = '~';
-        under[end_col-offset] = 0;
+        under[under_end] = 0;
         Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n%" GRN "%s" NRM,
                          file.c_str(), l.end.line, end_col, m.c_str(), buf,
                          under);
diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index f5f8ff8..77ad2e7 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -186,6 +186,7 @@ void ConfigDriver::scan_begin()
     errno = 0;
     current_pos = 0;
     last_line_pos = 0;
+    loc.initialize(); //otherwise positions continue from the previous file
     yyin = fopen(file.c_str(), "r");
     if(!yyin)
         Console.critical(MESSAGE_INPUT_ERROR,file.c_str(),strerror(errno));
@@ -209,7 +210,9 @@ int ConfigDriver::get_line(char* buf,int len)
         line_offset = last_line_pos-line_offset;
     }
     fseek(yyin,last_line_pos,SEEK_SET);
-    fread(buf,sizeof(char),len,yyin);
+    int read = (int)fread(buf,sizeof(char),len,yyin);
+    if(read<len) //the end of the file was reached
+        buf[read] = 0;
     int i = 0;
     while(i<len)
     {
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index ecb8d8d..4b836be 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -2574,6 +2574,7 @@ void ConfigDriver::scan_begin()
     errno = 0;
     current_pos = 0;
     last_line_pos = 0;
+    loc.initialize(); //otherwise positions continue from the previous file
     yyin = fopen(file.c_str(), "r");
     if(!yyin)
         Console.critical(MESSAGE_INPUT_ERROR,file.c_str(),strerror(errno));
@@ -2597,7 +2598,9 @@ int ConfigDriver::get_line(char* buf,int len)
         line_offset = last_line_pos-line_offset;
     }
     fseek(yyin,last_line_pos,SEEK_SET);
-    fread(buf,sizeof(char),len,yyin);
+    int read = (int)fread(buf,sizeof(char),len,yyin);
+    if(read<len) //the end of the file was reached
+        buf[read] = 0;
     int i = 0;
     while(i<len)
     {
-- 
2.43.0


From 7e05da31601887eaef4ab08bd388242eb95624b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:26 +0000
Subject: [PATCH 44/77] fix: meshes with huge coordinates still ended the
 program while building their tree

---
 src/accelerators/bvh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index d4e9f35..c867645 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -185,6 +185,11 @@ static uint32_t combineCluster(std::vector<BvhBuildNode*>* c, int n, char axis)
             }
         }
 
+        //the last node is going to be moved or removed, so it can not be the
+        //replaced one
+        if(left>right)
+            std::swap(left, right);
+
         //merge them together in a new node
         BvhBuildNode* node = new BvhBuildNode();
         created++;
-- 
2.43.0


From 34329c3a715973f61052af0a4f79b0387df2503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 45/77] fix: invalid conversion in the message about a wrong
 token

---
 src/parsers/config_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index cf5a00e..36fa1bd 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -188,7 +188,7 @@ void ConfigDriver::error(const yy::location& l, const std::string& m)
         for(int i = under_begin; i<under_end; i++)
             under[i] = '~';
         under[under_end] = 0;
-        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n%" GRN "%s" NRM,
+        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n" GRN "%s" NRM,
                          file.c_str(), l.end.line, end_col, m.c_str(), buf,
                          under);
     }
-- 
2.43.0


From 0a9df0e4396b6b8b7aa7cda403a526def8f4a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:37 +0000
Subject: [PATCH 46/77] fix: an output path inside of a file was refused only
 after rendering

---
 src/cameras/image_film.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 0344c80..f6cec3c 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -16,7 +16,7 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
         return; // <- bail out in tests since critical msg does not kill program
     }
     File parent_folder = output.get_parent();
-    if(parent_folder.writable())
+    if(parent_folder.is_folder() && parent_folder.writable())
     {
         //check extension, add .ppm if not supported
         bool supported = img_supported(output.extension());
-- 
2.43.0


From 0a5220c706590c0b9a68964e6e22dd48c9966287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 47/77] fix: the last row and column covered by the filter got
 no sample

The footprint of a sample was computed with inclusive bounds but the loops
stopped before the last one: with the box filter a sample reached a single
pixel, often not its own, and with few samples many pixels remained black.
---
 src/cameras/image_film.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index f6cec3c..267097f 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -59,8 +59,8 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     int update_y1 = (int)floorf(centre_y+filter->range_y);
     update_x0 = max(update_x0, 0);
     update_y0 = max(update_y0, 0);
-    update_x1 = min(update_x1, width);
-    update_y1 = min(update_y1, height);
+    update_x1 = min(update_x1, width-1);
+    update_y1 = min(update_y1, height-1);
 
     //the samples of the neighbour sub-images can reach the pixels closer to the
     //border than the range of the filter: those must be added with the lock
@@ -68,8 +68,8 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     const int border_y = (int)ceilf(filter->range_y);
 
     //foreach affected pixel
-    for(int y = update_y0; y<update_y1; y++)
-        for(int x = update_x0; x<update_x1; x++)
+    for(int y = update_y0; y<=update_y1; y++)
+        for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
             if(x<secure_area->startx+border_x ||
-- 
2.43.0


From ad63ae8e999a362d761948a149c7ac01ca623909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 48/77] fix: rays lying in a plane of the kd-tree or of a
 bounding box missed objects

---
 src/accelerators/kdtree.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 770edaf..6d50e87 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -448,7 +448,18 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
     while(n != NULL)
     {
         if(bestdistance<mint) //a closer intersection has been found
+        {
+            //the next node may be closer: nodes are not sorted by distance if
+            //the ray lies in a split plane
+            if(jobs_stack_top>0)
+            {
+                n = jobs[--jobs_stack_top].node;
+                mint = jobs[jobs_stack_top].mint;
+                maxt = jobs[jobs_stack_top].maxt;
+                continue;
+            }
             break;
+        }
 
         if(!n->isLeaf()) //if internal node
         {
@@ -474,8 +485,16 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
                 right = n+1;
             }
 
+            //the ray lies in the plane, both nodes for the whole distance
+            if(planet != planet)
+            {
+                jobs[jobs_stack_top].node = right;
+                jobs[jobs_stack_top].mint = mint;
+                jobs[jobs_stack_top++].maxt = maxt;
+                n = left;
+            }
             //special cases, only 1 node needs to be processed
-            if(planet>maxt || planet<=0)
+            else if(planet>maxt || planet<=0)
                 n = left;
             else if(planet<mint)
                 n = right;
@@ -503,8 +522,10 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
                 //firstly try with the aabb since it's faster
                 if(current_asset->intersect_AABB(r, &rp, &res1, &res2))
                 {
-                    //then try with the actual asset
-                    if(res1<bestdistance && //don't try if AABB > best distance
+                    //then try with the actual asset. Don't try if
+                    //AABB > best distance. res1 is NaN, hence not comparable,
+                    //if the ray lies in one of the planes of the AABB
+                    if(!(res1>=bestdistance) &&
                        current_asset->intersect(r, &bestdistance, h))
                     {
                         found = true; //record current intersection
-- 
2.43.0


From 4deda4968fecc63813c78f336224788d2c896914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:29 +0000
Subject: [PATCH 49/77] fix: meshes with a deep bvh overflowed the traversal
 stack

---
 src/accelerators/bvh.cpp | 25 ++++++++++++++++++-------
 src/accelerators/bvh.hpp |  6 +++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index c867645..f49f589 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -364,7 +364,7 @@ void Bvh::buildTree(Triangle* tris, int len)
     }
     uint32_t index = 0;
 
-    flatten(clusters.at(0), &index);
+    depth = flatten(clusters.at(0), &index);
 
     //reorder the Triangle* array
     //this is actually horrible but I don't want to deallocate array under
@@ -386,8 +386,9 @@ void Bvh::buildTree(Triangle* tris, int len)
     free(prims);
 }
 
-void Bvh::flatten(void* n, uint32_t* index)
+uint32_t Bvh::flatten(void* n, uint32_t* index)
 {
+    uint32_t height = 0;
     BvhBuildNode* node = (BvhBuildNode*)n;
     if(node->left == NULL) //leaf
     {
@@ -403,19 +404,21 @@ void Bvh::flatten(void* n, uint32_t* index)
         uint32_t myindex = (*index)++;
 
         //left node is right after the parent, right node is somewhere else
-        flatten(node->left, index);
+        uint32_t left_height = flatten(node->left, index);
 
         //I processed all the left nodes, so now I know the right node position
         nodesList[myindex].bounding = node->bounding;
         nodesList[myindex].sibling = *index;
         nodesList[myindex].len = 0;
         nodesList[myindex].axis = (uint8_t)(node->split);
-        flatten(node->right, index);
+        uint32_t right_height = flatten(node->right, index);
+        height = 1+std::max(left_height, right_height);
     }
     delete (node);
+    return height;
 }
 
-///Max depth of the Bvh tree
+///Depth of the Bvh tree that does not require additional memory while traversing
 #define BVH_MAX_DEPTH 32
 
 bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
@@ -426,8 +429,16 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
     float dmax;
     bool found = false;
 
-    BvhNode* jobs[BVH_MAX_DEPTH];
-    unsigned char jobs_stack_top = 0;
+    //every interior node can leave at most one job, so the tree depth is enough
+    BvhNode* jobs_local[BVH_MAX_DEPTH];
+    std::vector<BvhNode*> jobs_deep;
+    BvhNode** jobs = jobs_local;
+    if(depth>BVH_MAX_DEPTH)
+    {
+        jobs_deep.resize(depth);
+        jobs = jobs_deep.data();
+    }
+    uint32_t jobs_stack_top = 0;
     BvhNode* node = Bvh::nodesList;
     while(node != NULL)
     {
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 2a966df..89b5260 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -107,7 +107,8 @@ public:
 private:
 
     //transform the temp build structure in the flattened one
-    void flatten(void*, uint32_t*);
+    //returns the depth of the flattened subtree
+    uint32_t flatten(void*, uint32_t*);
 
     //The flattened tree
     BvhNode* nodesList;
@@ -117,6 +118,9 @@ private:
 
     //Index of every triangle before the reordering. NULL if not reordered
     unsigned int* faces = NULL;
+
+    //Depth of the tree
+    uint32_t depth = 0;
 };
 
 #endif
-- 
2.43.0


From 893726f329ca3f78f930d54adea420bce7e2840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 50/77] fix: large spheres were hit by rays passing outside of
 them

---
 src/utility/utility.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/utility.hpp b/src/utility/utility.hpp
index 9f33cc0..3437ad5 100644
--- a/src/utility/utility.hpp
+++ b/src/utility/utility.hpp
@@ -290,8 +290,10 @@ inline bool equation2(const float a, const float b, const float c,
                       float* sol1, float* sol2)
 {
     float delta = b*b-4.0f*a*c;
-    if(delta<=0 && delta+1e-4f>=0) //tanget but with float error
-    {                            //happens in area lights
+    //tangent but with float error, happens in area lights. The error is relative
+    //to a, otherwise scaled spheres would be hit by rays far from their surface
+    if(delta<=0 && delta+1e-4f*fabsf(a)>=0)
+    {
         *sol1 = -b/(a*2);
         *sol2 = *sol1;
         return true;
-- 
2.43.0


From ef6559d12bda316fdcaf785a42d08b4040c4ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 51/77] fix: area lights report distance and probability in
 world space

---
 src/lights/area_light.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 8793631..c37e601 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -60,7 +60,7 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
 {
     Normal normal;
     Point3 light_point; //object space
-    Ray ray;
+    Ray ray; //object space
     ray.origin = worldToObj**pos;
 
     //generate random origin point of the emitted radiance in the surface of the
@@ -82,12 +82,16 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
         *distance = FLT_MAX;
         return SPECTRUM_BLACK;
     }
-    light_point = ray.apply(*distance);
-    normal = hit.normal_h; //object space
-    *wi = ray.direction;
-    *pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-           (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-           (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
+    //from now on everything is in world space: that is the space of the area,
+    //of the distance that will be compared with the one of the other assets and
+    //of the pdf that will be weighted with the one of the material
+    light_point = AreaLight::objToWorld*ray.apply(*distance);
+    normal = transform_normal(hit.normal_h, &worldToObj);
+    normal.normalize();
+    *wi = AreaLight::objToWorld*ray.direction;
+    wi->normalize();
+    *distance = light_point.distance(*pos);
+    *pdf = (*distance)*(*distance);
     *pdf /= (absdot(normal, -(*wi))*AreaLight::area);
     if(std::isinf(*pdf))
     {
@@ -96,15 +100,11 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
         return SPECTRUM_BLACK;
     }
 
-    //convert wi to world space
     Spectrum retval;
     if(dot(normal, -(*wi))>0) //cos between ray and hit point normal > 0
         retval = AreaLight::c;
     else
         retval = SPECTRUM_BLACK;
-
-    *wi = AreaLight::objToWorld**wi;
-    wi->normalize();
     return retval;
 }
 
@@ -120,11 +120,15 @@ float AreaLight::pdf(const Point3* p, const Vec3* wi) const
     bool res = AreaLight::model->intersect(&ray, &distance, &hit, &mask);
     if(!res)
         return 0;
-    Point3 light_point = ray.apply(distance);
-    float pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-                (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-                (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    pdf /= (absdot(hit.normal_h, -(ray.direction))*AreaLight::area);
+    //world space, like the area and the pdf of the material
+    Point3 light_point = AreaLight::objToWorld*ray.apply(distance);
+    Normal normal = transform_normal(hit.normal_h, &worldToObj);
+    normal.normalize();
+    const Vec3 dir = normalize(*wi);
+    float pdf = (p->x-light_point.x)*(p->x-light_point.x)+
+                (p->y-light_point.y)*(p->y-light_point.y)+
+                (p->z-light_point.z)*(p->z-light_point.z);
+    pdf /= (absdot(normal, -dir)*AreaLight::area);
     return pdf;
 }
 
-- 
2.43.0


From 9f71ac8b5f439e353bd7b6a0cde704cb4b3ee31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:28 +0000
Subject: [PATCH 52/77] fix: mesh lights sample every triangle in proportion to
 its area

---
 src/primitives/mesh.cpp | 51 ++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 6f250c8..66bc939 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -173,45 +173,28 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
     //flatten the random value between 0.0 and the total area
     float extSample = lerp(r0, 0.0f, densities[count-1]);
 
-    //divide et impera search
+    //divide et impera search, using cumulative areas (cdf). Looks for the first
+    //triangle with a cumulative area greater than the sample
     int start = 0;
     int end = count-1;
-    int mid;
-    //the sample in the interval [0,1]. After processing the lerp step
-    float sample01;
-
-    //limit cases, they generate infinite loops
-    //first triangle of the array
-    if(extSample<densities[0])
-    {
-        sample01 = inverse_lerp(extSample, 0, densities[0]);
-        tris[0].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
-    //last triangle of the array
-    if(extSample>densities[end-1])
-    {
-        sample01 = inverse_lerp(extSample-densities[end-1], 0,
-                                densities[end]-densities[end-1]);
-        tris[end].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
-
-    //find the sampled triangle by using cumulative areas (cdf)
-    while(true)
+    //the last triangles can be chosen only if they have an area
+    while(end>0 && densities[end-1]==densities[end])
+        end--;
+    while(start<end)
     {
-        mid = (start+end)/2;
-        //mid contains the value
-        if(densities[mid]<=extSample && densities[mid+1]>extSample)
-            break;
-        else if(densities[mid]>extSample)
+        const int mid = (start+end)/2;
+        if(densities[mid]>extSample)
             end = mid;
         else
-            start = mid;
+            start = mid+1;
     }
 
-    //sample the triangle
-    sample01 = inverse_lerp(extSample-densities[mid], 0,
-                            densities[mid+1]-densities[mid]);
-    tris[mid].sample_point(sample01, r1, NULL, p, n);
+    //sample the triangle. The value in the interval [0,1] is the position of
+    //the sample inside the portion of cdf of the triangle
+    const float previous = start>0?densities[start-1]:0.f;
+    const float area = densities[start]-previous;
+    float sample01 = 0.f;
+    if(area>0.f) //otherwise the entire mesh has no area
+        sample01 = inverse_lerp(extSample-previous, 0, area);
+    tris[start].sample_point(sample01, r1, NULL, p, n);
 }
-- 
2.43.0


From b0cba5c424e1e2c3a2da76b69efdfb9e4e26046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:10 +0000
Subject: [PATCH 53/77] fix: objects with a small scale had an uninitialised
 inverse transformation

---
 src/geometry/matrix4.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry/matrix4.cpp b/src/geometry/matrix4.cpp
index 0ed5f94..59ed91e 100644
--- a/src/geometry/matrix4.cpp
+++ b/src/geometry/matrix4.cpp
@@ -409,7 +409,9 @@ bool Matrix4::inverse(Matrix4* output) const
     det = Matrix4::m00*inv[0]+Matrix4::m01*inv[4]
           +Matrix4::m02*inv[8]+Matrix4::m03*inv[12];
 
-    if(flt_equal(det, 0.0f))
+    //the determinant of an uniform scaling is the cube of the scale, so small
+    //values are perfectly fine as long as they can be inverted
+    if(!std::isnormal(det))
         return false;
 
     det = 1.0f/det;
-- 
2.43.0


From 2e683d24320aacc12cf7fcf59194aa9b4205dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:27 +0000
Subject: [PATCH 54/77] fix: emission of the lights was counted twice

---
 src/integrators/ray_tracer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 163d0a9..112ae2a 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -10,9 +10,6 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
 {
     Spectrum L = SPECTRUM_BLACK;
     int nlights = sc->size_lights();
-    if(hp->asset_h->is_light())
-        if(dot(*normal_s, -r->direction)>0)
-            L += ((AreaLight*)hp->asset_h)->emissive_spectrum();
     if(nlights>0)
     {
         float rand[6];
-- 
2.43.0


From 72c65caa95c7feb05b8e3433a47689f85513af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:46 +0000
Subject: [PATCH 55/77] fix: direct light was divided by the number of lights

---
 src/integrators/ray_tracer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 112ae2a..7f2a0ba 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -18,6 +18,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
         Vec3 wi;
         //choose a light to sample
         int sampledlight = min((int)(rand[0]*nlights), nlights-1);
+        //every light is chosen with probability 1/nlights
+        const float invchoice = (float)nlights;
         const AreaLight* light = sc->get_light(sampledlight);
         float lightpdf;
         float bsdfpdf;
@@ -39,8 +41,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                 {
                     float weight = (lightpdf*lightpdf)/
                                    (lightpdf*lightpdf+bsdfpdf*bsdfpdf);
-                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight/
-                         lightpdf;
+                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight*
+                         invchoice/lightpdf;
                 }
             }
         }
@@ -65,7 +67,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                     if(dot(h2.normal_h, -r2.direction)>0)
                     {
                         Spectrum rad = light->emissive_spectrum();
-                        L += bsdf_f*rad*absdot(wi, *normal_s)*w/bsdfpdf;
+                        L += bsdf_f*rad*absdot(wi, *normal_s)*w*invchoice/
+                             bsdfpdf;
                     }
         }
     }
-- 
2.43.0


From f86752741cae7440bf4b5ebf55f92c7bf9d15a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:03 +0000
Subject: [PATCH 56/77] fix: russian roulette was inverted

---
 src/integrators/path_tracer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrators/path_tracer.cpp b/src/integrators/path_tracer.cpp
index 6f19314..2c6c32b 100644
--- a/src/integrators/path_tracer.cpp
+++ b/src/integrators/path_tracer.cpp
@@ -41,10 +41,10 @@ Spectrum PathTracer::l_rec(const Scene* sc, const HitPoint* hp, const Ray* r,
     if(r->ricochet>3)
     {
         float term = min(power->luminance(), 0.5f);
-        if(rand[0]<term)
+        if(rand[0]>=term || !std::isnormal(term))
             return retval;
-        else
-            rrprob = term; //survived russian roulette, need to cut down contrib
+        else //survived russian roulette with probability term, the contribution
+            rrprob = 1.f/term; //accounts also for the terminated paths
     }
     if(r->ricochet == DEFAULT_BOUNCES)
         return retval;
-- 
2.43.0


From 9038b2ef22b09308cbc15220dd537e1edeb21120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 57/77] fix: squared probabilities overflowed in the weights of
 the direct light

---
 src/integrators/ray_tracer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 7f2a0ba..a2fa2c8 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -39,8 +39,9 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                 bsdfpdf = mat->pdf(&wo, hp, matrix, &wi, false);
                 if(bsdfpdf>0)
                 {
-                    float weight = (lightpdf*lightpdf)/
-                                   (lightpdf*lightpdf+bsdfpdf*bsdfpdf);
+                    //ratio of the pdfs, the square of a pdf could overflow
+                    float ratio = bsdfpdf/lightpdf;
+                    float weight = 1.f/(1.f+ratio*ratio);
                     L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight*
                          invchoice/lightpdf;
                 }
@@ -58,7 +59,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
             lightpdf = light->pdf(point_s, &wi);
             if(lightpdf == 0)
                 return L; //no contribution from bsdf sampling
-            w = (bsdfpdf*bsdfpdf)/(bsdfpdf*bsdfpdf+lightpdf*lightpdf);
+            float ratio = lightpdf/bsdfpdf;
+            w = 1.f/(1.f+ratio*ratio);
             //here the shading point could lead to wrong intersections
             Ray r2(*point_s, wi);
             HitPoint h2;
-- 
2.43.0


From 9404abe723c992f7f5d69116cf8263b87eae3775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 58/77] fix: triangles with degenerate texture coordinates gave
 invalid light

---
 src/primitives/triangle.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 72f41c6..f5fcb8e 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -89,15 +89,22 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     const float delta[2][2] = {{a.t[0]-c.t[0], b.t[0]-c.t[0]},
                                {a.t[1]-c.t[1], b.t[1]-c.t[1]}};
     const float uvdet = delta[0][0]*delta[1][1]-delta[0][1]*delta[1][0];
-    //TODO: handle degenerate UVs (uvdet == 0)
-    const float invuvdet = 1.f/uvdet;
-    const Vec3 ac = a.p-c.p;
-    const Vec3 bc = b.p-c.p;
     //tmp is necessary because I cannot overwrite original "h" if there's not
     //intersection. (here intersection could be invalidated by mask)
     HitPoint tmp;
-    tmp.dpdu = (ac*delta[1][1]-bc*delta[1][0])*invuvdet;
-    tmp.dpdv = (bc*delta[0][0]-ac*delta[0][1])*invuvdet;
+    if(fabsf(uvdet)>1e-18f)
+    {
+        const float invuvdet = 1.f/uvdet;
+        const Vec3 ac = a.p-c.p;
+        const Vec3 bc = b.p-c.p;
+        tmp.dpdu = (ac*delta[1][1]-bc*delta[1][0])*invuvdet;
+        tmp.dpdv = (bc*delta[0][0]-ac*delta[0][1])*invuvdet;
+    }
+    else //degenerate UVs: any couple of directions lying on the surface
+    {
+        tmp.dpdu = ba;
+        tmp.dpdv = cross(cross(ba, ca), ba);
+    }
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-- 
2.43.0


From e63bb01afee5e28093d8dd31cfca1dd91929664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:57 +0000
Subject: [PATCH 59/77] fix: specular reflection of a ray parallel to the
 surface gave invalid light

---
 src/materials/reflection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index af453d4..aa79d0c 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -46,6 +46,11 @@ DielectricReflection::DielectricReflection(const Spectrum& ior_i,
 Spectrum ConductorReflection::sample_value(const Vec3* wo, Vec3* wi,
                                            float, float, float* pdf) const
 {
+    if(wo->z == 0) //parallel to the surface
+    {
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
     //wi = wo * [-1 0 0 0]
     //          [0 -1 0 0]
     //          [0  0 1 0]
@@ -67,6 +72,11 @@ Spectrum ConductorReflection::sample_value(const Vec3* wo, Vec3* wi,
 Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
                                             float, float, float* pdf) const
 {
+    if(wo->z == 0) //parallel to the surface
+    {
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
     wi->x = -wo->x;
     wi->y = -wo->y;
     wi->z = wo->z;
-- 
2.43.0


From d2d6d29534479e83d9ca6631b24d76b0ae67cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:39 +0000
Subject: [PATCH 60/77] fix: anisotropic distribution overflowed near the
 horizon

---
 src/materials/microfacet_distributions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/materials/microfacet_distributions.cpp b/src/materials/microfacet_distributions.cpp
index 01d542d..9abcb76 100644
--- a/src/materials/microfacet_distributions.cpp
+++ b/src/materials/microfacet_distributions.cpp
@@ -188,6 +188,11 @@ float GGXaniso::D(const Vec3* h) const
     float sq_term = 1+(((cosphi2*inv_ax*inv_ax)+(sinphi2*inv_ay*inv_ay))*tan2);
     sq_term *= sq_term;
     float res = INV_PI*inv_ax*inv_ay*inv_cos2*inv_cos2*(1.f/sq_term);
+    if(!std::isfinite(res)) //overflow near the horizon, where cos is almost 0
+    {
+        sq_term = sin2*((cosphi2*inv_ax*inv_ax)+(sinphi2*inv_ay*inv_ay));
+        res = INV_PI*inv_ax*inv_ay/(sq_term*sq_term);
+    }
     return res;
 }
 
-- 
2.43.0


From a88c5c1749fd2cd42ef241d8d819df70e3eeadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 61/77] fix: rough glass with the ior of its surroundings gave
 invalid light

---
 src/materials/microfacet.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index 37bcb78..33b7335 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -115,6 +115,8 @@ Spectrum MicrofacetT::value(const Vec3* woS, const Vec3* wiS) const
         return SPECTRUM_BLACK;
     }
     float denom = etao*dotwoh+etai*dotwih;
+    if(denom == 0) //not refracted: same ior on both sides
+        return SPECTRUM_BLACK;
     denom *= denom;
     denom *= costwo*costwi;
     return (SPECTRUM_ONE-fresnel_diel.eval(dotwih))*fabsf(up/denom);
@@ -153,6 +155,11 @@ Spectrum MicrofacetT::sample_value(const Vec3* woS, Vec3* wiS, float r0,
     const float dotwoh = dot(*woS, wh);
     float jacobian = etao*etao*fabsf(dotwoh);
     const float jacobian_denom = (etai*dot(*wiS, wh)+etao*dotwoh);
+    if(jacobian_denom == 0) //not refracted: same ior on both sides
+    {
+        *pdf = 0;
+        return SPECTRUM_BLACK;
+    }
     jacobian /= jacobian_denom*jacobian_denom;
     wiS->normalize();
     *pdf = MicrofacetT::distribution->pdf(woS, &wh)*jacobian;
@@ -182,6 +189,8 @@ float MicrofacetT::pdf(const Vec3* woS, const Vec3* wiS) const
     const float dotwoh = dot(*woS, wh);
     float jacobian = etao*etao*fabsf(dotwoh);
     const float jacobian_denom = (etai*dot(*wiS, wh)+etao*dotwoh);
+    if(jacobian_denom == 0) //not refracted: same ior on both sides
+        return 0.f;
     jacobian /= jacobian_denom*jacobian_denom;
     return MicrofacetT::distribution->pdf(woS, &wh)*jacobian;
 }
-- 
2.43.0


From 242088982030e095e5e9c3d64e8c23950d00e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:18 +0000
Subject: [PATCH 62/77] fix: total internal reflection lost part of the light

---
 src/materials/reflection.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index aa79d0c..7a58b33 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -110,8 +110,7 @@ Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
         float rperp = (etaicosi-etatcost)/(etaicosi+etatcost);
         float rpar = (etatcosi-etaicost)/(etatcosi+etaicost);
         eval = (rpar*rpar+rperp*rperp)/2.f;
-        eval /= fabsf(wo->z);
     }
-    return eval;
+    return eval/fabsf(wo->z);
 }
 
-- 
2.43.0


From 42f01b24fccb10bff10525cf4ef03e70ef064e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:32 +0000
Subject: [PATCH 63/77] fix: interpolated normals bent mirrored and refracted
 rays

---
 src/materials/shading_space.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/materials/shading_space.cpp b/src/materials/shading_space.cpp
index 1babbe9..926863b 100644
--- a/src/materials/shading_space.cpp
+++ b/src/materials/shading_space.cpp
@@ -6,6 +6,13 @@
 ShadingSpace::ShadingSpace(const HitPoint* hp)
         :s(hp->dpdu), n(hp->normal_h)
 {
+    //dpdu lies on the surface and is not perpendicular to an interpolated normal
+    const Vec3 along = s-(Vec3)(n*dot(n, s));
+    if(along.length()>1e-6f)
+        s = along;
+    else //no usable derivative: any direction perpendicular to the normal
+        s = fabsf(n.x)<.5f?Vec3(0, -n.z, n.y):Vec3(n.z, 0, -n.x);
+    s.normalize();
     t = cross(Vec3(n), s).normalize();
 }
 
-- 
2.43.0


From 7ca017b28e5e37b59dec12d9cc9aa7098abc584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:44 +0000
Subject: [PATCH 64/77] fix: normal maps swapped inside and outside on mirrored
 UVs

---
 src/textures/texture_normal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_normal.cpp b/src/textures/texture_normal.cpp
index 0a85d36..fb53884 100644
--- a/src/textures/texture_normal.cpp
+++ b/src/textures/texture_normal.cpp
@@ -35,10 +35,10 @@ TextureNormal::bump(const HitPoint* hp, ShadingSpace* matrix,
     old.t = cross(old.s, (Vec3)old.n).normalize();
 
     matrix->n = (Normal)(old.to_world(normal_shading)).normalize();
+    if(dot(matrix->n, hp->normal_h)<0) //mirrored UVs: keep the side of the hit
+        matrix->n *= -1;
     matrix->s = (hp->dpdu-
                  (Vec3)(matrix->n*dot(matrix->n, hp->dpdu))).normalize();
     matrix->t = cross(Vec3(matrix->n), matrix->s).normalize();
     *normal = matrix->n;
-    if(dot(*normal,hp->normal_h)<0)
-        *normal*=-1;
 }
-- 
2.43.0


From 0a3aefc62c2f71481aa01df25616142b7eaa3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:57 +0000
Subject: [PATCH 65/77] fix: lobes of a material took the texture of the chosen
 one

---
 src/materials/multi_bsdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index dd73f5d..190067c 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -121,7 +121,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
             if(bdfs[i]->matches(flags))//add contribution only if matches
             {
                 retval += bdfs[i]->value(&wo_shading, &wi_shading)*
-                          diffuse[chosen]->map(h);
+                          diffuse[i]->map(h);
                 *pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
             }
         }
-- 
2.43.0


From ff53cea957f6d64843aa09f38446e5333b3700a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:23 +0000
Subject: [PATCH 66/77] fix: footprints of scaled image textures used the scale
 of the wrong axis

---
 src/textures/texture_image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index 2ede2ca..2598cd9 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -88,8 +88,8 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
         {
             //scale dudx dvdx dudy dvdy
             float dudx = hit->du.x*scale.x;
-            float dudy = hit->du.y*scale.y;
-            float dvdx = hit->dv.x*scale.x;
+            float dudy = hit->du.y*scale.x;
+            float dvdx = hit->dv.x*scale.y;
             float dvdy = hit->dv.y*scale.y;
             res = imagemap->filter(u, v, dudx, dvdx, dudy, dvdy);
         }
-- 
2.43.0


From 8d03388e4b5acf9d3b24ffd00fb792992901b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:35 +0000
Subject: [PATCH 67/77] fix: EWA filtering weighted wrapped texels by their
 wrapped distance, showing seams

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 21b7bd1..1996c7f 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -275,12 +275,12 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     {
         //wraps texture if ellipse is outside bounds
         int newy = ((y%side[level])+side[level])%side[level];
-        const float voff = newy-v;
+        const float voff = y-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
             int newx = ((x%side[level])+side[level])%side[level];
-            const float uoff = newx-u;
+            const float uoff = x-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
             {
-- 
2.43.0


From d6243acd71d6188879c130fb2b187470963a04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 68/77] fix: bilinear filtering did not wrap around in the
 first half texel

---
 src/textures/image_map.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1996c7f..06b6887 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -208,13 +208,17 @@ TexelUnion ImageMap::bilinear(float u, float v, uint8_t level) const
 {
     u = u*side[level]-0.5f;
     v = v*side[level]-0.5f;
-    int x = (int)u;
-    int y = (int)v;
-    float decimal_u = fabsf(u-x); //to avoid corner case where this can be -0.5f
-    float decimal_v = fabsf(v-y);
+    int x = (int)floorf(u);
+    int y = (int)floorf(v);
+    float decimal_u = u-x;
+    float decimal_v = v-y;
     float int_u = 1.f-decimal_u;
     float int_v = 1.f-decimal_v;
     //wraps texture if filtering happens outside bounds (val+1) = out of texture
+    if(x<0)
+        x = side[level]-1;
+    if(y<0)
+        y = side[level]-1;
     int next_x = (x+1)<=side[level]-1?(x+1):0;
     int next_y = (y+1)<=side[level]-1?(y+1):0;
     const Texel T0 = MIPmap[level]->get(x, y).bgra_texel;
-- 
2.43.0


From ca8cefc6035f741a963782998392b40096ef1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:08 +0000
Subject: [PATCH 69/77] fix: the footprint of a pixel was a length in the world
 instead of in the texture

---
 src/primitives/asset.cpp     |  3 +++
 src/primitives/hit_point.cpp | 11 ++++++-----
 src/primitives/hit_point.hpp |  6 ++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/primitives/asset.cpp b/src/primitives/asset.cpp
index b64b3fe..7261fc3 100644
--- a/src/primitives/asset.cpp
+++ b/src/primitives/asset.cpp
@@ -43,6 +43,9 @@ Asset::intersect(const Ray* ray_world, float* distance, HitPoint* hit) const
         hit->dpdu = objToWorld*hit->dpdu;
         hit->dpdv = objToWorld*hit->dpdv;
         hit->normal_h.normalize();
+        //needed to know how much of the texture is seen by a pixel
+        hit->dpdu_length = hit->dpdu.length();
+        hit->dpdv_length = hit->dpdv.length();
         hit->dpdu.normalize();
         hit->dpdv.normalize();
     }
diff --git a/src/primitives/hit_point.cpp b/src/primitives/hit_point.cpp
index 9285906..5904f72 100644
--- a/src/primitives/hit_point.cpp
+++ b/src/primitives/hit_point.cpp
@@ -55,11 +55,12 @@ void calculate_differentials(HitPoint* hit, Ray* rx, Ray* ry)
     float det = a00*a11-a01*a10;
     if(fabsf(det)>1e-5f)
     {
-        float invdet = 1.f/det;
-        hit->du.x = (a11*bx0-a01*bx1)*invdet;
-        hit->dv.x = (a00*bx1-a10*bx0)*invdet;
-        hit->du.y = (a11*by0-a01*by1)*invdet;
-        hit->dv.y = (a00*by1-a10*by0)*invdet;
+        float invdetu = 1.f/(det*hit->dpdu_length);
+        float invdetv = 1.f/(det*hit->dpdv_length);
+        hit->du.x = (a11*bx0-a01*bx1)*invdetu;
+        hit->dv.x = (a00*bx1-a10*bx0)*invdetv;
+        hit->du.y = (a11*by0-a01*by1)*invdetu;
+        hit->dv.y = (a00*by1-a10*by0)*invdetv;
         hit->differentials = true;
     }
     else
diff --git a/src/primitives/hit_point.hpp b/src/primitives/hit_point.hpp
index 0971e55..a18000a 100644
--- a/src/primitives/hit_point.hpp
+++ b/src/primitives/hit_point.hpp
@@ -38,6 +38,12 @@ struct HitPoint
     ///Differential of hit point, varying the y coordinate on the surface
     Vec3 dpdv;
 
+    ///Length of dpdu, as dpdu is normalized once in world space
+    float dpdu_length = 1.f;
+
+    ///Length of dpdv, as dpdv is normalized once in world space
+    float dpdv_length = 1.f;
+
     ///Hit asset
     const Asset* asset_h;
 
-- 
2.43.0


From d19f7f0084a43f00a35cadcc6bd76235816da474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:21 +0000
Subject: [PATCH 70/77] fix: normal maps leaned the wrong way where the texture
 coordinates are mirrored

---
 src/textures/texture_normal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/textures/texture_normal.cpp b/src/textures/texture_normal.cpp
index fb53884..e77d0b2 100644
--- a/src/textures/texture_normal.cpp
+++ b/src/textures/texture_normal.cpp
@@ -33,9 +33,11 @@ TextureNormal::bump(const HitPoint* hp, ShadingSpace* matrix,
     old.s = hp->dpdu;
     old.n = (Normal)cross(hp->dpdu, hp->dpdv).normalize();
     old.t = cross(old.s, (Vec3)old.n).normalize();
+    if(dot(old.n, hp->normal_h)<0) //mirrored UVs: keep the side of the hit
+        old.n *= -1;
 
     matrix->n = (Normal)(old.to_world(normal_shading)).normalize();
-    if(dot(matrix->n, hp->normal_h)<0) //mirrored UVs: keep the side of the hit
+    if(dot(matrix->n, hp->normal_h)<0)
         matrix->n *= -1;
     matrix->s = (hp->dpdu-
                  (Vec3)(matrix->n*dot(matrix->n, hp->dpdu))).normalize();
-- 
2.43.0


From 81fa8544b4d028a6fb2c7d380ad912bb8fa7e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 71/77] fix: the field of view and the rotations of a
 description were taken as radians instead of degrees

---
 src/parsers/config_driver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 36fa1bd..7bc2452 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -249,7 +249,7 @@ Camera* ConfigDriver::build_camera()
         case SPECTRE_CAMERA_PERSPECTIVE:
         default:
             camera = new CameraPerspective(&camera_pos, &camera_tar, &camera_up,
-                                           width, height, fov);
+                                           width, height, radians(fov));
             break;
     }
     return camera;
@@ -648,9 +648,9 @@ void ConfigDriver::build_meshes()
         Matrix4 rotz_matrix;
         Matrix4 scale_matrix;
         position_matrix.set_translation(mesh_w.position);
-        rotx_matrix.set_rotate_x(mesh_w.rotation.x);
-        roty_matrix.set_rotate_y(mesh_w.rotation.y);
-        rotz_matrix.set_rotate_z(mesh_w.rotation.z);
+        rotx_matrix.set_rotate_x(radians(mesh_w.rotation.x));
+        roty_matrix.set_rotate_y(radians(mesh_w.rotation.y));
+        rotz_matrix.set_rotate_z(radians(mesh_w.rotation.z));
         rotation_matrix = rotz_matrix*roty_matrix*rotx_matrix;
         scale_matrix.set_scale(mesh_w.scale);
         //watchout the order!!!
-- 
2.43.0


From 9a5e5ee7fd18fdd1ecf24a3a0db9c23985d7cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 72/77] fix: a missing normal map tilted every normal of the
 surface

---
 src/parsers/config_driver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 7bc2452..e19fd8e 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -386,7 +386,12 @@ void ConfigDriver::build_materials()
                        (const TextureImage*)load_texture(mat->bump), RED);
             ```
              */
-            bump_map = new TextureNormal((const TextureImage*)load_texture(mat->bump));
+            const TextureImage* normal_map = load_texture(mat->bump);
+            //the default texture is a color, it would tilt every normal
+            if(normal_map->is_loaded())
+                bump_map = new TextureNormal(normal_map);
+            else
+                bump_map = new Bump();
         }
         else
             bump_map = new Bump();
-- 
2.43.0


From 84574e451ce387f1b3570dddb3f80c3dcada3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 73/77] fix: settings stated in a chained file were ignored

---
 src/parsers/config_driver.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index e19fd8e..a8d17b2 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -54,17 +54,6 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     yy::ConfigParser parser(*this);
     parser.parse();
     scan_end();
-    check_resolution();
-    check_spp();
-#ifdef DEBUG //single threaded
-    r = new Renderer(width, height, spp, output.c_str(), 1);
-#else //maximum threads
-    r = new Renderer(width,height,spp,output.c_str());
-#endif
-    r->set_sampler(sampler_type);
-    r->inherit_camera(build_camera());
-    r->inherit_filter(build_filter());
-    r->inherit_integrator(integrator);
 
     //load children files
     //avoid recursive children
@@ -93,6 +82,19 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     consolidated_children.resize(0);
     children.resize(0);
 
+    //children can change the settings, so use them after parsing every file
+    check_resolution();
+    check_spp();
+#ifdef DEBUG //single threaded
+    r = new Renderer(width, height, spp, output.c_str(), 1);
+#else //maximum threads
+    r = new Renderer(width,height,spp,output.c_str());
+#endif
+    r->set_sampler(sampler_type);
+    r->inherit_camera(build_camera());
+    r->inherit_filter(build_filter());
+    r->inherit_integrator(integrator);
+
     //build default sphere
     default_sphere = new Sphere();
     current_scene->inherit_shape(default_sphere);
-- 
2.43.0


From 9d7db8a8ecc2c1a237666e058b597f2b47110fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 74/77] fix: textures defined before the filter used the
 default kind of filtering

---
 src/parsers/config_driver.cpp | 32 ++++++++++++++++++++++++++++++++
 src/parsers/config_driver.hpp | 27 ++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index a8d17b2..5d13a78 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -100,6 +100,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     current_scene->inherit_shape(default_sphere);
 
     //build deferred objects
+    build_textures();
     build_materials();
     build_dualmaterials();
     for(unsigned int i = 0; i<deferred_shapes.size(); i++)
@@ -272,7 +273,38 @@ const TextureUniform* ConfigDriver::load_texture_uniform()
 const TextureImage* ConfigDriver::load_texture(const std::string& path,
                                                bool definition)
 {
+    if(definition)
+    {
+        //the type of filter is known only after parsing every file
+        ParsedTexture texture;
+        texture.src = path;
+        texture.name = tex_name;
+        texture.scale = tex_scale;
+        texture.shift = tex_shift;
+        deferred_textures.push_back(texture);
+        tex_name.clear(); //reset name for next texture
+        tex_scale = Vec2(1.f); //reset scaling for next texture
+        tex_shift = Vec2(); //reset shifting for next texture
+        return NULL;
+    }
+    return build_texture(path, false);
+}
 
+void ConfigDriver::build_textures()
+{
+    for(unsigned int i = 0; i<deferred_textures.size(); i++)
+    {
+        tex_name = deferred_textures[i].name;
+        tex_scale = deferred_textures[i].scale;
+        tex_shift = deferred_textures[i].shift;
+        build_texture(deferred_textures[i].src, true);
+    }
+    deferred_textures.clear();
+}
+
+const TextureImage* ConfigDriver::build_texture(const std::string& path,
+                                                bool definition)
+{
     File cur_file = current_dir;
     const TextureImage* addme;
     bool unnamed_definition = false;
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 699856c..33864c0 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -71,6 +71,19 @@ enum mat_t
     MATTE, GLOSSY, METAL, GLASS
 };
 
+///Texture defined in the input file, waiting to be loaded
+struct ParsedTexture
+{
+    ///The path on the disk
+    std::string src;
+    ///The name in the Texture Library, empty to use the filename
+    std::string name;
+    ///Scaling of the texture uv coordinates
+    Vec2 scale;
+    ///Shifting of the texture uv coordinates
+    Vec2 shift;
+};
+
 /// Struct used to hold information about a material parsed by ConfigParser
 class ParsedMaterial
 {
@@ -395,15 +408,27 @@ public:
     /**
      *  \brief Load a texture and the corresponding map
      *
+     *  The textures being defined are loaded by build_textures(), after parsing
+     *
      *  \param[in] path The path on disk or, if definition is false, the name of
      *  a texture of the library
      *  \param[in] definition True if the texture is being defined by the user,
      *  false if the texture is just used by a material or a mask
-     *  \return The loaded texture, or the default one if it can't be loaded
+     *  \return The loaded texture, or the default one if it can't be loaded.
+     *  NULL if the texture is being defined
      */
     const TextureImage* load_texture(const std::string& path,
                                      bool definition=false);
 
+    ///Load a texture immediately, even if it is being defined
+    const TextureImage* build_texture(const std::string& path, bool definition);
+
+    ///Textures defined in the input files, in order
+    std::vector<ParsedTexture> deferred_textures;
+
+    ///Load every texture defined in the input files
+    void build_textures();
+
     ///Hold all the maps, used to set them the filter after parsing
     std::vector<ImageMap*> all_textures;
 
-- 
2.43.0


From 3b7f0f40c10c938466d2dda416292fdb2bc17911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 75/77] fix: integers too big to be stored silently wrapped
 around

---
 src/parsers/config_lexer.l | 10 ++++++++--
 src/parsers/lex.yy.cc      | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index 77ad2e7..01767ab 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -15,6 +15,12 @@
 static yy::location loc;
 long int current_pos;
 long int last_line_pos;
+//an integer too big to be stored is a real number like any other
+static bool fits_int(const char* text)
+{
+    double val = atof(text);
+    return val>=INT_MIN && val<=INT_MAX;
+}
 %}
 %option nounput
 %option noinput
@@ -140,8 +146,8 @@ inverted {UPDATE_POS; return yy::ConfigParser::make_INV(loc);}
 mask {UPDATE_POS; return yy::ConfigParser::make_MASK(loc);}
 first {UPDATE_POS; return yy::ConfigParser::make_FIRST(loc);}
 second {UPDATE_POS; return yy::ConfigParser::make_SECOND(loc);}
-{uint}    { UPDATE_POS; return yy::ConfigParser::make_UINT(atoi(yytext),loc); }
-{int}    { UPDATE_POS; return yy::ConfigParser::make_INT(atoi(yytext),loc); }
+{uint}    { UPDATE_POS; return fits_int(yytext) ? yy::ConfigParser::make_UINT(atoi(yytext),loc) : yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
+{int}    { UPDATE_POS; return fits_int(yytext) ? yy::ConfigParser::make_INT(atoi(yytext),loc) : yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
 {float} { UPDATE_POS; return yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
 {string} { UPDATE_POS; return yy::ConfigParser::make_STRING(yytext,loc); }
 {silver} { UPDATE_POS; return yy::ConfigParser::make_SILVER(loc);}
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index 4b836be..cbf8f03 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -746,6 +746,12 @@ char *yytext;
 static yy::location loc;
 long int current_pos;
 long int last_line_pos;
+//an integer too big to be stored is a real number like any other
+static bool fits_int(const char* text)
+{
+    double val = atof(text);
+    return val>=INT_MIN && val<=INT_MAX;
+}
 #line 750 "lex.yy.c"
 #define YY_NO_INPUT 1
 #define YY_NO_UNISTD_H 1
@@ -1406,12 +1412,12 @@ YY_RULE_SETUP
 case 76:
 YY_RULE_SETUP
 #line 144 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_UINT(atoi(yytext),loc); }
+{ UPDATE_POS; return fits_int(yytext) ? yy::ConfigParser::make_UINT(atoi(yytext),loc) : yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
 	YY_BREAK
 case 77:
 YY_RULE_SETUP
 #line 145 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_INT(atoi(yytext),loc); }
+{ UPDATE_POS; return fits_int(yytext) ? yy::ConfigParser::make_INT(atoi(yytext),loc) : yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
 	YY_BREAK
 case 78:
 YY_RULE_SETUP
-- 
2.43.0


From f839db68a5bc908e74779129b0a43d7f91721c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 76/77] fix: impossible resolutions and zero samples per pixel
 produced broken images

---
 src/localization.h            |  5 +++++
 src/parsers/config_driver.cpp | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/localization.h b/src/localization.h
index 6c9e0c3..8cadbb5 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -63,6 +63,11 @@
 #define MESSAGE_RESOLUTION_CHANGED "Rendered image width should be a multiple "\
 "of %d for performance reasons. Resolution has been adjusted to %dx%d"
 
+#define MESSAGE_RESOLUTION_WRONG "The width and the height of the rendered "\
+"image should be between 1 and %d"
+
+#define MESSAGE_SPP_WRONG "At least one sample per pixel is needed"
+
 #define MESSAGE_SPP_CHANGED "While using a Stratified Sampler, samples per " \
 "pixel should be a perfect square. Using %d samples"
 
diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 5d13a78..fd239b2 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -5,6 +5,9 @@
 #include <cerrno> //ENOENT
 #include <cstring> //strerror
 
+///maximum length for a side of the rendered image
+#define MAX_RESOLUTION 32768
+
 ///minimum value for ParsedMaterial::rough_x when the material is not specular
 #define MIN_ROUGHNESS 0.001f
 
@@ -139,6 +142,11 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
 
 void ConfigDriver::check_resolution()
 {
+    if(width<1 || height<1 || width>MAX_RESOLUTION || height>MAX_RESOLUTION)
+    {
+        Console.critical(MESSAGE_RESOLUTION_WRONG, MAX_RESOLUTION);
+        return; //in tests critical msg does not kill program
+    }
     int rem = width%SPLIT_SIZE;
     if(rem != 0)
     {
@@ -148,11 +156,18 @@ void ConfigDriver::check_resolution()
         if(height%2 != 0)
             height++;
         Console.notice(MESSAGE_RESOLUTION_CHANGED, SPLIT_SIZE, width, height);
+        if(height>MAX_RESOLUTION)
+            Console.critical(MESSAGE_RESOLUTION_WRONG, MAX_RESOLUTION);
     }
 }
 
 void ConfigDriver::check_spp()
 {
+    if(spp<1)
+    {
+        Console.critical(MESSAGE_SPP_WRONG);
+        return; //in tests critical msg does not kill program
+    }
     if(sampler_type == SPECTRE_SAMPLER_STRATIFIED)
     {
         float root = sqrtf((float)spp);
-- 
2.43.0


From a8ae9b5800da77ddc946949964a5a26545c2f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:56 +0000
Subject: [PATCH 77/77] fix: saving a film crashed when there was no memory for
 its pixels

---
 src/cameras/image_film.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 267097f..ffe2407 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -154,6 +154,8 @@ void ImageFilm::set_filter(Filter* f)
 bool ImageFilm::save_image()
 {
     uint32_t* rgb_buff = (uint32_t*)malloc(sizeof(uint32_t)*width*height);
+    if(rgb_buff == NULL) //out of memory
+        return false;
     unsigned int i = 0;
     ColorRGB rgb;
     //use scale stored colour and output as .ppm
-- 
2.43.0

