// Shared pieces of the scenarios: scene builder, decoders, recording camera and integrators.
#pragma once
#include "sim.h"
#include "internal.h"
#include <cmath>
#include <cstring>
#include <cfloat>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include "renderer.hpp"
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"
#include "primitives/box.hpp"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include "primitives/mesh.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_tent.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_lanczos.hpp"
#include "integrators/path_tracer.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/microfacet.hpp"
#include "materials/microfacet_distributions.hpp"
#include "materials/fresnel_conditions.hpp"
#include "materials/metals.hpp"
#include "materials/single_brdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/dual.hpp"
#include "materials/material_library.hpp"
#include "textures/texture_library.hpp"
#include "textures/texture_image.hpp"
#include "textures/texture_uniform.hpp"
#include "textures/texture_height.hpp"
#include "textures/texture_normal.hpp"
#include "textures/image_map.hpp"

namespace hx {
using namespace sim;
struct Img { int w=0,h=0; std::vector<u8> rgb; bool ok=false; std::string why; };   // 3 bytes per pixel
Img decode_ppm(const std::string& d);
std::string path_dir(const std::string& p);

// ---- scenes
struct Item { const Shape* shape; const Asset* asset; bool light; };
struct World { Scene* scene=nullptr; std::vector<Item> items; std::vector<const Bsdf*> mats; std::vector<const Texture*> texs; std::vector<const ImageMap*> maps; std::string desc; ~World(); };
struct WorldOpt { int max_shapes=6; int max_lights=3; bool masks=true; bool textures=true; bool bumps=true; bool unit_lights=false; bool simple_mats=false; };
void build_world(World& w,Rng& r,const WorldOpt& o);
const Bsdf* make_bsdf(World& w,Rng& r,const WorldOpt& o,int depth=0);
const ImageMap* make_map(World& w,Rng& r,int kind);
MaskBoolean make_mask(World& w,Rng& r);
Shape* make_shape(Rng& r);
Matrix4 make_transform(Rng& r,float spread);
Spectrum rnd_spectrum(Rng& r,float lo,float hi);
Camera* make_camera(Rng& r,int w,int h,int kind=-1);
std::unique_ptr<Filter> make_filter(int kind,Rng& r,Filter** twin=nullptr); // twin: an equal one for the model
const char* filter_name(int k);

// ---- recording
struct Rec { float x,y; u64 step; int tid; u64 t_ns; };
struct Trace { std::vector<Rec> s; u64 first_ns=0,last_ns=0; int stall_permille=0; u64 stall_ns=0; };
// orthographic camera whose rays start at the sample's raster position
class RecCamera: public Camera { public: Trace* tr; RecCamera(Trace* t,int w,int h);
  void create_ray(const Sample* s,Ray* r,Ray* rx,Ray* ry) const override; 
  protected: void create_single_ray(const Sample* s,Point3* o,Vec3* d) const override; };
struct Lit { std::unordered_map<u64,u32> hits; u32 mode=0; u64 key=0; Spectrum color(float x,float y) const; static u64 k(float x,float y); };
class RecIntegrator: public LightIntegrator { public: Lit* lit; bool draw_numbers; RecIntegrator(Lit* l,bool d=false):lit(l),draw_numbers(d){}
  Spectrum radiance(const Scene*,const HitPoint*,const Ray*,Sampler*,OcclusionTester*) const override; };
// sequential reference of the film; returns a description of the first bad pixel or ""
struct FilmModel { int w,h; std::vector<double> X,Y,Z,W,A; FilmModel(int w,int h); void add(const Filter& f,float px,float py,const Spectrum& s); std::string compare(const Img& im,int* checked) const; };
// counts samples per pixel; returns "" or what is wrong
std::string check_counts(const std::vector<Rec>& s,int w,int h,int spp,int strata);
std::string describe(const Outcome& o);
std::vector<std::string> lines(const std::string& s,const char* seps="\n");
}
