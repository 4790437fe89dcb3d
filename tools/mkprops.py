import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("C01","Every camera sample reaches the image exactly once",
 "After a render, the saved image equals the image obtained by filtering every traced sample exactly once into the pixels its filter footprint covers. No interleaving, number or relative speed of the rendering threads may lose, duplicate or corrupt a contribution, including those that cross the border between two tiles.",
 ["schedules","configurations"],"every interleaving of 1..N rendering threads at memory-access granularity, image size, sample count, filter radius",
 "The film tests add samples from one thread only; no existing test runs two rendering threads, so border contributions are never concurrent.",
 ["src/cameras/image_film.cpp","src/renderer.cpp","src/utility/array2D.hpp"],
 [("tile ownership test and deferred contributions","src/cameras/image_film.cpp add_pixel"),("opportunistic and forced flush under a mutex","src/cameras/image_film.cpp add_pixel_deferred/add_pixel_forced")],
 ["the image file written at the end of a render","the samples handed to the camera"],
 [("pixel accumulators","weighted colour sums and weight sum of each pixel","src/cameras/image_film.hpp Pixel")])
p("C02","Every pixel is sampled exactly the requested number of times",
 "During a render every pixel of the image receives exactly the configured number of samples, all inside the image and none twice, whatever the number of threads, the order in which they take work and the random seed.",
 ["schedules","configurations","histories"],"every work-queue interleaving, 1..N threads (also more threads than tiles), image heights that are not a multiple of the tile size, both samplers, every random seed",
 "No test drives the work queue at all; sampler tests use one tile and one seed.",
 ["src/renderer.cpp","src/samplers/sampler_random.cpp","src/samplers/sampler_stratified.cpp"],
 [("work queue guarded by a mutex","src/renderer.cpp executor"),("tile split","src/renderer.cpp render")],["samples handed to the camera"])
p("C03","Rendering threads never race on shared data",
 "While an image is rendered, no two threads touch the same memory without ordering, at least one of them writing: pixels, work queue, scene, materials, textures, random generators and progress state are all either private, read-only or synchronised.",
 ["schedules"],"every interleaving of the rendering threads and of the progress thread over a whole render",
 "Tests are single threaded; a data race usually gives the right image in an ordinary run.",
 ["src/renderer.cpp","src/cameras/image_film.cpp","src/utility/occlusion_tester.cpp","src/materials","src/textures","src/accelerators"],
 [("job mutex, film mutex","src/renderer.cpp, src/cameras/image_film.cpp"),("per-thread sampler, occlusion cache and scratch objects","src/renderer.cpp executor")],["memory accesses and synchronisation operations of the threads"])
p("C04","A render always terminates and leaves no thread behind",
 "Once started, a render returns after a bounded amount of work per thread: threads never deadlock, never wait for each other forever and never spin, however slowly some of them run. When the renderer is done no thread it created is still running, also when the system refuses to create some of the threads.",
 ["schedules","fault_sequences"],"every interleaving, threads stalled arbitrarily long at arbitrary points, thread creation failing at any point",
 "No test starts the rendering threads; deadlocks need particular lock interleavings.",
 ["src/renderer.cpp","src/cameras/image_film.cpp"],
 [("lock/unlock pairing, queue-empty exit","src/renderer.cpp executor"),("joins","src/renderer.cpp render, RendererProgressBar")],["return of the render call","live threads"])
p("C05","Light computations do not depend on thread scheduling",
 "The surface found by a camera ray and the light computed for it, given the same random numbers, are the same whichever thread computes them, whatever other threads do meanwhile and whatever that thread computed before.",
 ["schedules","histories"],"every interleaving of threads tracing rays through a scene with every kind of material, light, texture, mask and mesh",
 "Each unit test evaluates one ray on fresh objects in one thread; hidden mutable state shared by evaluations only shows when evaluations interleave or follow one another.",
 ["src/integrators","src/materials","src/textures","src/accelerators","src/lights","src/primitives","src/utility/occlusion_tester.cpp"],
 [("all scene objects are read-only during rendering","const interfaces of Scene, Asset, Bsdf, Texture"),("per-thread occlusion cache","src/utility/occlusion_tester.cpp")],["hit points and radiance returned to the rendering thread"])
p("C06","Progress and timing reports survive any clock and any schedule",
 "Progress reported during a render stays between 0 and 100 per cent and never goes backwards, the remaining-time estimate is a finite non-negative number, and the final duration is the time that really elapsed. Clock jumps and arbitrary delays of the reporting thread change neither the image nor the end of the render.",
 ["schedules","fault_sequences"],"wall clock jumping forwards or backwards at any instant, any speed of threads, reads of the queue at any point of a pop",
 "The tests call the progress bar printer once with constant arguments; neither the clock nor the concurrent reading thread are ever exercised.",
 ["src/renderer.cpp","src/utility/console.cpp","src/utility/utility.cpp"],
 [("progress thread sampling the queue","src/renderer.cpp progressBar"),("duration from a monotonic clock","src/renderer.cpp render")],["standard output"])
p("C07","Stratified sampling covers every stratum for every random seed",
 "With the stratified sampler each pixel gets exactly one sample in each cell of the regular subdivision of the pixel, and every sample and random number handed out is inside its documented range, for every random seed and for every tile a thread processes one after the other.",
 ["histories","inputs"],"every outcome of the random source seeding the generators, every sequence of tiles rendered by the same thread",
 "Tests use one fixed seed and one tile.",
 ["src/samplers","src/utility/wellrng.cpp","src/renderer.cpp"],
 [("per-cell jitter","src/samplers/sampler_stratified.cpp"),("seed alteration for each tile","src/renderer.cpp executor")],["samples handed to the camera"])
p("C08","A save reported as successful left the complete image on disk",
 "Whenever saving an image reports success, the file on disk is a well-formed file of the requested format that decodes to exactly the saved pixels (up to compression loss for JPEG); on healthy storage saving always succeeds. Any write, flush or close that the storage rejected or only partly performed must therefore be reported as a failure.",
 ["fault_sequences","inputs","crash_points"],"every image size and content, every supported format, every sequence of open/write/seek/close failures, full disk after any byte, short writes",
 "Tests write small images to a healthy disk and read them back with the same code; no write ever fails.",
 ["src/utility/imageio","src/cameras/image_film.cpp"],
 [("return values of the encoders","src/utility/imageio/*_write"),("save_image result","src/cameras/image_film.cpp")],["return value of the save","bytes on the simulated disk"])
p("C09","A failed save or load is survivable",
 "If storage fails while an image is being saved or loaded, the call returns a failure to its caller: it never kills the process, hangs or touches memory it does not own, it gives back every file handle and all memory it took, and the same call repeated on healthy storage succeeds.",
 ["fault_sequences","histories"],"every format, every fault at every I/O operation, any history of failed and successful calls in the same process",
 "No test makes an I/O operation fail after a successful open.",
 ["src/utility/imageio"],[("error paths of each codec","src/utility/imageio/*.c")],["return values","open handles","allocated memory","process exit"])
p("C10","The program's exit status tells whether the image was produced",
 "Running the program on a scene description ends with exit status zero if and only if the complete rendered image, in the size the description asks for and with every pixel rendered, is in the output file. A description that cannot be read or asks for an image that cannot exist (no pixels, no samples, sizes beyond any image), an output that cannot be written or a render that has to be given up ends with a non-zero status and a message; missing textures and meshes are only warned about.",
 ["fault_sequences","schedules","configurations"],"every fault at every I/O operation or thread creation of a whole program run, every schedule",
 "main() and Renderer::render are not covered by any test.",
 ["src/main.cpp","src/renderer.cpp","src/cameras/image_film.cpp","src/parsers/config_driver.cpp"],
 [("return value of render()","src/renderer.cpp, documented '0 if everything was ok, 1 otherwise'"),("critical errors terminate the program","src/utility/console.cpp")],["process exit status","output file"])
p("C11","An unusable output location is refused before rendering",
 "If the output path is a folder, lies in a missing or unwritable folder, or has an unknown extension whose fallback name is unusable, the program stops with an error before tracing any ray and without creating or changing any file; an unknown extension is replaced by appending the fallback one and nothing else on disk is touched.",
 ["configurations","fault_sequences"],"every layout and permission of the output location, failures of the queries about it",
 "Tests check four layouts with the real file system and cannot see what else would have been touched.",
 ["src/cameras/image_film.cpp","src/utility/file.cpp"],[("checks in the film constructor","src/cameras/image_film.cpp")],["exit status","files on the simulated disk","camera rays"])
p("C12","Reading an image never reports success with wrong pixels",
 "If reading an image reports success, the pixels are those stored in the file. A file cut short, a read error in the middle or a file that cannot be opened is reported as a failure, while reads that are merely slow or split into small pieces make no difference.",
 ["fault_sequences","inputs"],"every supported format and encoding variant, truncation at every byte, I/O error at every read, arbitrary splitting of reads",
 "Tests read a fixed set of intact files.",
 ["src/utility/imageio"],[("short-read checks","src/utility/imageio/*_read")],["return value and pixels"])
p("C13","Damaged image files never break the program",
 "Inspecting, measuring or reading any image file, however damaged, terminates and stays inside the memory the caller provided for the dimensions that were reported for that file.",
 ["fault_sequences","inputs"],"every corruption (flipped, zeroed, repeated or missing bytes) of every supported format, also combined with I/O errors",
 "A handful of hand made invalid files are tried; none damages the body of a file.",
 ["src/utility/imageio"],[("header validation, run-length bounds","src/utility/imageio/tga.c bmp.c ppm.c"),("library error handlers","src/utility/imageio/jpg.c png.c tiff.c")],["memory accesses","termination"])
p("C14","A texture is either the file's image or the default texture",
 "A material that refers to an image file is shaded with exactly the content of that file or, if the file is missing, unreadable, damaged or fails while being read, with the default texture after a warning; never with undefined or partial content, and never aborting the scene.",
 ["fault_sequences","histories"],"every fault at every I/O operation of loading, files vanishing between check and use, several textures loaded one after the other",
 "Tests load healthy files or missing files only; a failure between check and read is not reachable.",
 ["src/textures/texture_image.cpp","src/parsers/config_driver.cpp","src/textures/texture_library.cpp"],[("default map fallback","src/textures/texture_image.cpp"),("texture lookup","src/parsers/config_driver.cpp load_texture")],["texel values","console warnings"])
p("C15","A mesh file is imported completely wherever its bytes fall",
 "On healthy storage the imported meshes have exactly the faces, names, vertices and material assignments written in the file, wherever line, token and number boundaries fall with respect to internal read blocks, whether or not the last line is terminated, and whatever was parsed earlier with the same parser.",
 ["inputs","histories","fault_sequences"],"every placement of the content relative to read blocks, every split of reads, every sequence of files parsed",
 "Tests use a tiny read block on a few fixed files that all end with a newline, each with a fresh parser.",
 ["src/parsers/parser_obj.cpp"],[("buffer refill inside tokens and lines","src/parsers/parser_obj.cpp get_next_token, feed_buffer")],["mesh geometry, names, material assignment"])
p("C16","A failing or damaged mesh file is reported and never hangs the import",
 "Importing a mesh file that is missing, cut short, damaged or fails while being read always terminates, stays within its memory, releases the file, and reports an error when part of the file could not be read instead of silently using the rest.",
 ["fault_sequences","inputs"],"truncation at every byte, read errors at every block, corrupted bytes and indices",
 "Tests contain no truncated or failing file; a file without final newline makes the import spin forever.",
 ["src/parsers/parser_obj.cpp","src/parsers/config_driver.cpp"],[("index checks","src/parsers/parser_obj.cpp get_next_mesh")],["termination","error messages","open handles"])
p("C17","A scene description that cannot be read completely is not rendered silently",
 "If the scene description or one of the files it chains cannot be opened or read to its end, the program says so, and a failure on the main file ends the program with a non-zero status; splitting reads differently never changes what is parsed, and parsing always terminates.",
 ["fault_sequences","inputs"],"every fault at every I/O operation while parsing, every split of reads, every truncation",
 "Parser tests use healthy files only.",
 ["src/parsers/config_driver.cpp","src/parsers/config_lexer.l","src/parsers/lex.yy.cc"],[("open check","src/parsers/config_lexer.l scan_begin"),("lexer input","src/parsers/lex.yy.cc")],["exit status","console messages","files opened"])
p("C18","References in a scene description resolve from that description's folder",
 "Every input file named by a relative path in a scene description (textures, meshes, chained files) is looked up from the folder of the description itself, independently of the working directory, of the order of the directives and of how many other files were referenced, found or missing before it.",
 ["configurations","histories","fault_sequences"],"every directory layout, working directory, mix and order of references, some of them missing or unreadable",
 "Tests use one chained file and run from one directory; what an earlier reference does to a later one is not observed.",
 ["src/parsers/config_driver.cpp","src/utility/file.cpp"],[("current directory bookkeeping","src/parsers/config_driver.cpp parse, load_texture, parse_and_allocate_obj")],["paths opened on the simulated disk"])
p("C19","Folder creation and listing report what really happened",
 "Creating a folder or a chain of folders reports success exactly when folders were created and the whole path now exists as a folder; listing returns each entry once and nothing else. Failures and concurrent changes by other programs at any step are reported, never hidden, and only folders on the requested path are ever created.",
 ["fault_sequences","histories"],"every initial tree, permission and failure of each file-system call, folders appearing or vanishing between two calls",
 "Tests create one healthy chain in the working directory.",
 ["src/utility/file.cpp"],[("step by step creation","src/utility/file.cpp mkdirs"),("directory reading","src/utility/file.cpp ls")],["return values","simulated directory tree"])
p("C20","Nearest-hit queries agree with brute force after any build history",
 "After any sequence of adding objects and lights, building and rebuilding the scene index (including implicitly by rendering more than once), a ray query returns the same nearest hit as testing every object in turn, and the index never exceeds its memory however many objects were added. The same holds for the triangles inside of a mesh.",
 ["histories","inputs"],"every interleaving of additions, builds, renders and queries, object counts around and beyond the documented limits",
 "Tests build once and query a few rays; rebuilding and exceeding the limit are never tried.",
 ["src/accelerators/kdtree.cpp","src/accelerators/bvh.cpp","src/utility/scene.cpp"],[("tree build","src/accelerators/kdtree.cpp buildTree"),("capacity checks","src/accelerators/kdtree.cpp addAsset, src/utility/scene.cpp")],["query results"])
p("C21","Texture and material libraries stay consistent through any history",
 "Through any history of loading, registering, looking up and removing textures and materials, with loads failing at arbitrary points, a lookup returns the object registered first under that name and not removed since, or the documented default, each image file is decoded at most once while registered, and nothing in use is ever freed or freed twice.",
 ["histories","fault_sequences"],"every sequence of operations with storage faults during loads",
 "Tests check single operations on fresh libraries.",
 ["src/textures/texture_library.cpp","src/materials/material_library.cpp","src/textures/texture_image.cpp"],[("ownership maps","src/textures/texture_library.cpp, src/materials/material_library.cpp")],["lookup results","memory errors","files opened"])
p("C22","Shadow tests do not depend on earlier shadow tests",
 "Whether a point is occluded from a light is answered the same by a query object with any history of earlier queries as by a fresh one and as by testing every object, whichever thread owns the query object.",
 ["histories"],"every sequence of shadow queries in every scene",
 "One test makes two queries.",
 ["src/utility/occlusion_tester.cpp"],[("last-hit cache","src/utility/occlusion_tester.cpp is_occluded")],["query results"])
p("C23","Traced light is always finite and non-negative",
 "For every stream of random numbers the light returned for a camera ray is finite and non-negative in every component, whatever combination of materials, lights, textures and masks the path meets.",
 ["histories","inputs"],"every random stream driving the path tracer, over scenes mixing all materials, lights and meshes",
 "Material tests use fixed random numbers and single interactions.",
 ["src/integrators","src/materials","src/lights"],[("pdf and zero checks","src/integrators/*.cpp, src/materials/*.cpp")],["radiance values"])
p("C24","Renders in one process do not disturb each other",
 "Rendering several images one after the other in one process, with any mix of scenes, sizes, thread counts and failed saves, gives each image exactly as a render in a fresh process would, and a failed save can be retried by rendering again without losing contributions.",
 ["histories","fault_sequences","schedules"],"every history of renders and save failures in one process",
 "No test renders even once.",
 ["src/renderer.cpp","src/cameras/image_film.cpp","src/primitives/asset.cpp","src/textures/texture_library.cpp","src/materials/material_library.cpp"],[("per-render state","src/renderer.cpp"),("process-wide registries and counters","src/utility/console.cpp, src/primitives/*.cpp")],["output files"])
p("C25","Sampled lights are where, as far and as likely as reported",
 "When a light is sampled from a point, the returned direction has unit length and leads to the light's surface, the distance is the world distance to it, light arrives only from the emitting side, and the probability equals the squared distance over the cosine times the world surface and is the same when asked for separately; the shadow test up to that distance answers as every object in turn would. The points chosen on a light cover its whole surface evenly, and lights enclosed in opaque objects light their inside and nothing else. This holds for every shape, size, position and rotation of the light, every random stream, and any number of threads.",
 ["inputs","histories","schedules"],"every light, point and random stream, and every interleaving of threads sampling the same lights",
 "Tests sample two lights of scale one with a handful of numbers.",
 ["src/lights/area_light.cpp","src/primitives/mesh.cpp","src/utility/occlusion_tester.cpp","src/geometry/matrix4.cpp"],[("world-space sampling","src/lights/area_light.cpp sample_visible_surface, pdf"),("choice of the triangle","src/primitives/mesh.cpp sample_point, get_densities_array")],["sampled direction, distance, probability, light"])
p("C26","Light is unbiased on average",
 "Averaged over the random streams, the light computed for a camera ray is the light that physically arrives there after up to the documented number of bounces: every light is counted exactly once, however many lights there are, however their surfaces are divided into lights and triangles, whichever of them are hidden or face away, wherever paths are ended at random, whatever way the material (matte, glossy, metal) chooses directions, and however the work is divided over threads.",
 ["histories","inputs","schedules"],"every random stream and division of the lights, judged through averages with stated confidence",
 "There is no test of the integrators at all, and an average over random streams is not something an example can settle.",
 ["src/integrators/path_tracer.cpp","src/integrators/ray_tracer.cpp"],[("choice of the light and weights","src/integrators/ray_tracer.cpp direct_l"),("random end of paths","src/integrators/path_tracer.cpp l_rec")],["radiance values"])
p("C27","Mirrors and glass show what the laws of reflection and refraction say",
 "Averaged over the random streams, the light seen in or through smooth metal and glass, up to the documented number of bounces, is what the laws of reflection and refraction give: from outside and from inside the glass, beyond the angle of total reflection, over any number of objects, on flat and on interpolated surfaces, with any texture coordinates, with or without bump maps that leave the surface as it is, at every position, rotation and scale, and with any number of threads. No surface gives back more light than it receives.",
 ["histories","inputs","schedules"],"every random stream, every arrangement of mirrors and glass, every ray",
 "Tests evaluate one material at one point; what is seen depends on chains of up to five random choices.",
 ["src/materials/reflection.cpp","src/materials/refraction.cpp","src/materials/multi_bsdf.cpp","src/materials/shading_space.cpp","src/integrators/path_tracer.cpp"],[("directions and weights","src/materials/reflection.cpp, refraction.cpp sample_value"),("choice of the lobe","src/materials/multi_bsdf.cpp sample_value"),("emission after specular bounces","src/integrators/path_tracer.cpp l_rec")],["radiance values"])
p("C28","Textured surfaces show the image, in the place and the size the description says",
 "The colour shown at a point of a textured surface is that of the image at that point: the texels around it and no others, in linear proportion between texel centres, and their average where a pixel covers many of them, alike on both sides of every seam, with the shift, scale and repetition given, at every filter; masks hide and show by the same rule. The footprint of a pixel on the surface is that of the camera's neighbouring rays, however the surface is scaled, rotated and parametrised, and normal and height maps lean the surface the way the image says. This holds for images read from storage that shortens reads, for every shape, size and position, and for any number of threads using the same texture.",
 ["inputs","histories","schedules","fault_sequences"],"every image, point, footprint and arrangement, and every interleaving of threads looking up the same textures",
 "Tests look up a few points of one image per filter; their expected values were taken from the implementation.",
 ["src/textures","src/primitives/hit_point.cpp","src/primitives/asset.cpp"],[("filters","src/textures/image_map.cpp"),("shift, scale and footprint","src/textures/texture_image.cpp"),("footprint of a pixel","src/primitives/asset.cpp, hit_point.cpp"),("normal and height maps","src/textures/texture_normal.cpp, texture_bump.cpp")],["looked up colour, mask decision, shading normal"])
p("C29","Every statement of a scene takes effect, on what it names and nothing else",
 "Whatever a correct scene description states takes effect exactly as the README says: camera, resolution (a width that is no multiple of 32 grows to one, the height in proportion), samples per pixel, sampler, filter, texture filter and output file; the place of every object and light (scaled, then rotated about x, y and z by degrees, then moved), its material, temperature or colour; every textured, rough, anisotropic, metal, glass or dual material with its images, shifts, scales, channels and inversions. This holds in whatever order the statements stand, however numbers, spaces and comments are written, and in whichever file of the chain they stand (of two settings the one read last counts, chained files being read after the main one). What is not stated has its default value; one statement never changes what another describes, and neither do files that are missing or unreadable beyond what is read from them.",
 ["inputs","fault_sequences","histories"],"every description: any statements in any order spread over any files, some of them missing",
 "Tests parse one statement at a time and look at a few getters; what a history of statements leaves behind in the driver's state is not tested.",
 ["src/parsers/config_driver.cpp","src/parsers/config_parser.y","src/parsers/config_lexer.l"],[("state of the driver between statements","src/parsers/config_driver.cpp"),("attributes of a statement","src/parsers/config_parser.y"),("numbers","src/parsers/config_lexer.l")],["what rays find, what materials reflect, the rays and pixels of a render"])
p("C30","Running out of memory while an image is read or saved is survived",
 "When an allocation fails while an image file is read, or an image or a film is saved, the operation ends normally and its result can be trusted: success means that every pixel is there, otherwise it reports failure; no file handle or memory is lost, no other file is touched, and once memory is available again the same operation succeeds with exactly the right pixels. (For TIFF, of the allocations the repository's own code makes; libtiff does not survive its own.)",
 ["inputs","fault_sequences"],"every image of every supported format and every single or lasting failure of allocations (any position, any size threshold)",
 "Unit tests never run without memory; which allocation fails and what was already done by then is a fault sequence.",
 ["src/utility/imageio/","src/cameras/image_film.cpp"],[("readers and writers","src/utility/imageio/"),("pixels of a film","src/cameras/image_film.cpp")],["results and open handles of a read or save; files written; the pixels after memory returns"])
N=[("N01","Ray-shape intersections are geometrically exact","Every ray-sphere, ray-box and ray-triangle query returns the geometrically nearest intersection with consistent position, normal and surface coordinates.",["src/primitives","src/geometry"]),
("N02","Scattering functions conserve energy and are reciprocal","Every scattering function reflects no more energy than it receives, and is reciprocal where physics requires it, at every pair of directions (that averages over sampled directions agree with it is C26).",["src/materials"]),
("N03","Colour and spectrum conversions are consistent","Converting colours between spectra, XYZ and RGB is monotone, keeps black and white, and round-trips within tolerance.",["src/utility/color.cpp","src/utility/spectrum.cpp"]),
("N04","Cameras map image positions to the documented rays","Every image position maps to the ray the camera model prescribes and neighbouring positions to the documented offsets (the rays of whole renders are judged by C29, footprints by C28).",["src/cameras"]),
("N06","The scene grammar accepts exactly the documented language","Every documented directive is accepted and everything else is rejected with the position of the error (that what is accepted takes effect is C29).",["src/parsers/config_parser.y","src/parsers/config_lexer.l"]),
("N07","Path normalisation is lexically correct","Absolute, relative, dotted and repeated-separator paths all normalise to the lexically equivalent absolute path.",["src/utility/file.cpp"]),
("N08","Matrix inversion and transformation laws hold","Transforming by a matrix and its inverse is the identity within tolerance and transformed bounds contain the transformed object.",["src/geometry"])]
for i,t,s,f in N:
    p(i,t,s,["inputs"],"every input value","Unit tests sample a handful of inputs; the statement ranges over all inputs of a pure function.",f,[("closed-form code",f[0])],[])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
