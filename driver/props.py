"""Which program(s) decide which property, and the words for the evidence files."""
R=('simt','render'); L=('simt','light'); I=('sima','io'); O=('sima','obj'); S=('sima','scene'); M=('sima','misc'); T=('simt','texture'); G=('sima','settings')
PROPS={'C01':[R],'C02':[R],'C03':[R],'C04':[R],'C05':[R],'C06':[R],'C07':[R],'C23':[R,L],'C24':[R],
 'C08':[I],'C09':[I],'C12':[I],'C13':[I],
 'C15':[O],'C16':[O],'C14':[S],'C18':[S],'C17':[S],'C10':[S],'C11':[S],
 'C25':[L],'C26':[L],'C27':[L],'C28':[T],'C29':[G],'C30':[I],'C19':[M],'C20':[M],'C21':[M],'C22':[M]}
STUBS=["pthreads scheduling (real threads, one runs at a time, chosen by the seed)","clock, sleep and timers (simulated time)","file system and stdio (in memory, with faults)","heap (own allocator with red zones, or AddressSanitizer)","rand/getrandom","process exit (returns to the scenario)"]
RULES={
 'C19':"Folders and chains of folders are created and listed, and paths queried, on storage whose operations fail while other programs create, remove and change things between the operations; answers are compared with the storage and with the recorded operations. Non-trivial: a fault or change happened, or something was in the way.",
 'C20':"Seeded histories of adding objects and lights, building, rebuilding and querying the scene index (up to and beyond its capacity, touching, nested, flat and growing layouts) and meshes of up to 3000 triangles; every nearest hit is compared with testing every object or triangle. Non-trivial: every run.",
 'C21':"Seeded histories of loading (with storage faults), registering, looking up, erasing and clearing textures, images and materials; after each step all lookups, defaults, destructions, file openings and shown pixels are compared with a model. Non-trivial: every run.",
 'C22':"Seeded histories of shadow tests by several threads with their own query objects; each answer is compared with a fresh query object and with testing every object. Non-trivial: every run.",
 'C10':"The whole program (main) runs on generated scenes on failing storage, with refused threads and arbitrary schedules; an independent decoder judges the output file against the exit status and the messages. Non-trivial: a fault fired, or a bad call.",
 'C11':"The whole program runs with output locations of every kind (folders, missing, unwritable, inside of files, unknown extensions, failing queries); exit status, files changed and rays traced are judged. Non-trivial: every run.",
 'C14':"Scenes with many image references are parsed while images fail, shrink, vanish or change between the steps of the loading; what each material and mask shows is compared with the image or the default. Non-trivial: something happened to an image.",
 'C17':"Scene texts with chained files are cut, damaged and read from failing storage; process end, messages and what was built are judged against the meaning of the text. Non-trivial: every run.",
 'C18':"Generated scenes in arbitrary folders with decoy files in every other folder are parsed from arbitrary working directories; opened files, materials, masks and shapes are compared with the meaning of the text. Non-trivial: every run.",
 'C08':"An image of every format is saved to simulated storage that refuses, shortens or loses writes, fills up, dies or fails at close; when the save reports success an independent decoder reads the file back and compares every pixel. Non-trivial: a fault fired or writes were shortened.",
 'C09':"Images are saved and loaded on failing storage; process end, open handles, heap blocks, other files and the repeated call on healed storage are judged. Non-trivial: a fault fired or the file was cut.",
 'C12':"Files of every format and variant, written by independent encoders, are read with cuts, read errors and short reads (pixels compared), and damaged files are read twice over different memory (results compared). Non-trivial: a fault or cut was met, or a damaged file was accepted.",
 'C13':"Damaged, random and mislabelled image files are inspected, measured and read into a buffer of exactly the reported size under AddressSanitizer or a guard page. Non-trivial: every run.",
 'C15':"Generated .obj files (all index forms, fans, names, materials, padding around every block boundary) are imported by one parser in sequence through storage with short reads; every mesh, face, normal, coordinate and material is compared with what was generated. Non-trivial: the file is longer than one block, or the content was shifted over a boundary.",
 'C16':"Meshes are imported from failing, cut, missing and damaged files; process end, endlessness, handles, other files, reported errors, the exact part before the failure, rays onto the result, and the repeated import on healed storage are judged under AddressSanitizer. Non-trivial: a fault was met or the file was damaged.",
 'C01':"A render with a recording camera and integrator under a seeded schedule; the saved image is compared with a sequential model fed with every traced sample once. Non-trivial: at least two worker threads traced samples.",
 'C02':"A render with a recording camera under a seeded schedule; the samples are counted per pixel. Non-trivial: at least two worker threads traced samples.",
 'C03':"Whole renders of generated scenes (all materials, textures, masks, lights) with at least two workers; a vector-clock race detector sees every instrumented access. Non-trivial: every run.",
 'C04':"Renders under adversarial schedules, stalled threads, clock oversleeping and refused thread creations; deadlock, step budget and the threads left at the end are judged. Non-trivial: several workers, or a refused thread.",
 'C05':"A render of a generated scene with per-ray random numbers; each recorded light computation is repeated alone with fresh objects and compared bit for bit. Non-trivial: at least two workers.",
 'C06':"Renders with clock jumps, oversleeping and workers stalled up to days of simulated time; the captured console output is judged. Non-trivial: at least one progress line was printed.",
 'C07':"Stratified sampling over seeded tiles and renders with arbitrary generator seeds; samples are counted per stratum. Non-trivial: several tiles or pixels.",
 'C23':"Renders of generated scenes, and rays chosen to meet surfaces head-on, grazing, from inside and along axes, with generator states solved so that extreme numbers come first, over materials of every kind and roughness, odd meshes and scales; every light value is checked. Non-trivial: something was hit.",
 'C25':"Lights of any shape, scale and rotation are sampled by one or several threads from generated points; each sample is checked against the light's own surface, the reported distance, the independently computed probability and every object on the way. Points chosen on a light must cover it evenly; lights sealed inside opaque shells must not be seen outside. Non-trivial: something could be judged.",
 'C26':"Path tracing is averaged over seeded random streams in closed rooms and over floors whose light is known in closed form, whatever the number of lights, the division of their surface, the scale, the hidden lights and the threads; glossy, metal and Oren-Nayar surfaces are judged against the integral of their own reflectance, directly lit and in a room where the light arrives after bounces; a suspicious average is computed again with many more draws and only that one is judged. Non-trivial: light arrives.",
 'C27':"Matte shining walls are seen in mirrors and glass, between the light of one and of all reflections. Halls with coloured shining walls and up to four objects of smooth metal and glass (balls, boxes, sheets, general tetrahedra and octahedra, with or without interpolated normals) are path traced with seeded random streams and threads; the average is compared with a recursive double-precision tracer of every branch. Rays whose answer depends on an edge or on a grazing or critical angle are not judged. Non-trivial: at least one ray is judged.",
 'C28':"Textures of generated images, read from storage with short reads, are looked up at chosen points and footprints by one or several threads and compared with the image in double precision (texels around, average, bounds, seams, period); pixels of a generated camera over textured shapes of any scale, rotation and parametrisation are compared with the footprint of their neighbouring rays; normal and height maps are compared with the lean the image prescribes. Non-trivial: something was judged.",
 'C29':"Generated descriptions are written in many equivalent ways over a main file and chained ones (some missing, some images or meshes unreadable, reads split) and parsed by the real parser; every material, dual material and texture is compared with one built directly from the statement, rays are cast at every object and light and compared with its placement in double precision, and small renders are judged by the rays they cast and the pixels they save against the camera, size, samples, sampler and filter stated. Non-trivial: every run.",
 'C30':"Images of every format are read and saved (and films saved) while one allocation, a number of them or all from a certain one on fail (malloc, calloc, realloc of the repository, libpng and libjpeg), optionally only those above a size; the result, handles, memory and other files are judged, then the operation is repeated with memory. Non-trivial: an allocation failed.",
 'C24':"Seeded sequences of renders in one process, with failed saves, retries and renderers destroyed in between; every image is compared with the sequential model. Non-trivial: every run.",
}
NOTES={
 'C19':"after a change that could undo the answer at once (removal, a file in the way, lost permissions) only crashes, stray folders and the path are judged",
 'C20':"a difference counts only if slightly moved rays agree on the nearest distance (no grazing rays); extreme coordinates (beyond about 1e5 times the object) are left out",
 'C21':"erasing what is in use is left out; images decoded by the program's readers (judged by C12)",
 'C22':"grazing shadow rays are not judged; one query object per thread as the renderer does",
 'C10':"images up to 64x16 pixels; allocation failures are not injected",
 'C11':"permissions as the program's own queries see them; the storage is simulated",
 'C14':"matte materials and masks; pixels as the readers deliver them (the readers are judged by C12)",
 'C17':"cuts that leave a shorter valid text are accepted; allocation failures are not injected",
 'C18':"matte materials, masks, meshes of squares, one level of chained files",
 'C08':"all formats of the build; images up to a few hundred pixels per side; a failing close loses the tail of the file",
 'C09':"storage faults of every kind at every operation; allocation failures are not injected",
 'C12':"files written by the harness' own encoders; JPEG and TIFF pixels through the system's libraries",
 'C13':"mutations of valid files of every variant; library code is only checked at its calls into libc",
 'C15':"polygons are convex fans; comparison of values within the precision of the decimal text",
 'C16':"storage faults at open and read, cuts at every byte, damage; allocation failures are not injected",
 'C01':"seeded schedules x workloads; sequential consistency; images up to a few hundred pixels per side",
 'C02':"seeded schedules x workloads; images up to a few hundred pixels per side",
 'C03':"races are found on the executed accesses of the explored schedules; library code is not instrumented",
 'C04':"termination is judged by a step budget far above any correct run; refused threads through EAGAIN",
 'C05':"generated scenes; bitwise comparison with a sequential recomputation by the same code",
 'C06':"the reporting thread under stalls, oversleeping and real-time clock jumps; the monotonic clock does not jump",
 'C07':"seeds of the generator are drawn from random, constant and sparse patterns",
 'C28':"the blend between levels of detail is only bounded by the texels it may use; the unfiltered lookup may be off by half a texel (pinned by the unit tests); singular parametrisations and grazing pixels are not judged",
 'C29':"descriptions of up to some 30 statements in up to 3 files, names stated once; the textures' pixels are compared through references built from copies of the images; rays that touch an edge or a silhouette and pixels on the rim of a filter are not judged",
 'C30':"libtiff's own allocations are not failed: libtiff itself crashes on some of them; C++ `new` is not failed: its exceptions end the program with a message by design",
 'C23':"generated scenes and generator seeds; float arithmetic of this build",
 'C24':"up to a handful of renders per process",
 'C25':"samples at the very edges of the number range, grazing samples and points farther away than the precision of the floating point allows are not judged",
 'C26':"one-sided flat lights; matte, Oren-Nayar, glossy and rough metal surfaces (roughness of .15 and more); tolerance of 8 standard errors plus 2 to 2.5 %; round lights, Beckmann and Blinn surfaces are known findings, bounded from both sides, and so is light through rough glass",
 'C27':"tolerance of 8 standard errors plus 1 % (5 % with bump maps); metal seen from behind is a known finding, identified by the exact wrong value",
}
