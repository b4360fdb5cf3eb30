T = "TLA+ specification checked with TLC; "
NOTES = {
 "C06": (T + "exhaustive check of the buffered reader; TLC-generated OBJ files replayed in the real parser, meshes observed by intersection",
         "Obj.tla is the meaning of a file, line by line (positions, coordinates, normals, material in effect, objects and groups, absolute and relative indices); ObjRead.tla checks for every file up to 6 bytes (8 thorough) and every small buffer that a buffered reader delivers the lines of the whole file whatever their endings; files with every form of index, keyword, number and layout generated from ObjHist.tla are parsed with buffers of 3 and 4096 bytes (the latter made to end at a random byte), and names, triangles, normals, coordinates and materials compared by shooting at every corner. Coordinates of faces without vt are not checked (not described by the file)."),
 "C07": (T + "TLC-generated malformed OBJ files and damage schedules replayed in the real parser under AddressSanitizer",
         "ObjHist.tla puts faces with invalid indices of every kind (zero, past, before, out of range, not numbers, too few vertices) among good ones and says which remain: they are parsed and compared as for C06, and the reports counted; Fault.tla gives schedules of byte damage, applied with all truncations and single bytes of short files: the parser has to end without crashing and what it produced has to be usable. A limit on time is the oracle for hangs."),
 "C27": (T + "TLC-generated file trees, output names and pictures replayed in the real film as an unprivileged user",
         "OutHist.tla grows a tree of files and folders (some read-only), asks for an output name (relative or absolute, with dots and trailing separators) and says, by lexical resolution (Path.tla), whether it can be stored and where; pictures with clamped, unsampled and faint pixels are drawn. What is reported, the whole tree afterwards and every pixel read back are compared. The colour curve is inverted in the harness."),
 "C12": (T + "TLC-generated image files of every supported layout replayed in the real readers, colours given by the specification",
         "Image.tla defines encoding and decoding of BMP, TGA and PPM as byte sequences (invariant RoundTrip: decoding an encoded picture gives the picture it was made from); ImgHist.tla generates files with every layout choice, run-length packets chosen one at a time, and PngPix.tla rows of PNG samples (packed in the container by Python); every pixel is compared. Colours of maxima other than 255 and of 5-bit channels are accepted within a rounding interval. PNG is read through libpng: its compression is not modelled."),
 "C13": (T + "TLC-generated pictures written by the real code, the files recorded and checked against the specification by TLC, and re-read",
         "ImgWrite.tla chooses size, pixels and format; the recorded bytes of BMP, TGA and PPM files are decoded by Image.tla inside TLC (ImgBack.tla), PNG, TIFF and JPEG files by their own libraries, and all are read back by the code. Larger sizes (up to 70000 on a side) are judged by the same law on noise outside TLC. Full disk through /dev/full."),
 "C14": (T + "TLC-generated damage schedules applied to image files and replayed in the real readers under AddressSanitizer, verdicts by the specification's decoder",
         "ImgHist.tla damages files of Image.tla by truncations, header fields, bytes, insertions and removals and says which must be refused, which still decode; Fault.tla gives schedules for PNG, TIFF and JPEG files, where truncations must be refused and nothing may crash. Images are read in buffers of exactly the announced size. Sizes too large to allocate are only asked, not read."),
 "C18": (T + "TLC-generated stacks of masked surfaces and queries replayed in the real scene",
         "Mask.tla gives, in exact integer arithmetic, the texel met by a vertical line on sheets, spheres and boxes and thus every surface left on it; stacks generated from MaskHist.tla (bitmaps of 1, 4 and 16 texels, every channel, inversion, orientation and filter, lights included) are rotated and scaled, and the surface seen, its distance and what blocks it are compared; every texel of every mask is also asked to a dual material. Boxes have no texture coordinates: only uniform masks are used on them."),
 "C17": (T + "exhaustive laws of lobe choice; TLC-generated materials and queries replayed in the real materials with counting lobes",
        "Lobes.tla defines matching, sums, choice and density exactly; LobesAlg.tla checks fairness, totality and agreement for every short list of lobes and every number; materials of up to 5 lobes generated from LobeHist.tla are built in the real classes and every value, density, sampled lobe and destruction compared. Real lobes (diffuse, microfacet, mirror, glass) are composed likewise and their samples asked back; the numeric content of one lobe is C31's and C32's."),
 "C19": (T + "exhaustive laws of the path automaton; TLC-generated scenes and scripts replayed in the real integrator with scripted materials and random numbers",
        "Transport.tla is the automaton of a path: which terms are added at each vertex, with exact rational weights. TransAlg.tla checks on all small stacks that no emission is dropped or counted twice; stacks of up to 6 sheets with scripts for every vertex generated from TransHist.tla are replayed through the real PathTracer: vertices visited, end of the path and radiance are compared. Participating geometry is parallel sheets; the weight of the two direct-light samples is that of the power heuristic with the densities the light itself reports."),
 "C20": (T + "exhaustive check of the cache model; TLC-generated histories of visibility queries and light samples replayed in the real scene",
         "Shadow.tla proves for small scenes that the last-hit cache is invisible; histories generated from MaskHist.tla over every cache slot are replayed and every answer compared; samples of lights (LightSee.tla: sheets, spheres, boxes, masked or not, any position, rotation and scale, walls in front or behind, points inside) are checked for radiance, surface point, direction, density and occlusion. Spheres under non-uniform scales are outside (the code documents them as spheres)."),
 "C21": (T + "TLC-generated textures and lookups replayed in the real texture classes, values computed by the specification",
         "Texture.tla defines nearest, bilinear/pyramid and elliptical lookups in exact integer arithmetic over a repeated image; TexAlg.tla checks their laws for every coordinate of a small grid; lookups generated from TexHist.tla (sides 1 to 64) are replayed through scaled and shifted textures. Blends between pyramid levels are compared within rounding; footprints more eccentric than 30 and arbitrary ones only for staying inside the image and its range of values."),
 "C11": (T + "TLC-generated histories replayed in the real libraries with counting objects",
         "LibBook.tla is checked exhaustively for few names and objects; histories over all three maps, anonymous textures and the default's name are replayed, each in a process that runs to its regular end; every lookup, every default and the number of destructions of every object are compared after every step and after the end."),
 "C05": (T + "TLC-generated insertion histories replayed in the real scene with counting objects",
         "SceneBook.tla is checked exhaustively for small limits; histories with repeated, refused and mass insertions generated from SceneHist.tla (real limits 32 and 4096) are replayed; sizes, lights, visibility of every asset after each build and the number of destructions of every object are compared."),
 "C28": (T + "exhaustive comparison of every duration with the text given by the specification",
         "Duration.tla is an odometer whose value is checked to advance by one second; the text of every duration below the limit is the concatenation of pieces tabulated by TLC, and all 8 639 999 of them plus samples up to 2^32-1 are compared with the code, in a buffer of exactly the documented size."),
 "C15": (T + "TLC-generated histories of path objects replayed in the real class, expected paths computed by the specification",
         "Path.tla defines resolution as a fold over components; PathAlg.tla checks its laws for all short token sequences; histories over three objects (construct, append, copy, assign, parent) generated from PathHist.tla are replayed and every object compared after every step. POSIX code only; symbolic links are outside lexical resolution."),
 "C29": (T + "TLC-generated histories of path objects and a file tree replayed in the real class inside a scratch folder",
         "PathHist.tla keeps a file tree next to the path objects (invariant: it stays a tree); results of mkdir/mkdirs/ls and the reported kind of every object are compared after every step. Permissions are not explored (checks run as root)."),
 "C22": (T + "TLC-generated transformation sequences replayed in the real matrices, rays, boxes and assets",
         "Xform.tla keeps transformations as exact integer/rational matrices; its group laws (composition, inverse, covector rule) are invariants; sequences of elementary transformations (with scales from 2^-10 up), points, vectors, normals, rays and boxes generated from it are replayed in the code and every result compared with the exact one. Rotations are quarter turns (exact); arbitrary angles are covered only through orthogonality of the produced matrix."),
 "C23": (T + "TLC-generated extension histories and rays replayed in the real AABB",
         "BoxHist.tla: exhaustive invariants (hull, slab test against point membership) on a small lattice; generated histories replayed in the code, with answers computed exactly by the specification. Rays that only touch an edge or corner are excluded."),
 "C16": (T + "random and exhaustively enumerated tiles and counts replayed in the real samplers, walk, grids and random numbers computed by the specification",
         "Walk.tla is the raster walk and the grid of cells (WalkAlg.tla checks them for all small tiles and all counts); Well.tla is WELL1024a over 32-bit words; histories generated from WalkHist/WellHist are replayed and every batch, cell and random number compared. Whether jittered samples spread over their whole cell is judged by counting 100 000 of them in quarters of the cell (deterministic seeds)."),
 "C25": (T + "TLC-generated cameras, resolutions and samples replayed in the real cameras, rays computed exactly by the specification",
         "Camera.tla gives the point of the image plane (exact rationals) or the direction (angles as fractions of a turn) of a sample; CamAlg.tla checks symmetry and neighbourhood laws exhaustively; CamHist cases compare primary and differential rays within float tolerance. Listed finding: the panorama is mirrored with its target at a quarter of the width."),
 "C24": (T + "TLC-generated primitives, transformations and rays replayed in the real shapes, hits computed exactly by the specification",
         "Prim.tla intersects spheres, boxes and triangles with lattice rays in exact arithmetic; hit/miss, distance, point, normal, uv and tangents of the code must agree. Tangent rays and rays through edges are excluded."),
 "C26": (T + "TLC-generated insertion histories replayed in the real mesh, plus stratified surface sampling",
         "MeshBook.tla keeps the triangles, materials, area and box; exhaustive invariants for small histories; generated histories replayed in the code. Sampling is judged by which triangle is reached for a grid of random numbers, against the exact cumulative areas."),
 "C08": (T + "TLC-generated scene files, written in random layouts, parsed by the real driver and the settings in effect compared with those of the specification",
         "Conf.tla is the meaning of a scene file as a fold over its statements; ConfAlg.tla checks its laws (order independence, last one counts, included files override) for every short file of a small alphabet; files generated from ConfHist.tla are parsed and the arguments of the Renderer, the filter weights and the camera rays compared. The output path is compared as written (relative to the working directory, as the code does). Escapes in strings and numbers beyond 32 bits are not generated."),
 "C09": (T + "TLC-generated scene files and meshes parsed by the real driver, every texture, material and object compared with the specification's",
         "Same specification, with many declarations of few names in the main and included files. Objects are found by shooting rays at where the specification places them and comparing hit, material, mask and emission; reports must name what is missing and nothing else. A mesh declared after its users, duplicates and unknown names are generated."),
 "C10": (T + "TLC-generated folder trees and paths of every form, in main and included files, parsed by the real driver",
         "Same specification; a folder tree with equally named images and meshes in every folder, so that a wrong resolution finds a different picture or mesh. Paths use ., .., both separators, detours through missing folders and absolute forms. Symbolic links and unreadable files by permission (checks run as root) are left out."),
 "C30": (T + "TLC-generated material descriptions parsed by the real driver, materials compared with ones assembled by the harness",
         "The specification normalises a description (defaults, clamping, isotropy, last occurrence); the harness assembles lobes from the normalised one through the public constructors and compares value, density and samples for random directions. The lobes themselves are C17-C21's and are taken from the code."),
 "C31": (T + "TLC-generated histories of symmetric pairs of directions and refracted rays asked of the real lobes",
         "Scatter.tla moves pairs of rational directions by turns, mirrors, exchanges and changes of side and proves what they keep (ScatAlg.tla, exhaustive over short sequences); histories of ScatHist.tla are asked of every kind of lobe, all states of one history having to agree, with exact rational expectations for the diffuse lobes and Trowbridge-Reitz; Snell.tla gives exact refracted directions and Fresnel parts (rational at the angles of right triangles). Not judged: the formulas of Blinn and Beckmann beyond symmetry; four defects pinned by existing tests are known findings, each accepted only with the exact wrong value."),
 "C32": (T + "TLC-generated lobes and directions, draws of the real lobes counted in cells of equal share",
         "Draws.tla divides directions into rings and sectors of equal shares and checks exhaustively, for small grids, that even draws put the same number in every cell and that the shares agree with the density; for generated lobes and first directions every draw of a 96 x 96 grid is put in its cell (up to 32 rings or 16 sectors, 6 per cent tolerance) and the density of generated pairs compared. Four deviations pinned by existing tests are known findings, each accepted only with the exact wrong formula."),
 "C33": (T + "tables and TLC-generated histories of the specification replayed in the real classes, built with and without sampled wavelengths",
         "Colour.tla computes the sRGB curve and matrix, Planck's law, the CIE observer and both index equations with 15-bit soft numbers; ColourAlg.tla checks their laws (monotone, endpoints, Wien's displacement, hotter is bluer, white of the greys) over all component values and a range of temperatures; its tables are compared with the code in both builds (all greys, axes and a grid of colours; every component value), and SpecHist.tla's histories of exact operations must agree to the last bit. The build with wavelengths cannot give back saturated colours exactly (bounds in the statement). Two deviations pinned by existing tests (Planck's sign, Adobe RGB) are known findings, each accepted only with the exact wrong value."),
 "C01": (T + "recorded renders (real threads under generated schedules) validated as behaviours of Render.tla",
         "The queue protocol is checked exhaustively for small images and up to 3 threads; the code is run with real threads under a scheduler that switches at every mutex operation and sample, on configurations and schedules generated by TLC, and every recorded execution must be accepted by the specification. Trusts the pthread interposition and the virtual camera interface; OS-level data races inside one step are not explored."),
 "C02": (T + "TLC-generated programs and geometry replayed in the real film, free-running threads under ThreadSanitizer",
         "Film.tla is checked exhaustively (lost updates, torn pixels, termination) for small strips; its ownership rule is checked against the code for every lattice sample of several tilings, generated multi-threaded programs are run under generated schedules and freely under ThreadSanitizer, and whole renders are compared with the recorded samples. Filter weights themselves are taken from the code."),
 "C03": (T + "TLC-generated add/build/intersect histories and lattice scenes replayed in the real kd-tree, expected hits computed by the specification",
         "KdSplit.tla is checked exhaustively (no asset lost by a split, front-to-back visiting sound); scene histories generated from KdHist.tla are replayed in the real tree and every reported hit must be the closest one computed exactly on the lattice; sizes up to the asset limit are covered by seeded trees compared with an exhaustive scan of the single assets."),
 "C04": (T + "TLC-generated meshes and rays replayed in the real mesh, expected hits computed by the specification",
         "MeshHist.tla/Lattice.tla compute exactly the closest triangle for lattice meshes and rays (touching cases excluded); the real mesh must agree after every history; deep and wide trees are compared with the exhaustive scan of their triangles."),
}
NOT = {
}
