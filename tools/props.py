NOTES = ("No hooks: every monitor observes the public API, the files and the processes of the real code, so /repo carries only fix: commits. "
         "check.sh builds the monitors and the command line tool from /repo's working tree; 'check.sh replay FILE' reruns one recorded violation.")
COMMON = " Assurance is that of the executed cases: seeded, reproducible, not exhaustive; trusts the harness's independent reference code."

prop("P01", "Transform algebra agrees with real arithmetic",
 "Every vector, quaternion, Euler-angle and 4x4-matrix operation the library offers (arithmetic, dot/cross/length/normalise, products, inverse, transpose, composition and decomposition, rotation conversions in every supported axis order, applying to a point) returns the mathematically correct result up to single-precision rounding. In particular converting between representations and back preserves the rotation even at gimbal lock and half turns, multiplying by the inverse gives the identity, and decomposing a translation/rotation/scale matrix (mirrored ones included) and composing the parts reproduces the matrix.",
 ["inputs"], "for all finite operands, all unit rotations incl. gimbal-lock and half-turn poses, all supported rotation orders, all invertible affine matrices",
 "The unit tests check about a dozen hand-picked values; a sign, axis-order or branch error only shows at particular poses (gimbal lock, trace <= 0 branches, mirrored scales).",
 ["geom/vector2.go","geom/vector3.go","geom/quaternion.go","geom/euler.go","geom/matrix4.go","geom/utils.go"],
 [("quaternion/Euler/matrix conversions","geom/euler.go, geom/quaternion.go, geom/matrix4.go"),("Matrix4.Inverse/Mul/Decompose","geom/matrix4.go")],
 "runtime differential monitor: every operation of the real code is compared online with an independent float64 model under rounding-error bounds",
 "Exploration of seeded operands with forced degenerate poses; NaN or out-of-bound results are violations."+COMMON)

prop("P02", "Triangulation tiles every simple polygon",
 "Triangulating any simple planar polygon, convex or concave, in any plane and either winding, yields exactly n-2 triangles that use only the polygon's vertices, keep its winding direction, do not overlap and together cover exactly the polygon.",
 ["inputs"], "for all simple planar polygons of any vertex count, shape (collinear runs, spikes, spirals included), size and orientation",
 "Tests triangulate two or three fixed polygons; wrong normals, dropped ears or triangles outside the outline need particular concave shapes and orientations.",
 ["geom/utils.go"], [("ear clipping","geom/utils.go Triangulate")],
 "runtime oracle on recorded outputs: tiling, winding, edge-conservation and area checks on every triangulation produced by a seeded polygon workload",
 "Exploration over polygon families in random planes."+COMMON)

prop("P03", "PMX save then load returns the same model",
 "Saving any valid MMD model as PMX and loading it back returns a model equal to the original: names and comments, every vertex attribute and weight kind, faces, textures, materials, bones with their flags, IK chains and links, all morph kinds, rigid bodies and joints, bit for bit. This holds for every model size, also where element counts cross the limits of the 1-, 2- and 4-byte index widths, and for models that were loaded from PMD; the bytes written follow the PMX layout so that other programs read the same model.",
 ["inputs"], "for all in-memory models with in-range references, at all section sizes",
 "No existing test writes a PMX file; round-trip errors hide in rarely used weight kinds, bone flags, morph kinds and index-width boundaries.",
 ["mmd/pmx_writer.go","mmd/pmx_parser.go","mmd/base_parser.go","mmd/mmd.go"],
 [("PMX writer","mmd/pmx_writer.go"),("PMX parser","mmd/pmx_parser.go"),("index width selection","mmd/pmx_writer.go fixIndexSize")],
 "runtime round-trip monitor: real writer -> real reader and real writer -> independent decoder, deep comparison of every field",
 "Exploration with forced index-width boundaries."+COMMON)

prop("P04", "PMX and PMD files load exactly as encoded",
 "Loading a well-formed PMX 2.0 or PMD file returns exactly the model the file encodes, for both text encodings, every combination of index widths, extra UV channels, display frames, every weight/bone/morph/body variant and, for PMD, Shift_JIS fixed-width fields. The result does not depend on how the input is delivered (file, buffer, arbitrarily short reads).",
 ["inputs"], "for all files of the two formats and all ways the reader hands out bytes",
 "No existing test loads an MMD file; the format has dozens of conditional fields and a single misparsed one shifts everything after it.",
 ["mmd/pmx_parser.go","mmd/pmd_parser.go","mmd/base_parser.go","mmd/mmd.go"],
 [("PMX parser","mmd/pmx_parser.go"),("PMD parser","mmd/pmd_parser.go"),("format detection","mmd/mmd.go")],
 "runtime differential monitor: files produced by an independent encoder are loaded by the real code and compared field by field",
 "Exploration over encoder options."+COMMON)

prop("P05", "MQO/MQOZ save then load returns the same document",
 "Saving any valid Metasequoia document (as .mqo, or as .mqoz with its .mqx side data inside) and loading it back returns the same document up to the decimal precision the text format prints: scene, materials with all colours, textures, shader parameters and mappings, objects with hierarchy, transforms, flags, mirror settings, vertices, faces, UVs, colours and normals, vertex weights, and the bone, morph and physics plugin data, in the same order. Saving does not modify the document, saving the same document twice gives the same bytes, and repeated save/load cycles do not drift or accumulate entries.",
 ["inputs","operation sequences"], "for all documents with format-representable names and values, for both containers, and for all histories of saves and loads",
 "The unit tests save one small document and only check that no error occurs; lost attributes, map-order dependence and accumulated entries need particular attribute combinations or several cycles.",
 ["mqo/mqo_writer.go","mqo/mqo_parser.go","mqo/mqo.go","mqo/mqx_parser.go","mqo/mqx_writer.go","mqo/bone_plugin.go","mqo/morph_plugin.go","mqo/physics_plugin.go"],
 [("mqo writer","mqo/mqo_writer.go"),("mqo parser","mqo/mqo_parser.go"),("mqx plugin data","mqo/mqx_parser.go, mqo/mqx_writer.go")],
 "runtime round-trip monitor: real writer -> real reader, deep comparison of every field, repeated cycles and input-unchanged assertions",
 "Exploration."+COMMON)

prop("P06", "MQO, MQX and MQOZ files load exactly as encoded",
 "Loading a well-formed Metasequoia file returns exactly the document it encodes: UTF-8 or Shift_JIS text, LF or CRLF line ends, any order of optional attributes and chunks, unknown chunks and thumbnails skipped, names containing backslash bytes, quads and n-gons, per-vertex and per-face attributes, and the side .mqx file or the mqoz archive with bones, weights, morphs and physics. The result does not depend on how the bytes are delivered.",
 ["inputs"], "for all files of the formats and all ways the reader hands out bytes",
 "Existing tests load one hand-written sample; single optional attributes or encodings are each exercised by few real files.",
 ["mqo/mqo_parser.go","mqo/mqo.go","mqo/mqx_parser.go","mqo/mqx_writer.go","mqo/bone_plugin.go","mqo/morph_plugin.go","mqo/physics_plugin.go"],
 [("mqo parser","mqo/mqo_parser.go"),("mqx reader","mqo/mqx_parser.go"),("encoding detection","mqo/mqo_parser.go")],
 "runtime differential monitor: files produced by an independent encoder are loaded by the real code and compared field by field",
 "Exploration over encoder options."+COMMON)

prop("P07", "Transforming a document moves everything consistently",
 "Applying an affine transform to a Metasequoia document moves every vertex, bone, collider and joint position by exactly that transform, turns normals by its inverse transpose, scales collider sizes (never negative), and changes object transforms so that every object's world transform, nested or not, becomes the transform times the old one. Faces, UVs, materials, weights and all other data stay. Applying transforms one after the other equals applying their product, and an inverse undoes it.",
 ["inputs","operation sequences"], "for all documents, object trees and invertible affine transforms (scale, mirror, rotation, translation)",
 "Untested by the unit tests; a missed kind of data (joint, nested object, normal under non-uniform scale) shows only for particular documents.",
 ["mqo/utils.go","mqo/mqo.go","mqo/bone_plugin.go","mqo/physics_plugin.go"],
 [("document transform","mqo/utils.go ApplyTransform"),("world transforms","mqo/mqo.go GetWorldTransforms"),("plugin transforms","mqo/bone_plugin.go, mqo/physics_plugin.go")],
 "runtime differential monitor: every point, normal and world transform after the real operation is compared with a float64 model of the same operation",
 "Exploration; object transforms are compared only where a translation/rotation/scale can represent the result."+COMMON)

prop("P08", "Applying morphs and posing bones changes exactly what it should",
 "Applying a morph with weight v moves each base vertex by v times its difference to the target, moves the other targets of the same base along, leaves the target itself and everything else alone, blends the colours of its material morphs, and reports whether a vertex morph was applied. Posing a bone turns that bone's whole subtree, its colliders and all vertices bound to it (in proportion to their weight, morph targets included) rigidly around the bone and nothing else; the T-pose adjustment turns the limb onto the X axis on its own side.",
 ["inputs","operation sequences"], "for all documents, morph sets, weights, skeleton orders and sequences of operations",
 "Untested by the unit tests; errors hide in blended weights, sibling morph targets, missing or mismatched objects, and bones listed before their parents.",
 ["mqo/morph_plugin.go","mqo/bone_plugin.go"],
 [("morph application","mqo/morph_plugin.go Apply"),("bone posing","mqo/bone_plugin.go BoneTransform, BoneAdjustX")],
 "runtime state monitor: complete document state before and after each real operation is compared with a float64 model",
 "Exploration."+COMMON)

prop("P09", "Mesh helpers keep shape, corners and given normals",
 "Triangulating an object replaces every polygon, in order, by triangles that tile it and carry the polygon's own corners (vertex, UV, normal) and material; completing normals keeps every given normal and fills only missing ones with unit smooth normals that look to the side the faces look to; cloning gives an independent copy; flipping a face twice restores it; making names unique keeps distinct names and yields no duplicates.",
 ["inputs"], "for all objects with planar polygon faces and any mix of present and missing UVs and normals",
 "The unit tests never triangulate an object with attributes; corner mix-ups need polygons with distinct attributes per corner.",
 ["mqo/utils.go","mqo/mqo.go"], [("Triangulate, FixhNormals, GetSmoothNormals","mqo/utils.go"),("Clone, Flip, FixNames","mqo/mqo.go")],
 "runtime differential monitor: results of the real helpers are compared corner by corner with an independent model; aliasing is detected by mutating copies",
 "Exploration."+COMMON)

prop("P10", "MMD to MQO conversion loses and invents nothing",
 "Converting an MMD model to Metasequoia keeps every face exactly once (mirrored along Z, with its corner positions, normals, UVs and material), every positive bone weight (as percent, summed per bone), every bone with its parent (or inherited parent, as configured), every vertex and UV morph as a hidden target object that differs from its base exactly by the morph's offsets, every material with its texture and edge flag, every material morph as a morphed colour, and every rigid body and joint. Nothing else appears, the source model is not modified, and converting again gives the same document.",
 ["inputs"], "for all models with in-range or absent references, including vertices used by no face, repeated bones in one vertex and morphs touching several separate parts",
 "No unit test converts a model; grouping of faces by morph and vertex renumbering go wrong only for particular connectivity.",
 ["converter/mmd2mqo.go"], [("face grouping by morph","converter/mmd2mqo.go genMorphGroup"),("faces, weights, morph targets","converter/mmd2mqo.go Convert")],
 "runtime conservation monitor: source and converted document are accounted against each other as multisets of faces and per-vertex weights, with an independent model of morphs, bones and physics",
 "Exploration."+COMMON)

prop("P11", "MQO to MMD conversion keeps the visible model",
 "Converting a Metasequoia document to MMD keeps every visible polygon of every material (as triangles that tile it, scaled by 1/80 and mirrored along Z, with its UVs and smooth normals) and nothing hidden, assigns faces to materials by consistent index ranges, keeps up to the four largest weights per vertex, all bones with their parents, every morph target as a vertex morph with exactly the offsets of its object, and every collider with its kind, size and bone. All indices of the result are in range.",
 ["inputs"], "for all documents with planar faces, any vertex sharing, bone order, ids and morph sets",
 "No unit test converts to MMD; index mistakes appear only with several materials and objects, split UVs or more than four weights.",
 ["converter/mqo2mmd.go","mqo/utils.go"], [("conversion","converter/mqo2mmd.go Convert"),("weights","converter/mqo2mmd.go setWeights"),("rigid bodies","converter/mqo2mmd.go convertBody")],
 "runtime conservation monitor: every output triangle and vertex is traced back to its source corner and compared with an independent model",
 "Exploration."+COMMON)

prop("P12", "MMD models survive the way through MQO back to MMD",
 "Converting an MMD model to Metasequoia at the tool's default scale and back to MMD gives a model with the same faces per material, the same corner positions, UVs, normals and bone weights, the same skeleton, vertex morphs and rigid bodies.",
 ["inputs"], "for all models with unit normals and a bone forest",
 "No test covers both directions; the two converters can each look right while disagreeing on an axis, sign, unit or numbering.",
 ["converter/mmd2mqo.go","converter/mqo2mmd.go","mqo/utils.go"], [("MMD to MQO","converter/mmd2mqo.go"),("MQO to MMD","converter/mqo2mmd.go")],
 "runtime round-trip monitor over both real converters with a face-by-face comparison of the two models",
 "Exploration."+COMMON)

prop("P13", "Every glTF file written is valid glTF 2.0",
 "Whatever is converted, the .glb or .gltf/.bin written obeys the structural rules of glTF 2.0, so that any viewer loads it: all references are in range, accessors and buffer views fit their buffers and their alignment, bounds equal the data, all attributes of a primitive have the same count, indices and joints are in range, nodes form a forest, skins, morph targets and animation samplers have consistent sizes, normals are unit vectors, extensions used are declared, and GLB chunk headers match the content.",
 ["inputs","option combinations"], "for all source documents with finite data, all conversion options, with and without motions and both container forms",
 "The one existing conversion test checks that no error is returned; invalid files only show in other programs.",
 ["converter/mqo2gltf.go","converter/glbanim.go","cmd/modelconv/main.go"],
 [("accessor and buffer writing","converter/mqo2gltf.go"),("animation samplers","converter/glbanim.go"),("file output","cmd/modelconv/main.go saveGltfDocument")],
 "runtime specification monitor: an independent glTF reader validates every file written by the real code against the structural rules",
 "Exploration."+COMMON)

prop("P14", "MQO to glTF keeps every visible face in place",
 "Converting a Metasequoia document to glTF keeps every visible polygon exactly once as triangles that tile it with its winding, world position (0.001 units), UVs, normals and material, and none of the hidden objects' or ignored materials' ones. Objects become nodes in the same tree. With shared geometry enabled, copies of an object are placed where the originals are.",
 ["inputs","option combinations"], "for all object trees, polygons, shadings, UV and normal layouts and all geometry options",
 "The existing test only checks that conversion succeeds; lost faces, swapped corners or displaced nested objects need particular documents.",
 ["converter/mqo2gltf.go","mqo/utils.go","mqo/mqo.go"], [("primitives","converter/mqo2gltf.go ConvertObject"),("hierarchy and instances","converter/mqo2gltf.go Convert")],
 "runtime conservation monitor: output triangles read back by an independent reader are accounted for against the source polygons in world space",
 "Exploration."+COMMON)

prop("P15", "MQO to glTF keeps skeleton, weights and morphs",
 "Converting a Metasequoia document with bones and morphs to glTF keeps every bone as a joint with its parent and world position, an inverse bind matrix that leaves the rest pose unchanged, each vertex's weights on the right joints (the four largest, normalised, when there are more), and each morph as a named morph target whose deltas are exactly the differences to its target object, identical for vertices duplicated along UV seams.",
 ["inputs"], "for all skeletons (any order, ids, missing parents), weight layouts and morph sets",
 "No test converts bones or morphs.",
 ["converter/mqo2gltf.go","mqo/bone_plugin.go","mqo/morph_plugin.go"], [("joints and weights","converter/mqo2gltf.go addBoneNodes, getWeights"),("morph targets","converter/mqo2gltf.go")],
 "runtime differential monitor: skins, weights and morph deltas of the written file are read back independently and compared with the source",
 "Exploration."+COMMON)

prop("P16", "MQO to glTF keeps materials, textures and alpha",
 "Converting to glTF gives every material its colour, emission, metallic/roughness, unlit and double-sided flags and its alpha mode and cutoff; texture files are embedded once each, bit-identical when a viewer can use them as they are and otherwise re-encoded with the same pixels within the configured size limits; missing or corrupt textures are left out without failing the conversion; alpha detection turns exactly the materials with transparent texels under their UVs into masked or blended ones.",
 ["inputs","option combinations"], "for all material settings, texture files (PNG, JPEG, BMP, TGA, GIF, missing, corrupt, shared) and options",
 "No test converts a textured material.",
 ["converter/mqo2gltf.go","mqo/mqo.go","mqo/utils.go"], [("materials","converter/mqo2gltf.go convertMaterial"),("textures","converter/mqo2gltf.go textureCache"),("alpha detection","converter/mqo2gltf.go")],
 "runtime differential monitor: materials and decoded image pixels of the written file are compared with an independent model of the mapping",
 "Exploration."+COMMON)

prop("P17", "VMD motions load exactly as encoded",
 "Loading a VMD motion returns every bone and morph key with its name, frame, position, rotation and weight as encoded, in Shift_JIS names of any length up to the field width, whatever follows the terminator or the morph section, and however the reader hands out bytes. Grouping into channels gives per target the keys sorted by frame, one per frame, losing none.",
 ["inputs"], "for all motions, key orders, names and readers",
 "No test loads a motion.",
 ["mmd/vmd_parser.go","mmd/base_parser.go","mmd/mmd.go"], [("VMD parser","mmd/vmd_parser.go"),("channels","mmd/mmd.go GetBoneChannels, GetMorphChannels")],
 "runtime differential monitor: motions produced by an independent encoder are loaded by the real code and compared sample by sample",
 "Exploration."+COMMON)

prop("P18", "Motions play the same after conversion to glTF",
 "Adding a motion to a glTF model animates exactly the bones and morphs the motion names that exist in the model: at every key frame (30 per second) the animated translation relative to the parent, the rotation and the morph weight (limited to 0..1) equal the motion's key in glTF coordinates, between keys of other morphs of a mesh the weights are interpolated, and converting again writes the same channels in the same order.",
 ["inputs"], "for all skeletons and motions with any key frames, models turned by half or not",
 "No test converts a motion.",
 ["converter/glbanim.go","mmd/mmd.go"], [("bone channels","converter/glbanim.go addBoneChannels"),("morph channels","converter/glbanim.go addMorphChannels")],
 "runtime differential monitor: animation samplers of the written file are evaluated at all keys and compared with the motion",
 "Exploration."+COMMON)

prop("P19", "glTF to glTF keeps the document and -scale scales it all",
 "Converting a glTF or GLB file to glTF or GLB keeps everything in it: nodes, meshes, attributes, skins, morph targets, animations, materials, images, extras and extensions. A .glb contains all its buffers and images; the source's files are never changed. With -scale, the world position of every vertex, in the rest pose, morphed, skinned and at every key of every animation, is the source's multiplied by the scale, and nothing else changes.",
 ["inputs","option combinations"], "for all well-formed glTF files (any buffers, URIs, accessor layouts, node transforms, skins, animations) and positive scales",
 "No test converts a glTF file; the failures need files with several buffers, escaped names, node matrices, shared bind matrices or animations.",
 ["cmd/modelconv/main.go","gltfutil/gltf_utils.go"], [("saving","cmd/modelconv saveGltfDocument"),("scaling","gltfutil transform functions")],
 "runtime differential monitor: source and result of the real command line tool are both evaluated to world positions by an independent glTF reader and compared, and the files of the source are hashed before and after",
 "Exploration."+COMMON)

prop("P20", "glTF to MQO keeps every triangle where it was",
 "Converting a glTF file to Metasequoia keeps every triangle of every primitive (lists, strips, fans, indexed or not) exactly once with its corners at the world positions given by the nodes, its UVs, winding and material; materials keep names, colours, textures, alpha mode and flags; joints become bones with their parent and world position.",
 ["inputs"], "for all well-formed glTF files, through the library and the command line",
 "No test converts a glTF file to MQO.",
 ["converter/gltf2mqo.go","cmd/modelconv/main.go"], [("triangles and placement","converter/gltf2mqo.go"),("materials","converter/gltf2mqo.go")],
 "runtime conservation monitor: triangles evaluated by an independent glTF reader are accounted for one by one in the converted document",
 "Exploration."+COMMON)

prop("P21", "FBX files load exactly as encoded",
 "Loading an FBX 7 file, binary (32- and 64-bit records, raw or deflated arrays, any footer) or ASCII (any layout, comments and number format), returns exactly the nodes and attribute values of the file in order, and the objects with their names, property values (the object's own, else its template's), parents, geometries and connections, whether or not the stream can seek and however it hands out bytes. A binary file that ends inside a node is rejected.",
 ["inputs"], "for all well-formed FBX 7 files, attribute types and readers, and all truncation points inside nodes",
 "The existing test never loads an FBX file.",
 ["fbx/binary_parser.go","fbx/text_parser.go","fbx/fbx_node.go","fbx/fbx_object.go","fbx/fbx_document.go","fbx/fbx_geometry.go"], [("binary records","fbx/binary_parser.go readNode, readProp"),("ASCII grammar","fbx/text_parser.go"),("objects, templates and connections","fbx/fbx_document.go BuildDocument")],
 "runtime differential monitor: files from an independent encoder are loaded by the real code and compared node by node and object by object, also cut off at random positions",
 "Exploration."+COMMON)

prop("P22", "Saved FBX files contain the whole document",
 "Saving an FBX document writes a well-formed ASCII FBX file with every node and value of the document except the file id: strings with quotes and line breaks, empty arrays, large integers, exponents and binary blobs (as base64) included. Loading it gives the same nodes, saving that again gives the same bytes. Documents built with the library convert exactly as after saving and loading, and values set on the models of a document are what its getters and matrices say, at once and after saving and loading, while everything else stays. Every write error is reported.",
 ["inputs","I/O faults"], "for all documents, loaded or built, and all positions where the writer fails",
 "The existing test writes one document and checks nothing.",
 ["fbx/fbx.go","fbx/fbx_node.go","fbx/fbx_document.go","fbx/fbx_geometry.go","fbx/fbx_model.go","fbx/fbx_material.go","cmd/modelconv/main.go"], [("writer","fbx/fbx_node.go Dump, fbx/fbx.go Write, Save"),("building documents","fbx/fbx_document.go AddObject, AddConnection")],
 "runtime round-trip monitor with a strict independent parser, and injected write faults at random positions and a full device",
 "Exploration."+COMMON)

prop("P23", "FBX to MQO keeps meshes, materials, shapes and skins",
 "Converting an FBX scene to Metasequoia keeps every mesh, wherever it is in the model tree, with all polygons at their world position in the file's axis system, winding (mirrored models too), UVs and normals of any layer mapping and material; objects form the same tree. Materials keep names, colours, factors and the diffuse texture. Blend shapes become hidden morph targets with the exact offsets; skin clusters become bones with their parents, bind positions and weights in percent.",
 ["inputs","option combinations"], "for all FBX 7 scenes built from translation, pre-rotation, rotation and scaling, binary or ASCII, through library and command line",
 "No test converts an FBX file.",
 ["converter/fbx2mqo.go","fbx/fbx_model.go","fbx/fbx_geometry.go","fbx/fbx_material.go","fbx/fbx_document.go"], [("geometry and placement","converter/fbx2mqo.go convertModel, convertGeometry"),("bones and shapes","converter/fbx2mqo.go convertDeformer, convertShape"),("axes","fbx/fbx_document.go CoordMatrix")],
 "runtime differential monitor: every polygon, shape and bone of the result is compared with an independent evaluation of the generated scene",
 "Exploration."+COMMON)

prop("P24", "Unity scenes and prefabs convert to MQO faithfully",
 "Converting a Unity scene or prefab (from a project directory or a .unitypackage) to Metasequoia gives one object per GameObject, in the tree of the transforms with children in listed order, with name, visibility (inactive parents and disabled renderers included) and local and world placement (z mirrored, x1000). Built-in shapes and the FBX mesh named by the reference are placed with outward faces, their UVs scaled by the material, and the renderer's materials in order; materials keep name, colour, emission and textures, which are saved next to the project with their bytes. Lights and, on request, colliders keep their parameters. Prefab instances are expanded wherever they are attached, with every modification (names, activity, transforms, colours, materials) and added objects applied. An asset is found by GUID and path whatever the order and layout of the files.",
 ["inputs","option combinations"], "for all projects built from GameObjects, transforms, mesh filters/renderers, lights, colliders, materials, textures, FBX models and nested prefabs, as directory or package, through library and command line",
 "The existing tests open one tiny in-memory package; placement, overrides and material errors need nested, mirrored or modified prefabs.",
 ["converter/unity2mqo.go","unity/unity.go","unity/unity_scene.go","unity/unity_assets.go","unity/unity_builtin.go","unity/unity_components.go","unity/unity_material.go","unity/unity_yaml.go","cmd/modelconv/main.go"],
 [("scene conversion","converter/unity2mqo.go convertObject, importMesh, convertRigidBody"),("scene loading and prefab modifications","unity/unity_scene.go"),("asset lookup","unity/unity_assets.go")],
 "runtime differential monitor: projects from an independent generator are converted by the real code and every object, face, material, light, collider and saved texture is compared with an independent evaluation of the project",
 "Exploration."+COMMON)

prop("P25", "Hostile Unity packages cannot escape, crash or leave files",
 "Opening a .unitypackage never creates, changes or removes anything outside its temporary directory, whatever the names and link entries in the archive, and textures are saved only in saved_textures. The temporary directory is gone when the assets are closed or opening or conversion failed. A package that was cut off is rejected. Packages and projects that are cut off, damaged, reference missing or wrong objects, or whose prefabs or transforms contain themselves are converted as far as possible or rejected with an error: they never crash and always end.",
 ["inputs","crash points"], "for all archives (path traversal, absolute names, links, truncation, bit flips) and all damaged or cyclic YAML files",
 "Security and robustness against arbitrary archives cannot be sampled by the one well-formed package of the existing tests.",
 ["unity/unity_assets.go","unity/unity_scene.go","unity/unity_yaml.go","unity/unity.go","converter/unity2mqo.go","cmd/modelconv/main.go"],
 [("extraction","unity/unity_assets.go OpenPackage"),("texture saving","converter/unity2mqo.go saveTexrure"),("recursion","unity/unity_scene.go, converter/unity2mqo.go convertObject")],
 "runtime file-system monitor: the whole scratch tree with canary files and the private temporary directory are listed and hashed before and after every run; panics, signals and CPU or memory divergence are violations",
 "Exploration of hostile, damaged and cyclic inputs."+COMMON)

prop("P26", "VRM output follows the configuration",
 "A VRM file contains what the configuration (given, or found next to the input, with its preset) says: metadata; each humanoid bone at the first existing listed node that is no mesh (entries without nodes leave a bone out, required bones fall back to nodes of their own name); first person bone; blend shapes by target name or node, all others on request; material settings by name or '*'; spring bone groups with wildcards in node order, never overlapping; collider groups with their references; own settings take precedence over the preset. Bodies become spring bones and colliders on request. Missing nodes, targets, colours or settings are skipped without affecting the rest, a preset that cannot be read is an error, and converting the VRM file again keeps the extension, or takes metadata and bones of a new configuration.",
 ["inputs","option combinations","repeated conversion"], "for all models with unique names and all configurations",
 "The existing test applies one small configuration and checks nothing about the result; errors need missing names, overlapping groups, presets or loaded glTF files.",
 ["converter/vrmconfig.go","vrm/vrm.go","vrm/vrm_writer.go","vrm/vrm_parser.go","vrm/vrm_extension.go","cmd/modelconv/main.go","converter/vrmconfig_presets/mmd.json"], [("applying a configuration","converter/vrmconfig.go applyConfigInternal, ApplyConfig, MergePreset"),("physics","converter/vrmconfig.go DetectSpringBones, ConvertColliders")],
 "runtime differential monitor: the real tool converts generated models and configurations; the extension and materials of the output are compared with an independent evaluation of the configuration",
 "Exploration."+COMMON)

prop("P27", "VRM output keeps the shape of the model",
 "Making a VRM file resets the joint rotations without changing what is seen: every vertex (skinned or attached to bones), normal and node of the model stays at its world position, all joints are unrotated afterwards, joint indices are unsigned shorts as VRM readers expect, everything is in one file that follows the rules of glTF, and the input files are unchanged.",
 ["inputs"], "for all skinned models in bind pose with unscaled joints: any tree, order of nodes, buffer layout, component type, shared data, MQO or glTF input",
 "No test covers the pose reset; errors depend on the buffer layout, node order and rotation of the input.",
 ["gltfutil/gltf_joint.go","gltfutil/gltf_utils.go","converter/vrmconfig.go","cmd/modelconv/main.go"], [("pose reset","gltfutil/gltf_joint.go ResetJointMatrix"),("joint component type","gltfutil/gltf_joint.go FixJointComponentType"),("single file","gltfutil/gltf_utils.go ToSingleFile")],
 "runtime differential monitor: world positions and normals of source and output evaluated by an independent reader",
 "Exploration."+COMMON)

prop("P28", "Command line options do what they say",
 "Each option of the command line tool changes exactly what it names and nothing else: -scale/-scaleX/-scaleY/-scaleZ/-rot180 transform the model (MMD input defaults to 80), -hide hides objects and what is below them, -hidemat the faces of materials, -morph bakes morphs with the given weights, -alpha and -unlit set the alpha mode or shader of materials, -chparent gives a bone a new parent, -autotpose turns the named arms to T-pose, -mmdFixInheritParentThreshold with -vrmconfig gives MMD bones that inherit enough rotation from a bone of the configuration that bone as parent; -texReCompress, -texBytesThreshold, -texResolutionLimit and -texResizeScale, -reuseGeometry, -ignoreHierarchy, -physics, -detectAlphaTexture and -gltfExportLight give glTF output the corresponding setting of the converter. VRM output of an MMD model turns the model and its arms as -rot180 -autotpose 右腕,左腕 -vrmconfig mmd would. Names may be lists and wildcards; names that match nothing change nothing. Options combine independently of each other and show in every output format.",
 ["inputs","option combinations"], "for all models and all combinations of options whose names contain no list or wildcard characters and whose -chparent makes no cycle",
 "The command line has no tests at all; interactions of options (unlit and alpha, hidden parents, wildcard lists) need particular combinations.",
 ["cmd/modelconv/main.go","mqo/utils.go","mqo/mqo.go","mqo/bone_plugin.go","mqo/morph_plugin.go"], [("option handling","cmd/modelconv/main.go"),("pose, morph and material options","cmd/modelconv/main.go, mqo/utils.go")],
 "runtime differential monitor: the real tool runs with random option combinations; its output is compared with an independent application of the options to the document",
 "Exploration of option combinations."+COMMON)

prop("P29", "Every documented conversion works however files are named",
 "Every documented pair of input and output format converts, whatever the model. The output format follows -format, else the extension (upper or lower case), else the default of the input; the result does not depend on which of these chose it or on how the file is called, and only the files of that format (.mqx beside .mqo, .bin beside .gltf) are written. Input files are never changed unless named as output, and converting in place gives what converting to another file gives. Motions given after the model each become an animation. Missing, foreign or empty inputs (binary formats), unknown types and impossible outputs end with a message, a non-zero exit status and all existing files unchanged.",
 ["inputs","option combinations"], "for all input formats, output formats, file names and ways to name the output",
 "There is no test of the tool; each of the sixty pairs has its own code path and naming rules.",
 ["cmd/modelconv/main.go","cmd/modelconv/utils.go","mqo/mqo_writer.go","mqo/mqo_parser.go","mmd/mmd.go","fbx/fbx.go","gltfutil/gltf_utils.go"], [("format selection and dispatch","cmd/modelconv/main.go main"),("saving","cmd/modelconv/main.go saveDocument, saveGltfDocument")],
 "runtime monitor of real processes: exit status, messages and all files before and after each run are compared between equivalent invocations, outputs are read by independent readers",
 "Exploration of formats and names."+COMMON)

prop("P30", "Conversion is deterministic",
 "Converting the same input with the same options always writes the same files with the same bytes, in every process.",
 ["schedules","inputs"], "for all inputs, options and formats, and all map iteration orders the runtime may choose",
 "Map iteration is random per run: a test that runs once sees one order, and most orders give a valid file.",
 ["converter","mqo","mmd","gltfutil","fbx","unity","vrm","cmd/modelconv/main.go"], [("material and texture collection","converter/mqo2gltf.go, converter/mqo2mmd.go"),("scene lookup","unity/unity_assets.go, unity/unity_scene.go"),("configuration","converter/vrmconfig.go")],
 "runtime monitor: repeated executions in separate processes (fresh hash seeds), byte comparison of everything written",
 "Exploration of inputs; each is repeated 3 (quick) or 6 times."+COMMON)

prop("P31", "Failed writes are always reported",
 "When any part of an output cannot be written (the stream fails after any number of bytes, or the device of the output file or of a side file is full), the writer returns an error and the tool exits with a non-zero status; success means that every byte was accepted.",
 ["fault injection"], "for all models and output formats and all points at which writing can fail",
 "Tests write to working disks; a swallowed error is silent data loss.",
 ["mqo/mqo_writer.go","mqo/mqx_writer.go","mmd/pmx_writer.go","vrm/vrm_writer.go","gltfutil/gltf_utils.go","cmd/modelconv/main.go"], [("PMX writer","mmd/pmx_writer.go"),("MQO/MQX writer","mqo/mqo_writer.go"),("GLB/VRM writers","gltfutil/gltf_utils.go, vrm/vrm_writer.go")],
 "fault injection at runtime: writers on streams failing after a chosen byte, the real tool with each output file on a full device",
 "Exploration of fault points."+COMMON)

prop("P32", "Damaged input files never crash the tool",
 "Whatever is wrong with an input (files cut off, bytes changed, removed or repeated, numbers, tokens, lines and JSON values altered, references that point nowhere, to themselves or in circles, damaged textures and configurations), the tool either converts what it can or ends with a message and a non-zero status: it never panics or overflows its stack, does not run or allocate without bound, never touches its inputs, and PMX and GLB/VRM files that are cut off are always reported.",
 ["inputs","crash points"], "for all damaged files of every supported input format (PMX, PMD, VMD, MQO, MQX, MQOZ, binary and text FBX, glTF, GLB, VRM, VRM configuration, images), all output formats and options",
 "Every parser follows offsets, counts and indices from the file; the tests only load well-formed samples, and each missing range check needs one particular damaged field.",
 ["mmd","mqo","fbx","gltfutil","converter","vrm","cmd/modelconv/main.go"], [("parsers","mmd/pmx_parser.go, mmd/pmd_parser.go, mmd/vmd_parser.go, mqo/mqo_parser.go, fbx/fbx_parser.go"),("index checks in converters","converter/*.go"),("glTF reference validation","gltfutil/validate.go")],
 "runtime monitor of real processes under CPU and memory limits: mutational fuzzing of valid files of every format; panics, signals, limits, silent failures and changed inputs are violations",
 "Exploration by seeded mutation (not coverage guided); images that claim gigantic sizes are left out."+COMMON)

prop("P33", "Concurrent conversions in one process do not interfere",
 "Programs may use the library from several goroutines: loading, converting, transforming and saving different documents at the same time (also of the same input files and with the same option values) is free of data races and gives exactly the same files as doing it one after the other, and no conversion leaves state behind that changes a later one.",
 ["schedules","inputs"], "for all mixes of conversions between all formats and all interleavings of goroutines",
 "The tests use one goroutine; a package-level cache or table that is written during conversion only fails under particular interleavings.",
 ["converter","mqo","mmd","fbx","gltfutil","unity","vrm","geom"], [("package-level state","converter/mqo2gltf.go, unity/unity_builtin.go, vrm/vrm.go"),("converters","converter/*.go")],
 "Go race detector (happens-before sanitizer) on concurrent mixes of real conversions, plus byte comparison with the sequential run",
 "Exploration: mixes of 2 to 4 inputs, 3 concurrent conversions each."+COMMON)

prop("P34", "Physics bodies and lights reach the glTF file",
 "With the physics option, converting a Metasequoia document to glTF gives every bone and object that has rigid bodies one physics extension object with all their shapes, in order, with type, size and position (relative to the bone) in metres, the summed mass, kinematic state and collision groups; bodies without target and documents converted without the option leave no trace. With the light option, every visible object with a light becomes a node at the light's place with its own KHR_lights_punctual entry holding exactly its parameters. The extensions are declared.",
 ["inputs","option combinations"], "for all documents with bodies and lights, all option combinations, through library and command line",
 "No test converts physics or lights.",
 ["converter/mqo2gltf.go","mqo/physics_plugin.go","cmd/modelconv/main.go"], [("physics","converter/mqo2gltf.go addPhysicsBody"),("lights","converter/mqo2gltf.go Convert")],
 "runtime differential monitor: converted files are decoded independently and every extension object is compared with the source document",
 "Exploration."+COMMON)
