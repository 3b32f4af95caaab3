#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

NOTEST = "The 18 unit tests only format FGD values and colours; nothing under this module is executed by any test, and "

p("C01", "Malformed map text is rejected with an error, never a crash",
  "For any contents of a map file, turning it into entities ends either in entities or in a returned error. No line, however malformed, truncated or oddly encoded, makes the process panic.",
  ["inputs"], "every byte string a map file can hold (lines, quotes, braces, plane tokens, numbers)",
  NOTEST + "a test samples a handful of malformed lines out of an infinite set.",
  ["src/map/quake/tokenizer.rs", "src/map/quake/parser.rs", "src/map/quake/types/brush_plane.rs", "src/lib.rs"],
  [("line classification and property splitting", "tokenizer::run"), ("plane line parsing", "BrushPlane::new, ExtraData::quake_2/daikatana"), ("scope machine", "parser::run")],
  observe=["quarchitect::run", "quarchitect::run_diff"])

p("C02", "Map content is attributed to the block that encloses it",
  "In an accepted map every entity, brush, face and key/value property belongs to the innermost block that contains it, entities, brushes and faces being kept in file order. A brace, property or face line that is not allowed in the block where it stands, or a block still open at the end of the file, makes the whole map rejected with an error.",
  ["inputs"], "every sequence of lines of the four significant kinds, in every block state",
  NOTEST + "the transition function must be right for every (block state, line kind) pair on every history of lines.",
  ["src/map/quake/parser.rs", "src/map/quake/types/entity.rs", "src/map/quake/types/brush.rs"],
  [("scope transitions and pushes", "parser::run")],
  [("scope", "file / entity / brush", "parser::run")], ["quarchitect::run"])

p("C03", "Face lines: every field comes from its place in the format",
  "For every face line in the standard or the Valve 220 format, the three points, the texture, the texture offsets or axes, the rotation and the two scales are the tokens the format puts at those positions, in order. Trailing game data is read as none (0 tokens), Hexen 2 (1), Quake 2 (3) or Daikatana (6, the last three being the colour) in the format's order, and any other number of trailing tokens is an error.",
  ["inputs"], "every well-formed face line in both texture formats with each kind of trailing data",
  NOTEST + "a swapped or skipped token shifts every later field only for the formats a test happens to sample.",
  ["src/map/quake/types/brush_plane.rs", "src/map/types/uv.rs"],
  [("token cursor", "BrushPlane::new"), ("extra data", "ExtraData::quake_2, ExtraData::daikatana")], observe=["quarchitect::run"])

p("C04", "Texture names are canonical lower case in maps and WADs",
  "The texture name of every parsed face and the name of every texture read from a WAD is the stored name folded to lower case (for a WAD, up to its first NUL), so that names differing only in case agree between map, WAD and the texture sizes supplied by the caller.",
  ["inputs"], "every texture name in a map line or a WAD miptex header",
  NOTEST + "the two producers live in different modules and must agree on every spelling.",
  ["src/map/quake/types/brush_plane.rs", "src/wad/mip_texture.rs"],
  [("lower-casing of the map texture token", "BrushPlane::new"), ("NUL-terminated lower-cased miptex name", "mip_texture::parser")], observe=["quarchitect::run", "quarchitect::wad::read_textures"])

p("C05", "Every entity, brush and face keeps its own geometry",
  "Between parsing and scene assembly each entity is paired with geometry built from that entity's own brushes and faces, one geometry per entity, per brush and per face, in the same order. No entity, brush or face is dropped, duplicated or paired with another's geometry.",
  ["inputs"], "every list of entities, brushes and faces, including empty ones",
  NOTEST + "a filtered or reordered list only misaligns on inputs with particular shapes.",
  ["src/lib.rs", "src/geo_builder/mod.rs", "src/geo_builder/entity/mod.rs", "src/geo_builder/brush/mod.rs"],
  [("one geometry per element", "geo_builder::run, entity::build, brush::build"), ("zip of entities with geometry", "quarchitect::run")], observe=["quarchitect::run"])

p("C06", "Only genuine hull corners become vertices",
  "Every vertex emitted for a face is the intersection of that face's plane with two planes of the same brush, is emitted only if the three planes have an intersection, and only after it was found not to lie outside any plane of the brush. Every such corner of the face appears, once per position.",
  ["inputs"], "every brush: any number and arrangement of planes",
  NOTEST + "the guard has to stand on every path that emits a vertex, for every combination of planes.",
  ["src/geo_builder/brush_plane/mod.rs", "src/geo_builder/brush_plane/vertices.rs"],
  [("plane intersection", "vertices::intersect_brush_planes"), ("hull test", "vertices::vertex_in_hull"), ("emission", "build_plane_vertex, brush_plane::build")], observe=["quarchitect::run"])

p("C07", "Triangle indices always refer to existing vertices",
  "In every mesh surface and every concave collision shape, each triangle index is smaller than the number of vertices of that same surface or shape, whatever brushes, faces and duplicate vertices were merged into it. Faces with fewer than three vertices contribute no triangle.",
  ["inputs"], "every set of faces, brushes and duplicate vertices merged into a surface",
  NOTEST + "offsets, filters and duplicate removal only go out of step on particular combinations of faces.",
  ["src/geo_builder/brush_plane/mod.rs", "src/scene_tree/mod.rs"],
  [("triangle fan", "brush_plane::build"), ("index offsets", "gather_brush_geometry, gather_entity_geometry"), ("index remapping", "filter_vertices")], observe=["quarchitect::run"])

p("C08", "Surface attribute arrays run parallel to the vertices",
  "In every mesh surface, positions, normals and tangents have exactly one element per vertex in the same order, taken from that same vertex; texture coordinates and colours are either absent or likewise one per vertex. Each array holds the attribute it is named after.",
  ["inputs"], "every surface built from any set of faces",
  NOTEST + "a filtered, swapped or partially collected array shows only on surfaces with mixed vertices.",
  ["src/scene_tree/mod.rs", "src/scene_tree/types/visual_geometry.rs"],
  [("surface arrays", "build_brush_entity_texture_surface")], observe=["quarchitect::scene_tree::MeshSurface"])

p("C09", "Texture coordinates, texture and colour appear exactly when known",
  "A face's vertices carry texture coordinates, and the face names its texture, exactly when the caller supplied a size for that face's texture; otherwise both are absent. Its vertices carry a colour exactly when the face has Daikatana colour data, and then that colour.",
  ["inputs", "configurations"], "every face and every table of texture sizes",
  NOTEST + "the rule quantifies over every texture table and face kind.",
  ["src/geo_builder/brush_plane/mod.rs"],
  [("texture lookup", "brush_plane::build"), ("vertex attributes", "build_plane_vertex")], observe=["quarchitect::scene_tree::MeshSurface"])

p("C10", "Geometry building never crashes on a parsed map",
  "Building geometry for any entities a map can parse to, including degenerate faces, non-finite coordinates and empty brushes, never panics. In particular every ordering used for sorting is a total order for all floating-point values.",
  ["inputs"], "every parsed entity list, including NaN/infinite coordinates, collinear points, zero faces",
  NOTEST + "the crashes need degenerate planes or non-finite numbers.",
  ["src/geo_builder/brush_plane/mod.rs", "src/geo_builder/brush_plane/vertices.rs", "src/geo_builder/brush_plane/uvs.rs", "src/geo_builder/brush_plane/tangents.rs", "src/geo_builder/entity/mod.rs"],
  [("degenerate plane filter", "vertices::intersect_brush_planes"), ("dominant-axis choice", "uvs::standard_uv, tangents::standard_tangent"), ("winding sort", "brush_plane::build")], observe=["quarchitect::run"])

p("C11", "Faces are flat shaded unless the entity asks for phong",
  "A vertex normal differs from its own face's plane normal only in entities whose _phong property is 1; then it is built from the normals of the planes meeting at that vertex, and with a valid _phong_angle a neighbour's normal is blended in only if its angle to the face is within that threshold.",
  ["inputs"], "every entity property set and every vertex",
  NOTEST + "the guard must hold for every property value and every plane combination.",
  ["src/geo_builder/brush_plane/normals.rs", "src/geo_builder/brush_plane/mod.rs"],
  [("phong guard", "normals::vertex_normal, brush_plane::build"), ("angle threshold", "normals::phong_normal")], observe=["quarchitect::scene_tree::MeshSurface"])

p("C12", "A map needs exactly one worldspawn, which comes first",
  "A map without exactly one worldspawn entity is rejected with an error rather than a crash or a guess. Otherwise the first node of the result is the worldspawn, and the other entities keep their file order.",
  ["inputs"], "every list of parsed entities, with zero, one or several worldspawns at any position",
  NOTEST + "it must hold for every number and position of worldspawn entities.",
  ["src/layer_filter/mod.rs", "src/lib.rs", "src/scene_tree/mod.rs"],
  [("partition by classname, singleton test, reorder", "layer_filter::run"), ("first element special-cased", "scene_tree::run")], observe=["quarchitect::run"])

p("C13", "Splitting liquid layers conserves the world's brushes",
  "Every worldspawn brush ends up in exactly one place: in one liquid layer if all of its faces carry that layer's texture, otherwise in the worldspawn geometry, order preserved. No brush is lost, duplicated or altered, and no other entity's brushes are touched.",
  ["inputs"], "every set of worldspawn brushes and textures",
  NOTEST + "losing or duplicating a brush needs particular texture mixes.",
  ["src/layer_filter/mod.rs"],
  [("partition per layer texture", "layer_filter::run, brush_geometry_by_layer")], observe=["quarchitect::run"])

p("C14", "Scene assembly never crashes on a parsed map",
  "Assembling the scene for any entities a map can parse to, with any class definitions, never panics and always terminates: missing class names, unparsable editor ids, unknown classes and cyclic or self-referencing groups included.",
  ["inputs", "configurations"], "every parsed entity list and every pair of game-data tables",
  NOTEST + "the crashes need malformed editor properties or cyclic group references.",
  ["src/scene_tree/mod.rs"],
  [("class lookup and editor properties", "get_entity_properties, build_entity"), ("group recursion", "build_entity")], observe=["quarchitect::run"])

p("C15", "Visual and collision children follow the class definition",
  "An entity's node has a mesh child only if its class is defined as a brush class with mesh visuals, and a collision child of exactly the kind (convex or concave) its class asks for; point classes, undefined classes and kinds set to none get no such child. Liquid layers obey the same rules with their layer definition.",
  ["inputs", "configurations"], "every combination of class kind, visual kind and collision kind",
  NOTEST + "the mapping must be right for every configuration in both the entity and the layer path.",
  ["src/scene_tree/mod.rs", "src/game_data/types/entity.rs", "src/game_data/types/brush_data.rs"],
  [("kind selection", "get_entity_visual_geometry, get_entity_collision_geometry, get_worldspawn_layer_*")], observe=["quarchitect::scene_tree::SceneTreeNode"])

p("C16", "Node properties are typed by the FGD definition, with its defaults",
  "Every property that the FGD definition of the entity's class declares appears in the entity's node under its own name and with the declared type. Its value is the map's value when present and well formed, and the declared default otherwise.",
  ["inputs", "configurations"], "every declared property type crossed with absent, malformed and well-formed map values",
  NOTEST + "a wrong type tag or default shows only for one of nine types in one of three situations.",
  ["src/scene_tree/mod.rs", "src/game_data/types/properties.rs", "src/game_data/forge/property.rs"],
  [("conversion per declared type", "get_entity_properties, parse_vector3_property, parse_color_property")], observe=["quarchitect::scene_tree::Actor"])

p("C17", "An entity takes everything from its own class definition",
  "A node is named after the entity's class, and its actor type, component and property application mode are those of the first class definition with exactly that class name. Entities whose class is undefined get the placeholder type, no component and plain properties.",
  ["inputs", "configurations"], "every entity class name and every table of class definitions",
  NOTEST + "agreement between the separate lookups must hold for every table.",
  ["src/scene_tree/mod.rs"],
  [("class lookups", "get_entity_type, get_entity_component_class, get_entity_property_application_type, get_entity_properties")], observe=["quarchitect::scene_tree::Actor"])

p("C18", "Blacklisted textures never reach an entity's mesh",
  "No mesh surface of an entity is built for a texture on the face blacklist, and faces of a brush all of whose faces carry blacklisted brush textures contribute to no surface. Every other face with a known texture is in exactly the surface of its own texture, and each texture has at most one surface.",
  ["inputs", "configurations"], "every blacklist, brush and texture combination",
  NOTEST + "the filters must hold for every blacklist and texture mix.",
  ["src/scene_tree/mod.rs", "src/scene_tree/predicates/brush.rs", "src/scene_tree/predicates/plane.rs", "src/scene_tree/predicates/texture.rs", "src/types/texture.rs"],
  [("texture and brush filters", "predicates::*, get_brush_entity_visual_geometry")], observe=["quarchitect::scene_tree::MeshSurface"])

p("C19", "The same inputs always give the same result",
  "Processing the same map, WAD or game data with the same configuration yields the same result in the same order on every run, in every process and after any earlier calls. Nothing in a result depends on hash iteration order, thread scheduling, time, environment or state left by previous calls.",
  ["schedules", "histories", "inputs"], "all processes (hash seeds), thread schedules and call histories",
  "The tests never compare two runs, and hash seeds and thread schedules cannot be enumerated by running.",
  ["src/lib.rs", "src/layer_filter/mod.rs", "src/scene_tree/mod.rs", "src/wad/mod.rs", "src/map/quake/tokenizer.rs", "src/game_data/forge/game_data.rs"],
  [("ordered containers for anything iterated", "layer_filter::run, scene_tree::run"), ("order-preserving parallel collection", "wad::read_mip_data")], observe=["quarchitect::run", "quarchitect::wad::read_textures"])

p("C20", "Nodes are placed relative to their parent",
  "A top-level entity's position is its own centre; a grouped entity's position is its own centre minus its parent's centre. The centre is the origin property when the entity has one, and otherwise the average of its brushes' centres, as a brush's centre is the average of its faces' centres; geometry children of an entity stand at that entity's centre.",
  ["inputs"], "every entity tree and every centre",
  NOTEST + "a wrong sign or a missing divisor must be excluded for every tree and depth.",
  ["src/scene_tree/mod.rs", "src/geo_builder/entity/mod.rs", "src/geo_builder/brush/mod.rs"],
  [("origin arithmetic", "build_entity"), ("centres", "entity::build, brush::build")], observe=["quarchitect::scene_tree::SceneTreeNode"])

p("C21", "Groups nest under their owner and the rest stays top level",
  "The result lists the worldspawn, then the liquid layers, then, in file order, exactly the other entities that are in no group. An entity in a group appears instead among the children of the entity whose editor id equals its group reference, and entities without an id own no group members. An entity that is itself nested inside a group with its own id owns no members there, so that cyclic groups end.",
  ["inputs"], "every assignment of editor ids and group references",
  NOTEST + "it must hold for every assignment of ids and groups.",
  ["src/scene_tree/mod.rs"],
  [("top-level selection", "scene_tree::run"), ("child selection", "build_entity")], observe=["quarchitect::run"])

p("C22", "Malformed WAD and palette files are rejected, never a crash",
  "For any file contents and any valid number of mip levels, reading textures or a palette ends in a value or a returned error. No header, count, offset, size or magic in the file makes the process panic or silently wraps around in arithmetic.",
  ["inputs"], "every byte string a WAD or palette file can hold",
  NOTEST + "crashes need particular offsets, sizes or magic values.",
  ["src/wad/mod.rs", "src/wad/header.rs", "src/wad/entry.rs", "src/wad/mip_texture.rs", "src/wad/palette.rs", "src/wad/mip_level.rs"],
  [("offset and size arithmetic, slicing", "read_directory, read_mip_data"), ("magic check", "read_textures")], observe=["quarchitect::wad::read_textures", "quarchitect::wad::palette::read_palette"])

p("C23", "I/O failures and short files are reported, never papered over",
  "If opening, seeking, reading or parsing any part of an input fails, or the file ends early, the call returns an error. No texture, palette, map or diff is ever produced from bytes that were not actually read, and a failed element is never silently left out of the result.",
  ["fault_sequences", "inputs"], "every I/O failure point and truncation length",
  NOTEST + "the failure can strike at any of the calls on any element.",
  ["src/wad/mod.rs", "src/wad/palette.rs", "src/lib.rs", "src/game_data/forge/game_data.rs"],
  [("error returns and error scan after collection", "read_header, read_directory, read_mip_textures, read_mip_data, read_palette"), ("propagation", "run, run_diff, GameData::save")], observe=["quarchitect::wad::read_textures", "quarchitect::run"])

p("C24", "WAD structures are decoded at the format's byte offsets",
  "Header, directory entry, texture header and palette fields are little-endian values at the offsets the WAD2/WAD3 format defines, directory entry i is read 32*i bytes after the directory start, and a texture header at its entry's offset. All entries the header counts are visited; exactly those of a miptex type whose name the caller's whitelist (if any) contains are returned, in directory order.",
  ["inputs"], "every WAD file and whitelist",
  NOTEST + "a swapped or shifted field shows only in real files.",
  ["src/wad/header.rs", "src/wad/entry.rs", "src/wad/mip_texture.rs", "src/wad/color.rs", "src/wad/palette.rs", "src/wad/mod.rs"],
  [("field order of the binary parsers", "header::parser, entry::parser, mip_texture::parser, palette::parser"), ("directory walk and filter", "read_directory")], observe=["quarchitect::wad::read_textures"])

p("C25", "Each mip level gets exactly its own pixel block",
  "In every returned texture, level 0 is the width*height bytes stored at the texture's first pixel offset, and each further requested level is the block directly after the previous one, a quarter of its size. Levels that were not requested are absent, and requested ones present.",
  ["inputs"], "every texture size and every requested number of levels",
  NOTEST + "block boundaries must be right for all sizes and all four level counts.",
  ["src/wad/mod.rs", "src/wad/mip_level.rs", "src/wad/mip_data.rs"],
  [("buffer slicing", "read_mip_data")], observe=["quarchitect::wad::TextureIndexed"])

p("C26", "Header, pixels and palette of a texture belong together",
  "Every returned texture combines the header, pixel data and, for WAD3, palette of one and the same directory entry, however the parallel reads are scheduled. A palette is present exactly for WAD3 files and is the 256-colour table that follows the smallest mip level and its two-byte colour count.",
  ["schedules", "inputs"], "every thread schedule and every directory",
  "No test reads a WAD, and interleavings of the parallel readers cannot be enumerated by running.",
  ["src/wad/mod.rs", "src/wad/palette.rs"],
  [("zip of directory, headers and data; per-task file handle", "read_textures, read_mip_data")], observe=["quarchitect::wad::TextureIndexed"])

p("C27", "RGB conversion maps each level through the right palette",
  "Converting a texture to RGB replaces every pixel index of every level by that entry of one palette, level by level and pixel by pixel in order, absent levels staying absent. The texture's own palette is used when it has one, otherwise the supplied one, and having neither is an error.",
  ["inputs"], "every texture, level combination and palette",
  NOTEST + "it must hold for every index, level and palette combination.",
  ["src/wad/mod.rs", "src/wad/mip_data.rs"],
  [("palette choice", "TextureIndexed::into_rgb"), ("index lookup per level", "MipDataRGB::from_indexed")], observe=["quarchitect::wad::TextureRGB"])

p("C28", "FGD text can be generated for any game data",
  "Producing FGD text from any game data value never panics, including choices whose default is out of range, empty choice lists, many flags and unusual numbers.",
  ["inputs"], "every game data value a caller can build",
  "The tests format nine well-formed properties; the crashes need out-of-range defaults or more than 31 flags.",
  ["src/game_data/forge/property.rs", "src/game_data/forge/entity.rs", "src/game_data/forge/metadata.rs", "src/game_data/forge/choice.rs", "src/game_data/forge/game_data.rs", "src/types/color.rs"],
  [("default lookup and flag bits", "Property::to_string")], observe=["quarchitect::game_data::forge::GameData::to_string"])

p("C29", "FGD text lists every part of the game data, in order",
  "The text contains every include, every entity definition and, within each, every metadata item, property, choice and flag exactly once and in the given order, each with its own name, description and value, under the keyword of its class type. Flag number i is written with value 2^i (flags past the 32 bits of the value with 0) and is marked on exactly when the default has that bit.",
  ["inputs"], "every list length and content of the nested game data",
  "The tests compare two fixed documents; completeness and order must hold for lists of every length and mixture.",
  ["src/game_data/forge/game_data.rs", "src/game_data/forge/entity.rs", "src/game_data/forge/metadata.rs", "src/game_data/forge/property.rs"],
  [("accumulating folds", "GameData/Entity/Metadata/Property::to_string")], observe=["quarchitect::game_data::forge::GameData::to_string"])

p("C30", "Enum codes are distinct and convert back to the same value",
  "Every enumeration with integer codes gives each of its variants a different code. Where a conversion back from the code exists, it returns the variant that produced it, for every variant.",
  ["inputs"], "every variant of every coded enumeration",
  "No test converts a code in either direction.",
  ["src/game_data/types/collision_type.rs", "src/game_data/types/visual_type.rs", "src/game_data/types/component_type.rs", "src/game_data/types/entity_type.rs", "src/game_data/forge/entity.rs", "src/game_data/forge/metadata.rs"],
  [("Into/From integer impls", "CollisionType, VisualType, ComponentType, EntityType, ClassType, Metadata")], observe=["Into<i64>/From<i64> of the public enums"])

p("C31", "Only saving writes files, and only the named one",
  "Processing a map, diffing maps, reading WADs and palettes and generating text never create, modify or delete any file, and read no file other than those named by the caller. Saving writes exactly the generated FGD text to exactly the given path and reports failure to write it.",
  ["inputs", "histories"], "every call with every argument",
  "The tests never touch the file system; absence of an effect cannot be sampled.",
  ["src/lib.rs", "src/wad/mod.rs", "src/wad/palette.rs", "src/game_data/forge/game_data.rs"],
  [("file system calls", "run, run_diff, read_textures, read_palette, GameData::save")], observe=["file system"])

p("C32", "Diffing any two maps ends normally",
  "Comparing any two readable map files, including empty and identical ones, ends without a panic: every table access and subtraction in the comparison is in range for every pair of lengths.",
  ["inputs"], "every pair of file lengths, including zero",
  NOTEST + "the boundary cases depend on both lengths.",
  ["src/map/quake/tokenizer.rs", "src/lib.rs"],
  [("LCS table and traceback", "tokenizer::diff_tokens")], observe=["quarchitect::run_diff"])

p("C33", "Convex shapes hold each brush's own corner points",
  "A convex collision child has exactly one shape per brush of the entity, in order, positioned at that brush's centre, whose points are exactly the distinct vertex positions of that brush's faces. Concave collision is built from all faces, regardless of textures and blacklists.",
  ["inputs"], "every entity geometry",
  NOTEST + "a dropped brush or a leaked filter shows only for particular brushes.",
  ["src/scene_tree/mod.rs", "src/scene_tree/types/collision_geometry.rs"],
  [("convex points", "get_entity_convex_collision"), ("concave geometry", "get_entity_concave_collision")], observe=["quarchitect::scene_tree::CollisionGeometry"])

p("C40", "A face lists each corner once, in order around its centre",
  "The vertices of a face are pairwise at different positions, one for every position at which corners were found, and they are listed by decreasing angle around the face's centre (the mean of those positions), measured in the face's plane from its first edge towards its normal crossed with that edge. So the triangle fan over them is the face's polygon, wound the same way for every face.",
  ["inputs"], "every brush and every order of its faces", NOTEST + "the order in which corners are found depends on the order of all the brush's faces.",
  ["src/geo_builder/brush_plane/mod.rs", "src/geo_builder/brush_plane/vertices.rs"],
  [("duplicate removal and winding order", "brush_plane::build")], observe=["quarchitect::scene_tree::MeshSurface.vertices"])
p("C41", "Texture coordinates follow the projection of the face's format",
  "A Valve face's texture coordinate is the vertex position projected on the face's own U and V axes, divided by the texture's size and the face's scale, plus the axes' offsets divided by the texture's size. A Quake face's is the position projected on the two world axes belonging to the largest component of its normal (x and -y for z; x and -z for y; y and -z for x; the first of these on ties), turned by the face's rotation in degrees, divided by texture size and scale, plus the offsets divided by the texture's size.",
  ["inputs"], "every face and vertex", NOTEST + "a wrong axis, sign or divisor shows only for particular orientations, rotations and scales.",
  ["src/geo_builder/brush_plane/uvs.rs"], [("projection arithmetic", "uvs::standard_uv, uvs::valve_uv")], observe=["quarchitect::scene_tree::MeshSurface.uvs"])
p("C42", "Tangents follow the texture axes of the face",
  "A Valve face's tangent is its U axis, with the sign opposite to that of (normal x U axis) . V axis. A Quake face's is the world axis its U coordinate is projected on, turned around the face's normal by minus its rotation times the sign s of the projecting normal component (negated for y), and its handedness is s times the sign of the vertical scale. All vertices of a face have the same tangent.",
  ["inputs"], "every face", NOTEST + "a wrong sign or axis shows only for particular orientations and scales.",
  ["src/geo_builder/brush_plane/tangents.rs"], [("tangent arithmetic", "tangents::*")], observe=["quarchitect::scene_tree::MeshSurface.tangents"])

# ---- stated, not claimed (relational over runtime values) ----
p("C43", "The token diff is a minimal edit between the two maps",
  "The tokens reported as added and removed are exactly those outside a longest common subsequence of the two token sequences.",
  ["inputs"], "every pair of token sequences", NOTEST + "it relates two whole sequences through an optimality condition.",
  ["src/map/quake/tokenizer.rs"], [("LCS table and traceback", "tokenizer::diff_tokens")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
