// Helpers shared by the demonstrations. They use only the public interface of the crate, and write
// only inside the scratch directory named by DEMO_DIR.
#![allow(dead_code)]
pub use quarchitect::game_data as qd;
pub use quarchitect::game_data::forge as fd;
pub use quarchitect::scene_tree::{
    Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry,
};
pub use quarchitect::{
    run, run_diff, wad, Color, Config, Texture, TextureBlacklist, TextureInfo, Vector2, Vector3,
};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn dir() -> String {
    std::env::var("DEMO_DIR").expect("DEMO_DIR")
}

pub fn file(name: &str, bytes: &[u8]) -> String {
    let path = format!("{}/{}", dir(), name);
    std::fs::write(&path, bytes).unwrap();
    path
}

/// None: panicked.
pub fn calm<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ---- maps ------------------------------------------------------------------------------------

pub type P = (f32, f32, f32);

pub fn face(a: P, b: P, c: P, rest: &str) -> String {
    format!(
        "( {} {} {} ) ( {} {} {} ) ( {} {} {} ) {}\n",
        a.0, a.1, a.2, b.0, b.1, b.2, c.0, c.1, c.2, rest
    )
}

/// The six faces of an axis-aligned box, outward: +x -x +y -y +z -z.
pub fn box_faces(lo: P, hi: P, rest: [&str; 6]) -> String {
    let ((x0, y0, z0), (x1, y1, z1)) = (lo, hi);
    [
        face((x1, y0, z0), (x1, y0, z1), (x1, y1, z0), rest[0]),
        face((x0, y0, z0), (x0, y1, z0), (x0, y0, z1), rest[1]),
        face((x0, y1, z0), (x1, y1, z0), (x0, y1, z1), rest[2]),
        face((x0, y0, z0), (x0, y0, z1), (x1, y0, z0), rest[3]),
        face((x0, y0, z1), (x0, y1, z1), (x1, y0, z1), rest[4]),
        face((x0, y0, z0), (x1, y0, z0), (x0, y1, z0), rest[5]),
    ]
    .concat()
}

pub fn uv(texture: &str) -> String {
    format!("{} 0 0 0 1 1", texture)
}

pub fn brush(faces: &str) -> String {
    format!("{{\n{}}}\n", faces)
}

pub fn cube(lo: P, hi: P, texture: &str) -> String {
    let r = uv(texture);
    brush(&box_faces(lo, hi, [&r; 6]))
}

pub fn unit(x: f32, y: f32, z: f32, texture: &str) -> String {
    cube((x, y, z), (x + 16.0, y + 16.0, z + 16.0), texture)
}

pub fn ent(props: &[(&str, &str)], brushes: &str) -> String {
    let props: String = props
        .iter()
        .map(|(k, v)| format!("\"{}\" \"{}\"\n", k, v))
        .collect();
    format!("{{\n{}{}}}\n", props, brushes)
}

pub fn world(brushes: &str) -> String {
    ent(&[("classname", "worldspawn")], brushes)
}

pub struct Setup {
    pub sizes: Vec<(String, u32, u32)>,
    pub no_brush: Vec<String>,
    pub no_plane: Vec<String>,
    pub fgd: Vec<fd::Entity>,
    pub classes: Vec<qd::Entity>,
    pub layers: Vec<qd::WorldspawnLayer>,
}

pub fn class(name: &str, visual: qd::VisualType, collision: qd::CollisionType) -> qd::Entity {
    qd::Entity::brush(
        name.into(),
        qd::EntityType::class(name),
        qd::ComponentType::None,
        qd::PropertyApplicationType::Properties,
        qd::Properties::default(),
        visual,
        collision,
    )
}

pub fn setup() -> Setup {
    Setup {
        sizes: ["stone", "wood", "iron", "*water0", "*slime0"]
            .iter()
            .map(|t| (t.to_string(), 64, 64))
            .collect(),
        no_brush: vec![],
        no_plane: vec![],
        fgd: vec![],
        classes: vec![
            class("worldspawn", qd::VisualType::Mesh, qd::CollisionType::Convex),
            class("func_mesh", qd::VisualType::Mesh, qd::CollisionType::None),
            class("func_convex", qd::VisualType::None, qd::CollisionType::Convex),
            class("func_concave", qd::VisualType::None, qd::CollisionType::Concave),
            class("func_group", qd::VisualType::None, qd::CollisionType::None),
        ],
        layers: vec![],
    }
}

impl Setup {
    pub fn run(self, map: &str) -> Option<Result<Vec<SceneTreeNode>, String>> {
        let path = file("demo.map", map.as_bytes());
        let sizes: HashMap<String, Texture> = self
            .sizes
            .iter()
            .map(|(n, w, h)| (n.clone(), Texture::new(*w, *h)))
            .collect();
        calm(move || {
            run(Config::new(
                &path,
                TextureInfo(sizes),
                TextureBlacklist::new(self.no_brush, self.no_plane),
                fd::GameData::new("demo".into(), vec![], self.fgd),
                qd::GameData {
                    entities: self.classes,
                    worldspawn_layers: self.layers,
                },
            ))
            .map_err(|e| e.to_string())
        })
    }

    pub fn nodes(self, map: &str) -> Vec<SceneTreeNode> {
        self.run(map).expect("crashed").expect("rejected")
    }
}

pub fn actor(n: &SceneTreeNode) -> (&Actor, &Vec<SceneTreeNode>) {
    match &n.data {
        SceneTreeType::Actor(a, c) => (a, c),
        _ => panic!("not an actor"),
    }
}

pub fn surfaces(n: &SceneTreeNode) -> Vec<MeshSurface> {
    actor(n)
        .1
        .iter()
        .flat_map(|c| match &c.data {
            SceneTreeType::VisualGeometry(VisualGeometry::Mesh(m)) => m.surfaces.clone(),
            _ => vec![],
        })
        .collect()
}

pub fn surface(n: &SceneTreeNode, texture: &str) -> MeshSurface {
    surfaces(n)
        .into_iter()
        .find(|s| s.texture.as_deref() == Some(texture))
        .expect("no such surface")
}

pub fn collision(n: &SceneTreeNode) -> CollisionGeometry {
    actor(n)
        .1
        .iter()
        .find_map(|c| match &c.data {
            SceneTreeType::CollisionGeometry(g) => Some(g.clone()),
            _ => None,
        })
        .unwrap_or(CollisionGeometry::None)
}

pub fn names(nodes: &[SceneTreeNode]) -> Vec<String> {
    nodes.iter().map(|n| actor(n).0.name.clone()).collect()
}

pub fn xyz(v: Vector3) -> [f32; 3] {
    [v.x(), v.y(), v.z()]
}

// ---- WADs ------------------------------------------------------------------------------------

pub struct Lump {
    pub name: Vec<u8>,
    pub tex_name: Vec<u8>,
    pub kind: u8,
    pub width: u32,
    pub height: u32,
    /// The bytes of the four levels, one after the other.
    pub pixels: Vec<u8>,
    /// Offset of the smallest level relative to the texture.
    pub offset8: u32,
    pub tail: Vec<u8>,
}

pub fn level_sizes(w: u32, h: u32) -> [usize; 4] {
    let s = (w * h) as usize;
    [s, s / 4, s / 4 / 4, s / 4 / 4 / 4]
}

pub fn lump(name: &str, w: u32, h: u32, palette_byte: u8) -> Lump {
    let s = level_sizes(w, h);
    let mut pixels = vec![];
    for (l, n) in s.iter().enumerate() {
        pixels.extend((0..*n).map(|i| ((l * 50 + i) % 200) as u8));
    }
    let mut tail = vec![0, 1];
    tail.extend((0..768).map(|i| palette_byte.wrapping_add((i % 97) as u8)));
    Lump {
        name: name.as_bytes().to_vec(),
        tex_name: name.as_bytes().to_vec(),
        kind: b'C',
        width: w,
        height: h,
        pixels,
        offset8: 40 + (s[0] + s[1] + s[2]) as u32,
        tail,
    }
}

fn name16(name: &[u8]) -> Vec<u8> {
    let mut n = name.to_vec();
    n.resize(16, 0);
    n
}

/// The file: header, textures in the order `layout`, directory in the order of `lumps`.
pub fn wad_file(magic: &str, lumps: &[Lump], layout: &[usize]) -> Vec<u8> {
    let mut body: Vec<u8> = vec![];
    let mut at = vec![0u32; lumps.len()];
    for i in layout {
        let l = &lumps[*i];
        at[*i] = 12 + body.len() as u32;
        body.extend(name16(&l.tex_name));
        for v in [l.width, l.height, 40, 0, 0, l.offset8] {
            body.extend(v.to_le_bytes());
        }
        body.extend(&l.pixels);
        body.extend(&l.tail);
    }
    let mut out = magic.as_bytes().to_vec();
    out.extend((lumps.len() as u32).to_le_bytes());
    out.extend((12 + body.len() as u32).to_le_bytes());
    out.extend(body);
    for (i, l) in lumps.iter().enumerate() {
        out.extend(at[i].to_le_bytes());
        out.extend(7u32.to_le_bytes());
        out.extend(9u32.to_le_bytes());
        out.push(l.kind);
        out.push(0);
        out.extend([0, 0]);
        out.extend(name16(&l.name));
    }
    out
}
