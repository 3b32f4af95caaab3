From 4e39ba15b50b40b79a9753d19993d7be4db00514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 01/19] fix: reject malformed property and face lines instead
 of panicking

---
 src/lib.rs                         |  6 ++--
 src/map/quake/tokenizer.rs         | 23 ++++++++------
 src/map/quake/types/brush_plane.rs | 48 +++++++++++++++++++-----------
 3 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea01d4b..ea5a81d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -58,7 +58,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
     // Parse map into tokens and entities
     println!("Parse map");
     let file_string = fs::read_to_string(config.map_file)?;
-    let tokens = map::quake::tokenizer::run(file_string);
+    let tokens = map::quake::tokenizer::run(file_string)?;
     let (_token_paths, entities) = map::quake::parser::run(&tokens)?;
 
     // Build geometry
@@ -89,8 +89,8 @@ pub fn run_diff(file_a: &str, file_b: &str) -> Result<(), Box<dyn Error>> {
     let file_a_string = fs::read_to_string(file_a)?;
     let file_b_string = fs::read_to_string(file_b)?;
 
-    let file_a_tokens = map::quake::tokenizer::run(file_a_string);
-    let file_b_tokens = map::quake::tokenizer::run(file_b_string);
+    let file_a_tokens = map::quake::tokenizer::run(file_a_string)?;
+    let file_b_tokens = map::quake::tokenizer::run(file_b_string)?;
 
     let diff = map::quake::tokenizer::diff_tokens(&file_a_tokens, &file_b_tokens);
     println!("{:#?}", diff);
diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 578c5b5..b2bda9b 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -1,3 +1,5 @@
+use crate::QuarchitectError;
+
 #[derive(Eq, PartialEq, Hash, Debug)]
 pub enum Token {
     Comment(String),
@@ -40,25 +42,28 @@ impl Property {
     }
 }
 
-pub fn run(file_string: String) -> Vec<Token> {
+pub fn run(file_string: String) -> Result<Vec<Token>, QuarchitectError> {
     println!("TODO-3: Rewrite with nom");
 
     file_string
         .lines()
         .map(|line| match line.chars().next() {
-            Some('/') => Token::comment(line),
+            Some('/') => Ok(Token::comment(line)),
             Some('"') => {
                 let mut comps = line.split('"');
                 comps.next();
-                let key = comps.next().unwrap();
+                let key = comps.next();
                 comps.next();
-                let value = comps.next().unwrap();
-                Token::property(key, value)
+                let value = comps.next();
+                match (key, value) {
+                    (Some(key), Some(value)) => Ok(Token::property(key, value)),
+                    _ => Err(QuarchitectError("Malformed property")),
+                }
             }
-            Some('{') => Token::OpenBrace,
-            Some('}') => Token::CloseBrace,
-            Some('(') => Token::brush_plane(&line),
-            _ => Token::unrecognized(&line)
+            Some('{') => Ok(Token::OpenBrace),
+            Some('}') => Ok(Token::CloseBrace),
+            Some('(') => Ok(Token::brush_plane(&line)),
+            _ => Ok(Token::unrecognized(&line)),
         })
         .collect()
 }
diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index ea3cf0d..9be79c3 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -79,6 +79,18 @@ impl ExtraData {
     }
 }
 
+fn next<'a>(comps: &mut impl Iterator<Item = &'a str>) -> Result<&'a str, QuarchitectError> {
+    comps
+        .next()
+        .ok_or(QuarchitectError("Brush plane ends prematurely"))
+}
+
+fn parse_next<'a>(comps: &mut impl Iterator<Item = &'a str>) -> Result<f32, QuarchitectError> {
+    next(comps)?
+        .parse()
+        .map_err(|_| QuarchitectError("Failed to parse brush plane number"))
+}
+
 // Brush Plane
 #[derive(PartialEq, Debug)]
 pub struct BrushPlane {
@@ -102,9 +114,9 @@ impl BrushPlane {
 
         for i in 0..3 {
             comps.next();
-            let x: f32 = comps.next().unwrap().parse().unwrap();
-            let y: f32 = comps.next().unwrap().parse().unwrap();
-            let z: f32 = comps.next().unwrap().parse().unwrap();
+            let x: f32 = parse_next(&mut comps)?;
+            let y: f32 = parse_next(&mut comps)?;
+            let z: f32 = parse_next(&mut comps)?;
             comps.next();
 
             let v = match i {
@@ -119,26 +131,26 @@ impl BrushPlane {
             v.set_z(z);
         }
 
-        let texture = comps.next().unwrap().to_lowercase();
+        let texture = next(&mut comps)?.to_lowercase();
 
-        let uv = match comps.next().unwrap().parse::<f32>() {
+        let uv = match next(&mut comps)?.parse::<f32>() {
             Ok(u) => {
-                let v: f32 = comps.next().unwrap().parse().unwrap();
+                let v: f32 = parse_next(&mut comps)?;
                 UV::standard(u, v)
             }
             Err(_err) => {
-                let ux: f32 = comps.next().unwrap().parse().unwrap();
-                let uy: f32 = comps.next().unwrap().parse().unwrap();
-                let uz: f32 = comps.next().unwrap().parse().unwrap();
-                let uo: f32 = comps.next().unwrap().parse().unwrap();
+                let ux: f32 = parse_next(&mut comps)?;
+                let uy: f32 = parse_next(&mut comps)?;
+                let uz: f32 = parse_next(&mut comps)?;
+                let uo: f32 = parse_next(&mut comps)?;
 
                 comps.next();
                 comps.next();
 
-                let vx: f32 = comps.next().unwrap().parse().unwrap();
-                let vy: f32 = comps.next().unwrap().parse().unwrap();
-                let vz: f32 = comps.next().unwrap().parse().unwrap();
-                let vo: f32 = comps.next().unwrap().parse().unwrap();
+                let vx: f32 = parse_next(&mut comps)?;
+                let vy: f32 = parse_next(&mut comps)?;
+                let vz: f32 = parse_next(&mut comps)?;
+                let vo: f32 = parse_next(&mut comps)?;
                 
                 comps.next();
 
@@ -146,16 +158,16 @@ impl BrushPlane {
             }
         };
 
-        let rotation: f32 = comps.next().unwrap().parse().unwrap();
+        let rotation: f32 = parse_next(&mut comps)?;
 
-        let x: f32 = comps.next().unwrap().parse().unwrap();
-        let y: f32 = comps.next().unwrap().parse().unwrap();
+        let x: f32 = parse_next(&mut comps)?;
+        let y: f32 = parse_next(&mut comps)?;
         let scale = Vector2::new(x, y);
 
         let extra_comps: Vec<&str> = comps.collect();
         let extra = match extra_comps.len() {
             0 => ExtraData::None,
-            1 => ExtraData::Hexen2(extra_comps.first().unwrap().parse().unwrap()),
+            1 => ExtraData::Hexen2(parse_next(&mut extra_comps.into_iter())?),
             3 => ExtraData::quake_2(extra_comps)?,
             6 => ExtraData::daikatana(extra_comps)?,
             _ => return Err(QuarchitectError("Unrecognized extra data")),
-- 
2.43.0


From fedfcb48375b9912992adb6f95b115faffbef3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 02/19] fix: reject a map that ends inside an open block

---
 src/map/quake/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 629ef92..e8c8356 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -191,5 +191,8 @@ pub fn run(
         }
     }
 
-    Ok((token_paths, entities))
+    match scope {
+        ParseScope::File => Ok((token_paths, entities)),
+        _ => Err(QuarchitectError("Unclosed brace at end of file")),
+    }
 }
-- 
2.43.0


From 6100d480cb37094d9a584ca1c38a8a26894e4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 03/19] fix: reject a map without exactly one worldspawn
 instead of panicking

---
 src/layer_filter/mod.rs | 21 ++++++++++++---------
 src/lib.rs              |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 4562126..678b8ce 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,13 +1,17 @@
 use crate::geo_builder;
 use crate::map;
+use crate::QuarchitectError;
 use std::collections::HashMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-) -> (
-    Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    HashMap<String, Vec<geo_builder::brush::Geometry>>,
-) {
+) -> Result<
+    (
+        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
+        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+    ),
+    QuarchitectError,
+> {
     let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
@@ -21,10 +25,9 @@ pub fn run(
         });
 
     {
-        assert!(
-            worldspawn_entity_data.len() == 1,
-            "Worldspawn element not a singleton"
-        );
+        if worldspawn_entity_data.len() != 1 {
+            return Err(QuarchitectError("Worldspawn element not a singleton"));
+        }
 
         let (worldspawn_entity, mut worldspawn_geometry): (
             map::quake::Entity,
@@ -60,7 +63,7 @@ pub fn run(
         .chain(entity_data.into_iter())
         .collect();
 
-    (entity_data, worldspawn_layers)
+    Ok((entity_data, worldspawn_layers))
 }
 
 fn brush_geometry_by_layer(layer: &str) -> impl FnMut(&geo_builder::brush::Geometry) -> bool + '_ {
diff --git a/src/lib.rs b/src/lib.rs
index ea5a81d..451f75d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data);
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data)?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
-- 
2.43.0


From dbaac711ff7cf46d2d5f483e4cb36611bc0b8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 04/19] fix: give flags properties the flags type

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c58d2bf..e2588e8 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -385,7 +385,7 @@ fn get_entity_properties(
                     None => *default,
                 };
 
-                Property::Choices(value)
+                Property::Flags(value)
             }
             crate::game_data::forge::PropertyData::TargetSource => Property::TargetSource,
             crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
-- 
2.43.0


From 03881250b4734fb14ec0bf05a5a36f14c6c6f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 05/19] fix: emit worldspawn layer nodes in a fixed order

---
 src/layer_filter/mod.rs | 7 +++----
 src/scene_tree/mod.rs   | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 678b8ce..0d63ff2 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,18 +1,17 @@
 use crate::geo_builder;
 use crate::map;
 use crate::QuarchitectError;
-use std::collections::HashMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
 ) -> Result<
     (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+        Vec<(String, Vec<geo_builder::brush::Geometry>)>,
     ),
     QuarchitectError,
 > {
-    let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
+    let mut worldspawn_layers: Vec<(String, Vec<geo_builder::brush::Geometry>)> = Vec::new();
 
     let (mut worldspawn_entity_data, entity_data): (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
@@ -44,7 +43,7 @@ pub fn run(
                 .into_iter()
                 .partition(brush_geometry_by_layer(layer_texture));
 
-            worldspawn_layers.insert(layer_texture.into(), layer_geometry);
+            worldspawn_layers.push((layer_texture.into(), layer_geometry));
             worldspawn_brush_geo = worldspawn_geometry;
         }
 
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index e2588e8..17e64ec 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -24,7 +24,7 @@ pub fn run(
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
-    worldspawn_layers: &HashMap<String, Vec<brush::Geometry>>,
+    worldspawn_layers: &[(String, Vec<brush::Geometry>)],
 ) -> Vec<SceneTreeNode> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
@@ -125,8 +125,8 @@ fn build_entity<'a>(
 
 fn build_worldspawn_layer<'a>(
     quarchitect_game_data: &'a crate::game_data::GameData,
-) -> impl Fn((&String, &Vec<brush::Geometry>)) -> Option<SceneTreeNode> + 'a {
-    move |(layer_texture, brush_geometry): (&String, &Vec<brush::Geometry>)| {
+) -> impl Fn(&(String, Vec<brush::Geometry>)) -> Option<SceneTreeNode> + 'a {
+    move |(layer_texture, brush_geometry): &(String, Vec<brush::Geometry>)| {
         let layer_data: Vec<&WorldspawnLayer> = quarchitect_game_data
             .worldspawn_layers
             .iter()
-- 
2.43.0


From 78269494c03a63dca1a108e65b65dc3ad676929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:48 +0000
Subject: [PATCH 06/19] fix: build entities without a classname instead of
 panicking

---
 src/scene_tree/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 17e64ec..6a2dcd6 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -112,7 +112,11 @@ fn build_entity<'a>(
         children.append(&mut child_entities);
 
         Some(SceneTreeNode::entity(
-            entity.properties.get("classname").unwrap().clone(),
+            entity
+                .properties
+                .get("classname")
+                .cloned()
+                .unwrap_or_default(),
             origin + entity_geometry.center,
             get_entity_type(quarchitect_game_data, &entity),
             get_entity_component_class(quarchitect_game_data, &entity),
@@ -475,7 +479,7 @@ fn get_entity_visual_geometry(
                 }
             }
         }
-        None => panic!("No classname in entity"),
+        None => return VisualGeometry::None,
     };
 
     get_brush_entity_visual_geometry(entity, entity_geometry, brush_data, texture_blacklist)
@@ -620,7 +624,7 @@ fn get_entity_collision_geometry(
                 }
             }
         }
-        None => panic!("No classname in entity"),
+        None => return CollisionGeometry::None,
     };
 
     match brush_data.collision_type {
-- 
2.43.0


From ed0985649a9c688fe02507e20a0b1a83d63d93ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:49 +0000
Subject: [PATCH 07/19] fix: skip unparsable editor ids instead of panicking

---
 src/scene_tree/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 6a2dcd6..227af48 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -295,17 +295,14 @@ fn get_entity_properties(
     let mut properties: HashMap<String, Property> = HashMap::new();
 
     let mut add_internal_property_integer = |property_name: &str| {
-        if entity.properties.contains_key(property_name) {
+        if let Some(Ok(value)) = entity
+            .properties
+            .get(property_name)
+            .map(|value| value.parse::<i32>())
+        {
             properties.insert(
                 property_name.into(),
-                crate::game_data::Property::Integer(
-                    entity
-                        .properties
-                        .get(property_name)
-                        .unwrap()
-                        .parse::<i32>()
-                        .unwrap(),
-                ),
+                crate::game_data::Property::Integer(value),
             );
         }
     };
-- 
2.43.0


From 12a11fac86f0205dbf3d5bfadd13d19f78cff471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:50 +0000
Subject: [PATCH 08/19] fix: stop at cyclic entity groups instead of recursing
 forever

---
 src/scene_tree/mod.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 227af48..e72c557 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -44,7 +44,8 @@ pub fn run(
             forge_game_data,
             texture_blacklist,
             entity_data,
-            Vector3::new(0.0, 0.0, 0.0)
+            Vector3::new(0.0, 0.0, 0.0),
+            Vec::new(),
         ))
         .chain(
             worldspawn_layers
@@ -61,7 +62,8 @@ pub fn run(
                     forge_game_data,
                     texture_blacklist,
                     entity_data,
-                    Vector3::new(0.0, 0.0, 0.0)
+                    Vector3::new(0.0, 0.0, 0.0),
+                    Vec::new(),
                 )),
         )
         .collect()
@@ -72,7 +74,8 @@ fn build_entity<'a>(
     forge_game_data: &'a crate::game_data::forge::GameData,
     texture_blacklist: &'a TextureBlacklist,
     entity_data: &'a [(Entity, entity::Geometry)],
-    origin: Vector3
+    origin: Vector3,
+    ancestor_ids: Vec<&'a String>,
 ) -> impl Fn(&'a (Entity, entity::Geometry)) -> Option<SceneTreeNode> + 'a {
     move |(entity, entity_geometry): &(Entity, entity::Geometry)| {
         let mut children: Vec<SceneTreeNode> = Vec::new();
@@ -92,7 +95,14 @@ fn build_entity<'a>(
             c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),
         }
 
-        let tb_id = entity.properties.get("_tb_id");
+        // An entity inside a group with its own id can't own that group's members
+        let tb_id = entity
+            .properties
+            .get("_tb_id")
+            .filter(|tb_id| !ancestor_ids.contains(tb_id));
+        let mut child_ancestor_ids = ancestor_ids.clone();
+        child_ancestor_ids.extend(tb_id);
+
         let mut child_entities: Vec<SceneTreeNode> = entity_data
             .iter()
             .skip(1)
@@ -105,7 +115,8 @@ fn build_entity<'a>(
                 forge_game_data,
                 texture_blacklist,
                 entity_data,
-                -entity_geometry.center
+                -entity_geometry.center,
+                child_ancestor_ids,
             ))
             .collect();
 
-- 
2.43.0


From 0c124fdf93fb6fe433d4793a6c2f31ae72079069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:07 +0000
Subject: [PATCH 09/19] fix: planes without a normal have no intersections

---
 src/geo_builder/brush_plane/vertices.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 50a85eb..53f1332 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -14,7 +14,8 @@ pub fn intersect_brush_planes(
 
     let denom = n0.cross(n1).dot(n2);
 
-    if denom < CMP_EPSILON {
+    // Degenerate planes have NaN normals, and don't intersect anything
+    if denom.is_nan() || denom < CMP_EPSILON {
         return None;
     }
 
-- 
2.43.0


From 409c570646e101464596906f6ba9ba6b34ccff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:07 +0000
Subject: [PATCH 10/19] fix: wind vertices by a total order

---
 src/geo_builder/brush_plane/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 70cf2ff..e05afe1 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -1,5 +1,3 @@
-use std::cmp::Ordering;
-
 mod geometry;
 mod normals;
 mod tangents;
@@ -89,7 +87,7 @@ pub fn build(
         let lhs_angle = lhs_pv.atan2(lhs_pu);
         let rhs_angle = rhs_pv.atan2(rhs_pu);
 
-        rhs_angle.partial_cmp(&lhs_angle).unwrap_or(Ordering::Equal)
+        rhs_angle.total_cmp(&lhs_angle)
     });
 
     let mut world_vertices = wound_vertices;
-- 
2.43.0


From 32cda21e6d603044f5edba569eb62577f40a1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:07 +0000
Subject: [PATCH 11/19] fix: project faces without a usable normal instead of
 panicking

---
 src/geo_builder/brush_plane/tangents.rs | 25 ++++++++++---------------
 src/geo_builder/brush_plane/uvs.rs      |  5 +----
 2 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/geo_builder/brush_plane/tangents.rs b/src/geo_builder/brush_plane/tangents.rs
index b9cb9f4..cf87f8a 100644
--- a/src/geo_builder/brush_plane/tangents.rs
+++ b/src/geo_builder/brush_plane/tangents.rs
@@ -22,23 +22,18 @@ fn standard_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
     let dr_abs = dr.abs();
     let df_abs = df.abs();
 
-    let mut tangent: Option<(Vector3, f32)> = None;
-
-    if du_abs >= dr_abs && du_abs >= df_abs {
-        tangent = Some((forward_vector, du.signum()));
+    let (v, s) = if du_abs >= dr_abs && du_abs >= df_abs {
+        (forward_vector, du.signum())
     } else if dr_abs >= du_abs && dr_abs >= df_abs {
-        tangent = Some((forward_vector, -dr.signum()));
-    } else if df_abs >= du_abs && df_abs >= dr_abs {
-        tangent = Some((right_vector, df.signum()));
-    }
+        (forward_vector, -dr.signum())
+    } else {
+        (right_vector, df.signum())
+    };
 
-    match tangent {
-        Some((v, s)) => (
-            crate::Quat::from_axis_angle(brush_plane.normal(), -brush_plane.rotation.to_radians() * s) * v,
-            s * brush_plane.scale.y().signum(),
-        ),
-        None => panic!("Failed to generate tangent"),
-    }
+    (
+        crate::Quat::from_axis_angle(brush_plane.normal(), -brush_plane.rotation.to_radians() * s) * v,
+        s * brush_plane.scale.y().signum(),
+    )
 }
 
 fn valve_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
diff --git a/src/geo_builder/brush_plane/uvs.rs b/src/geo_builder/brush_plane/uvs.rs
index c807541..6ede466 100644
--- a/src/geo_builder/brush_plane/uvs.rs
+++ b/src/geo_builder/brush_plane/uvs.rs
@@ -27,13 +27,10 @@ fn standard_uv(vertex: Vector3, brush_plane: &BrushPlane, texture: &Texture) ->
     } else if dr >= du && dr >= df {
         x = vertex.x();
         y = -vertex.z();
-    } else if df >= du && df >= dr {
+    } else {
         x = vertex.y();
         y = -vertex.z();
     }
-    else {
-        panic!("Zero-length normal");
-    }
 
 
     let rot = crate::Mat2::from_angle(brush_plane.rotation.to_radians());
-- 
2.43.0


From 665f7b59312a057fdbee1125457ed8f4b4871614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 12/19] fix: write choices whose default is out of range
 instead of panicking

---
 src/game_data/forge/property.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/game_data/forge/property.rs b/src/game_data/forge/property.rs
index ec488e9..7ff74fb 100644
--- a/src/game_data/forge/property.rs
+++ b/src/game_data/forge/property.rs
@@ -96,7 +96,10 @@ impl ToString for Property {
                     "{}(choices) : \"{}\" : \"{}\" =\n\t[\n{}\t]",
                     self.name,
                     self.short_description,
-                    choices[*default as usize].value.to_string(),
+                    choices
+                        .get(*default as usize)
+                        .map(|choice| choice.value.to_string())
+                        .unwrap_or_else(|| default.to_string()),
                     choices_string
                 )
             }
-- 
2.43.0


From 0d786b588b68a725dae9e3d4896152b026b8f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 13/19] fix: write the sign bit flag and flag lists longer than
 31

---
 src/game_data/forge/property.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/game_data/forge/property.rs b/src/game_data/forge/property.rs
index 7ff74fb..b9b103c 100644
--- a/src/game_data/forge/property.rs
+++ b/src/game_data/forge/property.rs
@@ -109,12 +109,13 @@ impl ToString for Property {
                         .iter()
                         .enumerate()
                         .fold(String::new(), |acc, (i, next)| {
-                            let bit = 2_i32.pow(i as u32);
+                            // Flags past the 32 bits of the value have no bit of their own
+                            let bit = 1_u32.checked_shl(i as u32).unwrap_or(0);
                             acc + &format!(
                                 "\t\t{} : \"{}\" : {}\n",
                                 bit,
                                 next,
-                                if *default & bit > 0 { 1 } else { 0 }
+                                if *default as u32 & bit != 0 { 1 } else { 0 }
                             )
                         });
                 format!("{}(flags) =\n\t[\n{}\t]", self.name, flags_string)
-- 
2.43.0


From 7a5aa7035a8e18c999535f4f5e7ca6a93ac5a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:10 +0000
Subject: [PATCH 14/19] fix: reject unknown WAD magic instead of panicking

---
 src/wad/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ca219ae..9fe77b3 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -105,7 +105,7 @@ pub fn read_textures(
     let wad_type = match header.magic {
         ['W', 'A', 'D', '2'] => WadType::WAD2,
         ['W', 'A', 'D', '3'] => WadType::WAD3,
-        _ => panic!("Unexpected WAD magic: {:?}", header.magic),
+        _ => return Err(format!("Unexpected WAD magic: {:?}", header.magic)),
     };
 
     let now = Instant::now();
-- 
2.43.0


From 7389d8a676149ce24f04468761b69ad25dc107a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:10 +0000
Subject: [PATCH 15/19] fix: compute WAD offsets and sizes without overflow

---
 src/wad/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 9fe77b3..505d324 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -151,9 +151,9 @@ fn read_directory(
 ) -> Result<Vec<Entry>, String> {
     let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
         .map(|i| {
-            let offset = header.dir_offset;
-            let offset = offset + i * ENTRY_BYTES as u32;
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset as u64)) {
+            let offset = header.dir_offset as u64;
+            let offset = offset + i as u64 * ENTRY_BYTES as u64;
+            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
                 return Err(format!("Error seeking to directory: {:?}", err));
             }
 
@@ -262,12 +262,15 @@ fn read_mip_data(
             };
 
             if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                (entry.offset + miptex.offset1) as u64,
+                entry.offset as u64 + miptex.offset1 as u64,
             )) {
                 return Err(format!("Error seeking to miptex: {:?}", err));
             }
 
-            let size0 = (miptex.width * miptex.height) as usize;
+            let size0 = match miptex.width.checked_mul(miptex.height) {
+                Some(size0) => size0 as usize,
+                None => return Err(format!("Texture too large: {:?}", miptex)),
+            };
             let size1 = size0 / 4;
             let size2 = size1 / 4;
             let size3 = size2 / 4;
@@ -337,7 +340,7 @@ fn read_mip_data(
                 WadType::WAD2 => palette = None,
                 WadType::WAD3 => {
                     if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                        (entry.offset + miptex.offset8 + (size3 as u32) + 2) as u64,
+                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                     )) {
                         return Err(format!("Error seeking to texture palette: {:?}", err));
                     }
-- 
2.43.0


From 401b3597d50b1ffd456847f0d1c88f75a095f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:10 +0000
Subject: [PATCH 16/19] fix: do not allocate for WAD entries that are not there

---
 src/wad/mod.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 505d324..ed25b65 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -149,7 +149,8 @@ fn read_directory(
     header: &header::Header,
     whitelist: &Option<Vec<String>>,
 ) -> Result<Vec<Entry>, String> {
-    let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
+    // Stops at the first error, without allocating for all entries the header claims
+    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
         .map(|i| {
             let offset = header.dir_offset as u64;
             let offset = offset + i as u64 * ENTRY_BYTES as u64;
@@ -183,22 +184,7 @@ fn read_directory(
         })
         .collect();
 
-    if let Some(err) = entries.iter().find_map(|res| match res {
-        Err(err) => Some(err),
-        _ => None,
-    }) {
-        return Err(err.clone());
-    }
-
-    let entries = entries
-        .into_iter()
-        .flat_map(|entry| match entry {
-            Ok(Some(entry)) => Some(entry),
-            _ => None,
-        })
-        .collect();
-
-    Ok(entries)
+    Ok(entries?.into_iter().flatten().collect())
 }
 
 fn read_mip_textures(wad_file: &mut File, directory: &[Entry]) -> Result<Vec<MipTexture>, String> {
-- 
2.43.0


From ac2379c31769a98b19f6e6f1fce9de9b3bee02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:10 +0000
Subject: [PATCH 17/19] fix: slice each mip level out of its own block

---
 src/wad/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ed25b65..820afd0 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -282,7 +282,7 @@ fn read_mip_data(
             };
 
             let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..size1];
+                let mip1_buf = &mipdata_buf[size0..size0 + size1];
                 let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
@@ -293,7 +293,7 @@ fn read_mip_data(
             };
 
             let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..size2];
+                let mip2_buf = &mipdata_buf[size0 + size1..size0 + size1 + size2];
                 let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
@@ -304,7 +304,7 @@ fn read_mip_data(
             };
 
             let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size3];
+                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size0 + size1 + size2 + size3];
                 let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-- 
2.43.0


From 98bf4164e29cfcae8e51f80279a4d293d26045fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 18/19] fix: diff maps of any length

---
 src/map/quake/tokenizer.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index b2bda9b..5fbd4f5 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -90,12 +90,9 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         v.resize(size_y + 1, 0);
     }
 
-    for index_x in 0..size_x {
-        for index_y in 0..size_y {
-            if index_x == 0 || index_y == 0 {
-                l[index_x][index_y] = 0;
-            }
-            else if tokens_a[index_x-1] == tokens_b[index_y-1] {
+    for index_x in 1..=size_x {
+        for index_y in 1..=size_y {
+            if tokens_a[index_x-1] == tokens_b[index_y-1] {
                 l[index_x][index_y] = l[index_x-1][index_y-1] + 1;
             }
             else {
@@ -104,19 +101,14 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let mut index = l[size_x-1][size_y-1];
-    let mut lcs: Vec<Option<&Token>> = Vec::new();
-    lcs.resize(index, None);
-
-
-    let mut i = size_x - 1;
-    let mut j = size_y - 1;
+    let mut lcs: Vec<&Token> = Vec::new();
+    let mut i = size_x;
+    let mut j = size_y;
     while i > 0 && j > 0 {
         if tokens_a[i-1] == tokens_b[j-1] {
-            lcs[index-1] = Some(&tokens_a[i-1]);
+            lcs.push(&tokens_a[i-1]);
             i -= 1;
             j -= 1;
-            index -= 1;
         }
         else if l[i-1][j] > l[i][j-1] {
             i -= 1;
@@ -126,10 +118,6 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let lcs: Vec<&Token> = lcs.iter().map(|token| {
-        token.unwrap()
-    }).collect();
-
     let mut removed: Vec<&Token> = Vec::new();
     for token in tokens_a {
         if lcs.iter().find(|comp| **comp == token).is_none() {
-- 
2.43.0


From 458eacbe27bbe8e0096744c1f5374de2a80a9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 19/19] fix: merge duplicate vertices only into vertices with
 the same attributes

---
 src/scene_tree/mod.rs               | 44 +++++++++++++++--------------
 src/scene_tree/predicates/vertex.rs | 24 ++++++----------
 2 files changed, 31 insertions(+), 37 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index e72c557..b1336a5 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -588,7 +588,7 @@ fn build_brush_entity_texture_surface<'a>(
             entity_geometry,
             Some(&predicates::brush::not_blacklisted(&texture_blacklist)),
             Some(&predicates::plane::has_texture(&texture)),
-            Some(&predicates::vertex::unique),
+            Some(&predicates::vertex::same),
         );
 
         if vertices.is_empty() {
@@ -688,7 +688,7 @@ fn get_entity_concave_collision(entity_geometry: &entity::Geometry) -> Collision
         entity_geometry,
         None,
         None,
-        Some(&predicates::vertex::unique_position),
+        Some(&predicates::vertex::same_position),
     );
     let collision_vertices: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();
 
@@ -709,7 +709,7 @@ fn gather_entity_geometry<'a>(
     entity_geometry: &'a entity::Geometry,
     brush_predicate: Option<&dyn Fn(&&crate::geo_builder::brush::Geometry) -> bool>,
     plane_predicate: Option<&dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool>,
-    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> bool>,
+    same_vertex: Option<&dyn Fn(&Vertex, &Vertex) -> bool>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let brush_predicate = match brush_predicate {
         Some(brush_predicate) => brush_predicate,
@@ -721,7 +721,7 @@ fn gather_entity_geometry<'a>(
         .iter()
         .filter(&brush_predicate)
         .map(|brush_geometry| {
-            gather_brush_geometry(brush_geometry, plane_predicate, vertex_predicate)
+            gather_brush_geometry(brush_geometry, plane_predicate, same_vertex)
         })
         .collect();
 
@@ -751,7 +751,7 @@ fn gather_entity_geometry<'a>(
 fn gather_brush_geometry<'a>(
     brush_geometry: &'a brush::Geometry,
     plane_predicate: Option<&dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool>,
-    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> bool>,
+    same_vertex: Option<&dyn Fn(&Vertex, &Vertex) -> bool>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let plane_geometry = &brush_geometry.plane_geometry;
 
@@ -786,8 +786,8 @@ fn gather_brush_geometry<'a>(
         .flat_map(concat_indices)
         .collect();
 
-    match vertex_predicate {
-        Some(vertex_predicate) => filter_vertices(&vertices, indices, vertex_predicate),
+    match same_vertex {
+        Some(same_vertex) => filter_vertices(&vertices, indices, same_vertex),
         None => (vertices, indices),
     }
 }
@@ -795,26 +795,28 @@ fn gather_brush_geometry<'a>(
 fn filter_vertices<'a>(
     vertices: &[&'a Vertex],
     indices: Vec<usize>,
-    predicate: &dyn Fn(usize, &Vertex, &[&Vertex]) -> bool,
+    same_vertex: &dyn Fn(&Vertex, &Vertex) -> bool,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let mut indices = indices;
     let mut new_indices: Vec<usize> = Vec::new();
     let mut new_vertices: Vec<&Vertex> = Vec::new();
 
     for (i, vertex) in vertices.iter().enumerate() {
-        if predicate(i, vertex, &vertices) {
-            new_indices.push(i);
-            new_vertices.push(vertex);
-        } else {
-            let position = vertices
-                .iter()
-                .position(|comp| comp.vertex == vertex.vertex)
-                .unwrap();
-
-            indices = indices
-                .iter()
-                .map(|index| if *index == i { position } else { *index })
-                .collect();
+        // Merge into the first vertex that this one is a duplicate of
+        match vertices[..i]
+            .iter()
+            .position(|comp| same_vertex(comp, vertex))
+        {
+            None => {
+                new_indices.push(i);
+                new_vertices.push(vertex);
+            }
+            Some(position) => {
+                indices = indices
+                    .iter()
+                    .map(|index| if *index == i { position } else { *index })
+                    .collect();
+            }
         }
     }
 
diff --git a/src/scene_tree/predicates/vertex.rs b/src/scene_tree/predicates/vertex.rs
index f3594fa..2c9baf9 100644
--- a/src/scene_tree/predicates/vertex.rs
+++ b/src/scene_tree/predicates/vertex.rs
@@ -1,21 +1,13 @@
 use crate::Vertex;
 
-pub fn unique(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
-    let position = vertices.iter().position(|comp| {
-        comp.vertex == vertex.vertex
-            && comp.normal == vertex.normal
-            && comp.tangent == vertex.tangent
-            && comp.uv == vertex.uv
-            && comp.color == vertex.color
-    });
-
-    position.is_none() || position.unwrap() >= i
+pub fn same(a: &Vertex, b: &Vertex) -> bool {
+    a.vertex == b.vertex
+        && a.normal == b.normal
+        && a.tangent == b.tangent
+        && a.uv == b.uv
+        && a.color == b.color
 }
 
-pub fn unique_position(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
-    let position = vertices
-        .iter()
-        .position(|comp| comp.vertex == vertex.vertex);
-
-    position.is_none() || position.unwrap() >= i
+pub fn same_position(a: &Vertex, b: &Vertex) -> bool {
+    a.vertex == b.vertex
 }
-- 
2.43.0

