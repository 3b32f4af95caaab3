"""Edits that keep the behaviour: every check has to stay quiet on each (see refactor.py)."""
REFS = []


def ref(id, *edits):
    REFS.append({'id': id, 'edits': list(edits)})


BP = 'src/map/quake/types/brush_plane.rs'
PARSER = 'src/map/quake/parser.rs'
TOK = 'src/map/quake/tokenizer.rs'
GEO = 'src/geo_builder/'
SCENE = 'src/scene_tree/mod.rs'
WAD = 'src/wad/mod.rs'
FORGE = 'src/game_data/forge/'
LF = 'src/layer_filter/mod.rs'
LIB = 'src/lib.rs'

# ---- tokenizer
ref('r01-tok-for', (TOK, '''    file_string
        .lines()
        .map(|line| match line.chars().next() {
            Some('/') => Ok(Token::comment(line)),
            Some('"') => {
                let mut comps = line.split('"');
                comps.next();
                let key = comps.next();
                comps.next();
                let value = comps.next();
                match (key, value) {
                    (Some(key), Some(value)) => Ok(Token::property(key, value)),
                    _ => Err(QuarchitectError("Malformed property")),
                }
            }
            Some('{') => Ok(Token::OpenBrace),
            Some('}') => Ok(Token::CloseBrace),
            Some('(') => Ok(Token::brush_plane(&line)),
            _ => Ok(Token::unrecognized(&line)),
        })
        .collect()
}''', '''    let mut tokens = Vec::new();
    for line in file_string.lines() {
        tokens.push(tokenize_line(line)?);
    }
    Ok(tokens)
}

fn tokenize_line(line: &str) -> Result<Token, QuarchitectError> {
    let token = match line.chars().next() {
        Some('/') => Token::comment(line),
        Some('"') => tokenize_property(line)?,
        Some('{') => Token::OpenBrace,
        Some('}') => Token::CloseBrace,
        Some('(') => Token::brush_plane(line),
        _ => Token::unrecognized(line),
    };
    Ok(token)
}

fn tokenize_property(line: &str) -> Result<Token, QuarchitectError> {
    let mut comps = line.split('"');
    comps.next();
    let key = comps.next().ok_or(QuarchitectError("Malformed property"))?;
    comps.next();
    let value = comps.next().ok_or(QuarchitectError("Malformed property"))?;
    Ok(Token::property(key, value))
}'''))
ref('r02-tok-startswith', (TOK, '''        .map(|line| match line.chars().next() {
            Some('/') => Ok(Token::comment(line)),
            Some('"') => {
                let mut comps = line.split('"');
                comps.next();
                let key = comps.next();
                comps.next();
                let value = comps.next();
                match (key, value) {
                    (Some(key), Some(value)) => Ok(Token::property(key, value)),
                    _ => Err(QuarchitectError("Malformed property")),
                }
            }
            Some('{') => Ok(Token::OpenBrace),
            Some('}') => Ok(Token::CloseBrace),
            Some('(') => Ok(Token::brush_plane(&line)),
            _ => Ok(Token::unrecognized(&line)),
        })''', '''        .map(|line| {
            if line.starts_with('/') {
                return Ok(Token::comment(line));
            }
            if line.starts_with('{') {
                return Ok(Token::OpenBrace);
            }
            if line.starts_with('}') {
                return Ok(Token::CloseBrace);
            }
            if line.starts_with('(') {
                return Ok(Token::brush_plane(line));
            }
            if !line.starts_with('"') {
                return Ok(Token::unrecognized(line));
            }
            let mut comps = line.split('"').skip(1);
            match (comps.next(), comps.nth(1)) {
                (Some(key), Some(value)) => Ok(Token::property(key, value)),
                _ => Err(QuarchitectError("Malformed property")),
            }
        })'''))
ref('r03-diff-iter', (TOK, '''    let mut removed: Vec<&Token> = Vec::new();
    for token in tokens_a {
        if lcs.iter().find(|comp| **comp == token).is_none() {
            removed.push(token);
        }
    }

    let mut added: Vec<&Token> = Vec::new();
    for token in tokens_b {
        if lcs.iter().find(|comp| **comp == token).is_none() {
            added.push(token);
        }
    }
''', '''    let removed = missing_from(tokens_a, &lcs);
    let added = missing_from(tokens_b, &lcs);
'''), (TOK, '''pub fn diff_tokens<'a>(''', '''fn missing_from<'a>(tokens: &'a [Token], lcs: &[&Token]) -> Vec<&'a Token> {
    tokens
        .iter()
        .filter(|token| !lcs.iter().any(|comp| comp == token))
        .collect()
}

pub fn diff_tokens<'a>('''), (TOK, '''    let mut l: Vec<Vec<usize>> = Vec::new();
    l.resize(size_x + 1, Vec::<usize>::new());
    for v in &mut l {
        v.resize(size_y + 1, 0);
    }
''', '''    let mut l: Vec<Vec<usize>> = vec![vec![0; size_y + 1]; size_x + 1];
'''))
ref('r04-diff-matchcmp', (TOK, '''            if tokens_a[index_x-1] == tokens_b[index_y-1] {
                l[index_x][index_y] = l[index_x-1][index_y-1] + 1;
            }
            else {
                l[index_x][index_y] = std::cmp::max(l[index_x-1][index_y], l[index_x][index_y-1]);
            }''', '''            l[index_x][index_y] = if tokens_a[index_x - 1] == tokens_b[index_y - 1] {
                1 + l[index_x - 1][index_y - 1]
            } else {
                l[index_x - 1][index_y].max(l[index_x][index_y - 1])
            };'''), (TOK, '''        else if l[i-1][j] > l[i][j-1] {
            i -= 1;
        }
        else {
            j -= 1;
        }''', '''        else if l[i][j - 1] >= l[i - 1][j] {
            j -= 1;
        }
        else {
            i -= 1;
        }'''))
# ---- parser
ref('r05-parser-counter', (PARSER, '''    let mut scope = ParseScope::file();
''', '''    let mut scope = ParseScope::File;
'''), (PARSER, '''    for token in tokens.iter() {
        match token {
            Token::OpenBrace => match scope {''', '''    for token in tokens {
        match token {
            Token::Comment(_) | Token::Unrecognized(_) => continue,
            Token::OpenBrace => match scope {'''), (PARSER, '''            _ => (),
        }
    }

    match scope {
        ParseScope::File => Ok((token_paths, entities)),
        _ => Err(QuarchitectError("Unclosed brace at end of file")),
    }''', '''        }
    }

    if let ParseScope::File = scope {
        Ok((token_paths, entities))
    } else {
        Err(QuarchitectError("Unclosed brace at end of file"))
    }'''))
ref('r06-parser-helper', (PARSER, '''                    let k = &p.key;
                    let v = &p.value;
                    entities
                        .last_mut()
                        .unwrap()
                        .properties
                        .insert(k.clone(), v.clone());
                    token_paths.insert(
                        token,
                        TokenPath::property(entity_path.entity_idx, k.clone()),
                    );''', '''                    add_property(&mut entities, p);
                    let path = TokenPath::property(entity_path.entity_idx, p.key.clone());
                    token_paths.insert(token, path);'''), (PARSER, '''pub fn run(
    tokens''', '''fn add_property(entities: &mut Vec<Entity>, property: &super::tokenizer::Property) {
    let entity = entities.last_mut().expect("an open entity");
    entity
        .properties
        .insert(property.key.to_owned(), property.value.to_owned());
}

pub fn run(
    tokens'''), (PARSER, '''                    let brush_plane_id = brush_planes.len();
                    let brush_plane = BrushPlane::new(bp.as_str())?;
                    brush_planes.push(brush_plane);
''', '''                    let brush_plane_id = brush_planes.len();
                    brush_planes.push(BrushPlane::new(bp)?);
'''))
ref('r07-parser-pair', (PARSER, '''            Token::CloseBrace => match scope {
                ParseScope::File => return Err(QuarchitectError("Close brace in file scope")),
                ParseScope::Entity(_entity_id) => scope = ParseScope::file(),
                ParseScope::Brush(brush_path) => scope = ParseScope::entity(brush_path.entity_idx),
            },''', '''            Token::CloseBrace => {
                scope = match scope {
                    ParseScope::Brush(BrushPath { entity_idx, .. }) => ParseScope::entity(entity_idx),
                    ParseScope::Entity(_) => ParseScope::file(),
                    ParseScope::File => return Err(QuarchitectError("Close brace in file scope")),
                }
            }'''), (PARSER, '''                    let brushes = &mut entities.last_mut().unwrap().brushes;
                    let brush_idx = brushes.len();
                    scope = ParseScope::brush(entity_path.entity_idx, brush_idx);
                    brushes.push(Brush::new());
''', '''                    let entity = entities.last_mut().unwrap();
                    entity.brushes.push(Brush::new());
                    let brush_idx = entity.brushes.len() - 1;
                    scope = ParseScope::brush(entity_path.entity_idx, brush_idx);
'''))
# ---- face
ref('r08-face-vec', (BP, '''        let mut v0 = Vector3::new(0.0, 0.0, 0.0);
        let mut v1 = Vector3::new(0.0, 0.0, 0.0);
        let mut v2 = Vector3::new(0.0, 0.0, 0.0);

        for i in 0..3 {
            comps.next();
            let x: f32 = parse_next(&mut comps)?;
            let y: f32 = parse_next(&mut comps)?;
            let z: f32 = parse_next(&mut comps)?;
            comps.next();

            let v = match i {
                0 => &mut v0,
                1 => &mut v1,
                2 => &mut v2,
                _ => panic!(),
            };

            v.set_x(x);
            v.set_y(y);
            v.set_z(z);
        }
''', '''        let v0 = parse_point(&mut comps)?;
        let v1 = parse_point(&mut comps)?;
        let v2 = parse_point(&mut comps)?;
'''), (BP, '''// Brush Plane
''', '''// A parenthesized point
fn parse_point<'a>(comps: &mut impl Iterator<Item = &'a str>) -> Result<Vector3, QuarchitectError> {
    comps.next();
    let point = parse_vector(comps)?;
    comps.next();
    Ok(point)
}

fn parse_vector<'a>(comps: &mut impl Iterator<Item = &'a str>) -> Result<Vector3, QuarchitectError> {
    let x = parse_next(comps)?;
    let y = parse_next(comps)?;
    let z = parse_next(comps)?;
    Ok(Vector3::new(x, y, z))
}

// Brush Plane
'''), (BP, '''                let ux: f32 = parse_next(&mut comps)?;
                let uy: f32 = parse_next(&mut comps)?;
                let uz: f32 = parse_next(&mut comps)?;
                let uo''', '''                let u_axis = parse_vector(&mut comps)?;
                let uo'''), (BP, '''                let vx: f32 = parse_next(&mut comps)?;
                let vy: f32 = parse_next(&mut comps)?;
                let vz: f32 = parse_next(&mut comps)?;
                let vo''', '''                let v_axis = parse_vector(&mut comps)?;
                let vo'''), (BP, 'UV::valve(Vector3::new(ux, uy, uz), uo, Vector3::new(vx, vy, vz), vo)', 'UV::valve(u_axis, uo, v_axis, vo)'))
ref('r09-face-maperr', (BP, '''        let surface_contents: i32 = match comps[0].parse() {
            Ok(surface_contents) => surface_contents,
            Err(_err) => return Err(QuarchitectError("Failed to parse surface contents")),
        };

        let surface_flags: i32 = match comps[1].parse() {
            Ok(surface_flags) => surface_flags,
            Err(_err) => return Err(QuarchitectError("Failed to parse surface flags")),
        };

        let surface_value: f32 = match comps[2].parse() {
            Ok(surface_value) => surface_value,
            Err(_err) => return Err(QuarchitectError("Failed to parse surface value")),
        };
''', '''        let surface_contents = comps[0]
            .parse::<i32>()
            .map_err(|_| QuarchitectError("Failed to parse surface contents"))?;

        let surface_flags = comps[1]
            .parse::<i32>()
            .map_err(|_| QuarchitectError("Failed to parse surface flags"))?;

        let surface_value = comps[2]
            .parse::<f32>()
            .map_err(|_| QuarchitectError("Failed to parse surface value"))?;
'''), (BP, '''        let extra_comps: Vec<&str> = comps.collect();
        let extra = match extra_comps.len() {
            0 => ExtraData::None,
            1 => ExtraData::Hexen2(parse_next(&mut extra_comps.into_iter())?),
            3 => ExtraData::quake_2(extra_comps)?,
            6 => ExtraData::daikatana(extra_comps)?,
            _ => return Err(QuarchitectError("Unrecognized extra data")),
        };
''', '''        let extra_comps: Vec<&str> = comps.collect();
        let extra = match extra_comps.as_slice() {
            [] => ExtraData::None,
            [value] => ExtraData::Hexen2(
                value
                    .parse()
                    .map_err(|_| QuarchitectError("Failed to parse brush plane number"))?,
            ),
            [_, _, _] => ExtraData::quake_2(extra_comps)?,
            [_, _, _, _, _, _] => ExtraData::daikatana(extra_comps)?,
            _ => return Err(QuarchitectError("Unrecognized extra data")),
        };
'''))
ref('r10-face-surface', (BP, '''    pub fn quake_2(comps: Vec<&str>) -> Result<ExtraData, QuarchitectError> {
''', '''    pub fn quake_2(comps: Vec<&str>) -> Result<ExtraData, QuarchitectError> {
        Ok(ExtraData::Quake2(ExtraData::surface_data(&comps)?))
    }

    fn surface_data(comps: &[&str]) -> Result<SurfaceData, QuarchitectError> {
'''), (BP, '''        Ok(ExtraData::Quake2(SurfaceData::new(
            surface_contents,
            surface_flags,
            surface_value,
        )))''', '''        Ok(SurfaceData::new(
            surface_contents,
            surface_flags,
            surface_value,
        ))'''), (BP, '''        let quake_2_data = ExtraData::quake_2(comps.clone())?;
        if let ExtraData::Quake2(surface_data) = quake_2_data {
            let r: f32 = match comps[3].parse() {
                Ok(r) => r,
                Err(_err) => return Err(QuarchitectError("Failed to parse R color component")),
            };

            let g: f32 = match comps[4].parse() {
                Ok(g) => g,
                Err(_err) => return Err(QuarchitectError("Failed to parse G color component")),
            };

            let b: f32 = match comps[5].parse() {
                Ok(b) => b,
                Err(_err) => return Err(QuarchitectError("Failed to parse B color component")),
            };

            Ok(ExtraData::Daikatana(surface_data, Color::new(r, g, b)))
        } else {
            panic!();
        }''', '''        let surface_data = ExtraData::surface_data(&comps)?;
        let r = comps[3].parse::<f32>();
        let r = r.map_err(|_| QuarchitectError("Failed to parse R color component"))?;
        let g = comps[4].parse::<f32>();
        let g = g.map_err(|_| QuarchitectError("Failed to parse G color component"))?;
        let b = comps[5].parse::<f32>();
        let b = b.map_err(|_| QuarchitectError("Failed to parse B color component"))?;

        Ok(ExtraData::Daikatana(surface_data, Color::new(r, g, b)))'''))
ref('r11-normal-inline', (BP, '''        let v0v1 = self.v1 - self.v0;
        let v0v2 = self.v2 - self.v0;
        v0v2.cross(v0v1).normalize()''', '''        (self.v2 - self.v0)
            .cross(self.v1 - self.v0)
            .normalize()'''), (BP, '''        let n = self.normal();
        n.dot(self.v0)''', '''        self.normal().dot(self.v0)'''))
# ---- geo
ref('r12-hull-all', (GEO + 'brush_plane/vertices.rs', '''    for brush_plane in hull {
        let proj = brush_plane.normal().dot(vertex);
        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
            return false;
        }
    }
    true''', '''    hull.iter().all(|brush_plane| {
        let proj = brush_plane.normal().dot(vertex);
        let dist = brush_plane.dist();
        !(proj > dist && proj - dist > CMP_EPSILON)
    })'''))
ref('r13-intersect-if', (GEO + 'brush_plane/vertices.rs', '''    let denom = n0.cross(n1).dot(n2);

    // Degenerate planes have NaN normals, and don't intersect anything
    if denom.is_nan() || denom < CMP_EPSILON {
        return None;
    }

    Some(
        (n1.cross(n2) * p0.dist() + n2.cross(n0) * p1.dist() + n0.cross(n1) * p2.dist()) / denom,
    )''', '''    let n0n1 = n0.cross(n1);
    let denom = n0n1.dot(n2);

    if denom >= CMP_EPSILON {
        let d0 = p0.dist();
        let d1 = p1.dist();
        let d2 = p2.dist();
        let sum = n1.cross(n2) * d0 + n2.cross(n0) * d1 + n0n1 * d2;
        Some(sum / denom)
    } else {
        None
    }'''))
ref('r14-center-sum', (GEO + 'brush/mod.rs', '''    let center = plane_geometry
        .iter()
        .fold(Vector3::new(0.0, 0.0, 0.0), |acc, plane_geometry| {
            acc + plane_geometry.center
        })
        / plane_geometry.len().max(1) as f32;
''', '''    let mut center = Vector3::new(0.0, 0.0, 0.0);
    for geometry in &plane_geometry {
        center += geometry.center;
    }
    let center = center / plane_geometry.len().max(1) as f32;
'''), (GEO + 'brush/mod.rs', '''    let plane_geometry: Vec<brush_plane::Geometry> = planes
        .iter()
        .map(|plane| brush_plane::build(textures, entity, planes, plane))
        .collect();
''', '''    let mut plane_geometry = Vec::with_capacity(planes.len());
    for plane in planes {
        plane_geometry.push(brush_plane::build(textures, entity, planes, plane));
    }
'''))
ref('r15-entity-origin', (GEO + 'entity/mod.rs', '''            let mut comps = origin.split(' ');
            let x: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            let y: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            let z: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            Vector3::new(x, y, z)''', '''            let mut comps = origin.split(' ');
            let x = parse_component(comps.next());
            let y = parse_component(comps.next());
            let z = parse_component(comps.next());
            Vector3::new(x, y, z)'''), (GEO + 'entity/mod.rs', '''pub fn build(''', '''fn parse_component(component: Option<&str>) -> f32 {
    match component {
        Some(component) => component.parse::<f32>().unwrap_or(0.0),
        None => 0.0,
    }
}

pub fn build('''))
ref('r16-entity-iflet', (GEO + 'entity/mod.rs', '''    let origin = entity.properties.get("origin");
    let center: Vector3 = match origin {
        Some(origin) => {
            let mut comps = origin.split(' ');''', '''    let center: Vector3 = match entity.get_property("origin") {
        Some(origin) => {
            let mut comps = origin.split(' ');'''), (GEO + 'entity/mod.rs', '''                / (brush_geometry.len().max(1) as f32)''', '''                / (if brush_geometry.is_empty() { 1 } else { brush_geometry.len() }) as f32'''))
ref('r17-unique-any', (GEO + 'brush_plane/mod.rs', '''            match plane_vertices
                .iter()
                .skip(i + 1)
                .find(|comp| comp.vertex == vertex.vertex)
            {
                None => match entity.get_property("_phong") {
                    Some("1") => {
                        let mut vertex = plane_vertices.iter().skip(i + 1).fold(
                            vertex.clone(),
                            |mut acc, next| {
                                if next.vertex == acc.vertex {
                                    acc.normal = next.normal;
                                }
                                acc
                            },
                        );
                        vertex.normal = vertex.normal.normalize();
                        Some(vertex)
                    }
                    _ => Some(vertex.clone()),
                },
                _ => None,
            }''', '''            let rest = &plane_vertices[i + 1..];
            if rest.iter().any(|comp| comp.vertex == vertex.vertex) {
                return None;
            }

            let mut vertex = vertex.clone();
            if entity.get_property("_phong") == Some("1") {
                for next in rest {
                    if next.vertex == vertex.vertex {
                        vertex.normal = next.normal;
                    }
                }
                vertex.normal = vertex.normal.normalize();
            }
            Some(vertex)'''))
ref('r18-vertices-loops', (GEO + 'brush_plane/mod.rs', '''    let plane_vertices: Vec<Vertex> = planes
        .iter()
        .flat_map(|p1| {
            planes
                .iter()
                .flat_map(move |p2| build_plane_vertex(texture_info, entity, planes, plane, p1, p2))
        })
        .collect();
''', '''    let mut plane_vertices: Vec<Vertex> = Vec::new();
    for p1 in planes {
        for p2 in planes {
            if let Some(vertex) = build_plane_vertex(texture_info, entity, planes, plane, p1, p2) {
                plane_vertices.push(vertex);
            }
        }
    }
'''), (GEO + 'brush_plane/mod.rs', '''    let indices: Vec<usize> = if world_vertices.len() < 3 {
        Vec::new()
    } else {
        (0..world_vertices.len() - 2)
            .flat_map(|i| vec![0, i + 1, i + 2])
            .collect()
    };

    let texture = match texture_info {
        Some(_texture) => Some(plane.texture.clone()),
        None => None,
    };
''', '''    let mut indices: Vec<usize> = Vec::new();
    for i in 2..world_vertices.len() {
        indices.push(0);
        indices.push(i - 1);
        indices.push(i);
    }

    let texture = texture_info.map(|_| plane.texture.clone());
'''))
ref('r19-plane-vertex-early', (GEO + 'brush_plane/mod.rs', '''    if let Some(vertex) = vertices::intersect_brush_planes(plane, p1, p2) {
        if vertices::vertex_in_hull(vertex, planes) {
            let normal = normals::vertex_normal(entity, plane, p1, p2);
            let tangent = tangents::vertex_tangent(plane);

            let uv = match &texture_info {
                Some(texture) => Some(uvs::vertex_uv(vertex, plane, texture)),
                None => None,
            };

            let color = match &plane.extra {
                crate::map::quake::ExtraData::Daikatana(_surface_data, color) => Some(*color),
                _ => None,
            };

            return Some(Vertex::new(vertex, normal, tangent, uv, color));
        }
    }

    None''', '''    let position = vertices::intersect_brush_planes(plane, p1, p2)?;
    if !vertices::vertex_in_hull(position, planes) {
        return None;
    }

    let color = if let crate::map::quake::ExtraData::Daikatana(_, color) = &plane.extra {
        Some(*color)
    } else {
        None
    };

    Some(Vertex {
        vertex: position,
        normal: normals::vertex_normal(entity, plane, p1, p2),
        tangent: tangents::vertex_tangent(plane),
        uv: texture_info.map(|texture| uvs::vertex_uv(position, plane, texture)),
        color,
    })'''))
ref('r20-phong-option', (GEO + 'brush_plane/normals.rs', '''    if let Some(phong_angle) = phong_angle {
        if let Ok(phong_angle) = phong_angle.parse::<f32>() {
            let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
            let mut normal = p0.normal();
            if p0.normal().dot(p1.normal()) > threshold {
                normal += p1.normal()
            }
            if p0.normal().dot(p2.normal()) > threshold {
                normal += p2.normal()
            }
            return normal.normalize();
        }
    }

    (p0.normal() + p1.normal() + p2.normal()).normalize()''', '''    let n0 = p0.normal();
    let n1 = p1.normal();
    let n2 = p2.normal();
    match phong_angle.and_then(|angle| angle.parse::<f32>().ok()) {
        Some(angle) => {
            let threshold = ((angle + 0.01) * ONE_DEGREE).cos();
            let mut normal = n0;
            for n in [n1, n2].iter() {
                if n0.dot(*n) > threshold {
                    normal += *n;
                }
            }
            normal.normalize()
        }
        None => (n0 + n1 + n2).normalize(),
    }'''), (GEO + 'brush_plane/normals.rs', '''    if let Some("1") = entity.get_property("_phong") {
        return phong_normal(p0, p1, p2, entity.get_property("_phong_angle"));
    }

    p0.normal()''', '''    match entity.get_property("_phong") {
        Some("1") => phong_normal(p0, p1, p2, entity.get_property("_phong_angle")),
        _ => p0.normal(),
    }'''))
ref('r21-sort-by-key', (GEO + 'brush_plane/mod.rs', '''    wound_vertices.sort_by(|a, b| {
        let vert_a = a.vertex;
        let vert_b = b.vertex;

        let lhs_pu = vert_a.dot(u_axis);
        let lhs_pv = vert_a.dot(v_axis);

        let rhs_pu = vert_b.dot(u_axis);
        let rhs_pv = vert_b.dot(v_axis);

        let lhs_angle = lhs_pv.atan2(lhs_pu);
        let rhs_angle = rhs_pv.atan2(rhs_pu);

        rhs_angle.total_cmp(&lhs_angle)
    });
''', '''    let angle = |vertex: &Vertex| {
        let pu = vertex.vertex.dot(u_axis);
        let pv = vertex.vertex.dot(v_axis);
        pv.atan2(pu)
    };
    wound_vertices.sort_by(|a, b| angle(b).total_cmp(&angle(a)));
'''))
ref('r22-uv-match', (GEO + 'brush_plane/uvs.rs', '''    match &brush_plane.uv {
        UV::Quake(_uv) => standard_uv(vertex, brush_plane, texture),
        UV::Valve(_uv) => valve_uv(vertex, brush_plane, texture),
    }''', '''    match &brush_plane.uv {
        UV::Quake(uv) => standard_uv(vertex, brush_plane, texture, uv),
        UV::Valve(uv) => valve_uv(vertex, brush_plane, texture, uv),
    }'''), (GEO + 'brush_plane/uvs.rs', 'fn standard_uv(vertex: Vector3, brush_plane: &BrushPlane, texture: &Texture) -> Vector2 {', 'fn standard_uv(\n    vertex: Vector3,\n    brush_plane: &BrushPlane,\n    texture: &Texture,\n    standard_uv: &crate::map::QuakeUV,\n) -> Vector2 {'),
    (GEO + 'brush_plane/uvs.rs', '''    let mut uv = uv;
    if let UV::Quake(standard_uv) = &brush_plane.uv {
        uv += Vector2::new(standard_uv.u, standard_uv.v) / texture.size();
    } else {
        panic!("Not a standard UV");
    }

    uv
''', '''    uv + Vector2::new(standard_uv.u, standard_uv.v) / texture.size()
'''), (GEO + 'brush_plane/uvs.rs', '''fn valve_uv(vertex: Vector3, brush_plane: &BrushPlane, texture: &Texture) -> Vector2 {
    let mut uv;
    if let UV::Valve(valve_uv) = &brush_plane.uv {
        uv = Vector2::new(valve_uv.u_axis.dot(vertex), valve_uv.v_axis.dot(vertex));

        uv /= texture.size();
        uv /= brush_plane.scale;
        uv += Vector2::new(valve_uv.u_offset, valve_uv.v_offset) / texture.size();
    } else {
        panic!("Not a valve UV");
    }

    uv
''', '''fn valve_uv(
    vertex: Vector3,
    brush_plane: &BrushPlane,
    texture: &Texture,
    valve_uv: &crate::map::ValveUV,
) -> Vector2 {
    let size = texture.size();
    let projected = Vector2::new(valve_uv.u_axis.dot(vertex), valve_uv.v_axis.dot(vertex));
    let offset = Vector2::new(valve_uv.u_offset, valve_uv.v_offset);

    projected / size / brush_plane.scale + offset / size
'''), ('src/map/mod.rs', 'pub use types::UV;', 'pub use types::{QuakeUV, ValveUV, UV};'), ('src/map/types/mod.rs', 'pub use uv::UV;', 'pub use uv::{QuakeUV, ValveUV, UV};'))
# ---- layer filter
ref('r23-layer-loop', (LF, '''        let worldspawn_layer_textures = vec!["*water0", "*slime0"];

        let mut worldspawn_brush_geo = worldspawn_brush_geo;
        for layer_texture in worldspawn_layer_textures {''', '''        let mut worldspawn_brush_geo = worldspawn_brush_geo;
        for &layer_texture in ["*water0", "*slime0"].iter() {'''), (LF, '''        .partition(|(entity, _)| match entity.get_property("classname") {
            Some(class_name) => class_name == "worldspawn",
            None => false,
        });''', '''        .partition(|(entity, _)| entity.get_property("classname") == Some("worldspawn"));'''),
    (LF, '''            .all(|plane_geometry| match &plane_geometry.texture {
                Some(texture) => texture.as_str() == layer,
                None => false,
            })''', '''            .all(|plane_geometry| plane_geometry.texture.as_deref() == Some(layer))'''))
ref('r24-layer-helper', (LF, '''        for layer_texture in worldspawn_layer_textures {
            let (layer_geometry, worldspawn_geometry) = worldspawn_brush_geo
                .into_iter()
                .partition(brush_geometry_by_layer(layer_texture));

            worldspawn_layers.push((layer_texture.into(), layer_geometry));
            worldspawn_brush_geo = worldspawn_geometry;
        }
''', '''        for layer_texture in worldspawn_layer_textures {
            let is_layer = brush_geometry_by_layer(layer_texture);
            let mut layer_geometry = Vec::new();
            let mut remaining = Vec::new();
            for brush_geometry in worldspawn_brush_geo {
                if is_layer(&brush_geometry) {
                    layer_geometry.push(brush_geometry);
                } else {
                    remaining.push(brush_geometry);
                }
            }

            worldspawn_layers.push((String::from(layer_texture), layer_geometry));
            worldspawn_brush_geo = remaining;
        }
'''), (LF, 'impl FnMut(&geo_builder::brush::Geometry) -> bool', 'impl Fn(&geo_builder::brush::Geometry) -> bool'), (LF, '''        worldspawn_entity_data.insert(0, (worldspawn_entity, worldspawn_geometry));
    }

    let entity_data = worldspawn_entity_data
        .into_iter()
        .chain(entity_data.into_iter())
        .collect();
''', '''        worldspawn_entity_data.push((worldspawn_entity, worldspawn_geometry));
    }

    worldspawn_entity_data.extend(entity_data);
    let entity_data = worldspawn_entity_data;
'''))
# ---- scene
ref('r25-scene-definition', (SCENE, '''    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.entity_type.clone()
                    }
                },
                None => EntityType::Placeholder,
            }
        }
        None => EntityType::Placeholder,
    }''', '''    match find_point_data(quarchitect_game_data, entity) {
        Some(point_data) => point_data.entity_type.clone(),
        None => EntityType::Placeholder,
    }'''), (SCENE, '''    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        match &point_data.component_type {
                            ComponentType::Script(component) => Some(component.to_string()),
                            ComponentType::None => None,
                        }
                    }
                },
                None => None,
            }
        }
        None => None,
    }''', '''    let point_data = find_point_data(quarchitect_game_data, entity)?;
    match &point_data.component_type {
        ComponentType::Script(component) => Some(component.clone()),
        ComponentType::None => None,
    }'''), (SCENE, '''    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.property_application_type
                    }
                },
                None => PropertyApplicationType::Properties,
            }
        }
        None => PropertyApplicationType::Properties,
    }''', '''    find_point_data(quarchitect_game_data, entity)
        .map(|point_data| point_data.property_application_type)
        .unwrap_or(PropertyApplicationType::Properties)'''), (SCENE, '''fn get_entity_type(''', '''fn find_point_data<'a>(
    game_data: &'a GameData,
    entity: &Entity,
) -> Option<&'a crate::game_data::PointData> {
    let classname = entity.properties.get("classname")?;
    let definition = game_data
        .entities
        .iter()
        .find(|definition| definition.classname == *classname)?;
    match &definition.data {
        crate::game_data::EntityData::Point(point_data) => Some(point_data),
        crate::game_data::EntityData::Brush(point_data, _) => Some(point_data),
    }
}

fn get_entity_type('''))
ref('r26-scene-vector', (SCENE, '''    let x: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let y: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let z: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    Some(Vector3::new(x, y, z))''', '''    Some(Vector3::new(
        parse_float(&mut comps)?,
        parse_float(&mut comps)?,
        parse_float(&mut comps)?,
    ))'''), (SCENE, '''    match comps.next() {
        Some(v) => match v.parse::<f32>() {
            Ok(v) => Some(v),
            Err(_) => None,
        },
        None => None,
    }''', '''    comps.next().and_then(|v| v.parse().ok())'''), (SCENE, '''                let vector3 = match value {
                    Some(value) => match parse_vector3_property(value) {
                        Some(value) => value,
                        None => *default,
                    },
                    None => *default,
                };

                Property::Vector3(vector3)''', '''                let vector3 = value.and_then(|value| parse_vector3_property(value));
                Property::Vector3(vector3.unwrap_or(*default))'''), (SCENE, '''                let value = match value {
                    Some(value) => match value.parse::<i32>() {
                        Ok(value) => value,
                        Err(_) => *default,
                    },
                    None => *default,
                };

                Property::Choices(value)''', '''                Property::Choices(parse_or(value, *default))'''), (SCENE, '''                let value = value.map(|value| value.parse::<i32>());
                Property::Integer(value.unwrap_or(Ok(*default)).unwrap_or(*default))''', '''                Property::Integer(parse_or(value, *default))'''), (SCENE, '''                let value = value.map(|value| value.parse::<f32>());
                Property::Float(value.unwrap_or(Ok(*default)).unwrap_or(*default))''', '''                Property::Float(parse_or(value, *default))'''), (SCENE, '''fn parse_vector3_property(''', '''fn parse_or<T: std::str::FromStr>(value: Option<&String>, default: T) -> T {
    match value.map(|value| value.parse::<T>()) {
        Some(Ok(value)) => value,
        _ => default,
    }
}

fn parse_vector3_property('''))
ref('r27-scene-internal', (SCENE, '''        if entity.properties.contains_key(property_name) {
            properties.insert(
                property_name.into(),
                crate::game_data::Property::String(
                    entity.properties.get(property_name).unwrap().clone(),
                ),
            );
        }''', '''        if let Some(value) = entity.properties.get(property_name) {
            properties.insert(property_name.to_string(), Property::String(value.clone()));
        }'''), (SCENE, '''        if let Some(Ok(value)) = entity
            .properties
            .get(property_name)
            .map(|value| value.parse::<i32>())
        {
            properties.insert(
                property_name.into(),
                crate::game_data::Property::Integer(value),
            );
        }''', '''        let value = match entity.properties.get(property_name) {
            Some(value) => value,
            None => return,
        };
        match value.parse() {
            Ok(value) => {
                properties.insert(property_name.to_owned(), Property::Integer(value));
            }
            Err(_) => (),
        }'''))
ref('r28-scene-brushdata', (SCENE, '''    let brush_data = match classname {
        Some(classname) => {
            let entity_definition = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity_definition {
                Some(entity_definition) => match &entity_definition.data {
                    crate::game_data::EntityData::Point(_) => return VisualGeometry::None,
                    crate::game_data::EntityData::Brush(_, brush_data) => brush_data,
                },
                None => {
                    println!("No entity definition for classname {:?}", classname);
                    return VisualGeometry::None;
                }
            }
        }
        None => return VisualGeometry::None,
    };

    get_brush_entity_visual_geometry(entity, entity_geometry, brush_data, texture_blacklist)''', '''    let definition = classname.and_then(|classname| {
        quarchitect_game_data
            .entities
            .iter()
            .find(|definition| &definition.classname == classname)
    });

    if let Some(definition) = definition {
        if let crate::game_data::EntityData::Brush(_, brush_data) = &definition.data {
            return get_brush_entity_visual_geometry(
                entity,
                entity_geometry,
                brush_data,
                texture_blacklist,
            );
        }
    }
    VisualGeometry::None'''))
ref('r29-scene-textures', (SCENE, '''            let textures: Vec<String> = entity
                .brushes
                .iter()
                .flat_map(|brush| brush.planes.iter().map(|plane| plane.texture.clone()))
                .collect();

            // Collect unique, non-blacklisted texture names
            let mut textures: Vec<Option<String>> = textures
                .clone()
                .into_iter()
                .enumerate()
                .filter(predicates::texture::unique_not_blacklisted(
                    &textures,
                    &texture_blacklist,
                ))
                .unzip::<usize, String, Vec<usize>, Vec<String>>()
                .1
                .into_iter()
                .map(Some)
                .collect();
''', '''            let mut textures: Vec<String> = Vec::new();
            for brush in &entity.brushes {
                for plane in &brush.planes {
                    textures.push(plane.texture.clone());
                }
            }

            // Collect unique, non-blacklisted texture names
            let is_used = predicates::texture::unique_not_blacklisted(&textures, texture_blacklist);
            let mut textures: Vec<Option<String>> = textures
                .iter()
                .cloned()
                .enumerate()
                .filter(|entry| is_used(entry))
                .map(|(_, texture)| Some(texture))
                .collect();
'''), ('src/scene_tree/predicates/texture.rs', '''        textures
            .iter()
            .skip(i + 1)
            .find(|comp| *comp == texture)
            .is_none()''', '''        !textures[i + 1..].contains(texture)'''))
ref('r30-scene-filter', (SCENE, '''        match vertices[..i]
            .iter()
            .position(|comp| same_vertex(comp, vertex))
        {
            None => {
                new_indices.push(i);
                new_vertices.push(vertex);
            }
            Some(position) => {
                indices = indices
                    .iter()
                    .map(|index| if *index == i { position } else { *index })
                    .collect();
            }
        }''', '''        let first = vertices[..i]
            .iter()
            .position(|comp| same_vertex(comp, vertex));
        if let Some(first) = first {
            for index in indices.iter_mut() {
                if *index == i {
                    *index = first;
                }
            }
        } else {
            new_indices.push(i);
            new_vertices.push(*vertex);
        }'''), (SCENE, '''    let mut indices = indices;
    let mut new_indices''', '''    let mut new_indices'''), (SCENE, '''    vertices: &[&'a Vertex],
    indices: Vec<usize>,
    same_vertex''', '''    vertices: &[&'a Vertex],
    mut indices: Vec<usize>,
    same_vertex'''))
ref('r31-scene-gather', (SCENE, '''    let vertices: Vec<&Vertex> = brush_geometry
        .iter()
        .flat_map(|(vertices, _indices)| (*vertices).clone())
        .collect();

    let mut index_offset: usize = 0;
    let indices: Vec<usize> = brush_geometry
        .iter()
        .flat_map(|(vertices, indices)| {
            let indices = indices
                .clone()
                .into_iter()
                .map(move |index| index + index_offset);

            index_offset += vertices.len();

            indices
        })
        .collect();

    (vertices, indices)''', '''    let mut all_vertices: Vec<&Vertex> = Vec::new();
    let mut all_indices: Vec<usize> = Vec::new();
    for (vertices, indices) in &brush_geometry {
        let offset = all_vertices.len();
        all_indices.extend(indices.iter().map(|index| index + offset));
        all_vertices.extend(vertices.iter().copied());
    }

    (all_vertices, all_indices)'''))
ref('r32-scene-convex', (SCENE, '''            let points: Vec<Vector3> = points
                .iter()
                .enumerate()
                .flat_map(|(i, vertex)| {
                    if points
                        .iter()
                        .skip(i + 1)
                        .find(|comp| vertex == *comp)
                        .is_none()
                    {
                        Some(*vertex)
                    } else {
                        None
                    }
                })
                .collect();
''', '''            let points: Vec<Vector3> = points
                .iter()
                .enumerate()
                .filter(|(i, vertex)| !points.iter().skip(i + 1).any(|comp| *vertex == comp))
                .map(|(_, vertex)| *vertex)
                .collect();
'''))
ref('r33-scene-children', (SCENE, '''        match get_entity_visual_geometry(
            quarchitect_game_data,
            texture_blacklist,
            entity,
            entity_geometry,
        ) {
            VisualGeometry::None => (),
            v => children.push(SceneTreeNode::visual_geometry(entity_geometry.center, v)),
        }
''', '''        let visual_geometry = get_entity_visual_geometry(
            quarchitect_game_data,
            texture_blacklist,
            entity,
            entity_geometry,
        );
        if let VisualGeometry::Mesh(_) = visual_geometry {
            children.push(SceneTreeNode::visual_geometry(
                entity_geometry.center,
                visual_geometry,
            ));
        }
'''), (SCENE, '''        let mut child_entities: Vec<SceneTreeNode> = entity_data
            .iter()
            .skip(1)
            .filter(|(child_entity, _geometry)| {
                let child_group = child_entity.properties.get("_tb_group");
                child_group.is_some() && child_group == tb_id
            })
            .flat_map(build_entity(
                quarchitect_game_data,
                forge_game_data,
                texture_blacklist,
                entity_data,
                -entity_geometry.center,
                child_ancestor_ids,
            ))
            .collect();

        children.append(&mut child_entities);
''', '''        let build_child = build_entity(
            quarchitect_game_data,
            forge_game_data,
            texture_blacklist,
            entity_data,
            -entity_geometry.center,
            child_ancestor_ids,
        );
        for child in entity_data.iter().skip(1) {
            match child.0.properties.get("_tb_group") {
                Some(child_group) if Some(child_group) == tb_id => {
                    children.extend(build_child(child));
                }
                _ => (),
            }
        }
'''))
ref('r34-scene-fn', (SCENE, '''                .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())
''', '''                .filter(|(entity, _geometry)| !entity.properties.contains_key("_tb_group"))
'''), (SCENE, '''            worldspawn_layers
                .iter()
                .flat_map(build_worldspawn_layer(quarchitect_game_data)),
''', '''            worldspawn_layers
                .iter()
                .filter_map(build_worldspawn_layer(quarchitect_game_data)),
'''))
ref('r35-scene-layer', (SCENE, '''        if layer_data.len() == 1 {
            let layer_data: &WorldspawnLayer = layer_data[0];
            name =''', '''        if let [layer_data] = layer_data[..] {
            name ='''), (SCENE, '''            match collision_geometry {
                CollisionGeometry::None => (),
                _ => children.push(SceneTreeNode::collision_geometry(
                    Vector3::default(),
                    get_worldspawn_layer_collision_geometry(layer_data, brush_geometry),
                )),
            }''', '''            match collision_geometry {
                CollisionGeometry::None => (),
                collision_geometry => children.push(SceneTreeNode::collision_geometry(
                    Vector3::default(),
                    collision_geometry,
                )),
            }'''))
ref('r36-scene-surface', (SCENE, '''        let verts: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();
        let normals: Vec<Vector3> = vertices.iter().map(|vertex| vertex.normal).collect();
        let tangents: Vec<(Vector3, f32)> = vertices.iter().map(|vertex| vertex.tangent).collect();
''', '''        let mut verts = Vec::with_capacity(vertices.len());
        let mut normals = Vec::with_capacity(vertices.len());
        let mut tangents = Vec::with_capacity(vertices.len());
        for vertex in &vertices {
            verts.push(vertex.vertex);
            normals.push(vertex.normal);
            tangents.push(vertex.tangent);
        }
'''))
ref('r37-pred-any', ('src/scene_tree/predicates/brush.rs', '''        for plane in &brush_geometry.plane_geometry {
            if let Some(texture) = &plane.texture {
                if !texture_blacklist.is_blacklisted_brush(texture) {
                    return true;
                }
            } else {
                return true;
            }
        }

        false''', '''        brush_geometry.plane_geometry.iter().any(|plane| {
            plane
                .texture
                .as_ref()
                .map_or(true, |texture| !texture_blacklist.is_blacklisted_brush(texture))
        })'''), ('src/types/texture.rs', '''        for brush_texture in self.brush.iter() {
            if texture == brush_texture {
                return true;
            }
        }

        false''', '''        self.brush.iter().any(|brush_texture| brush_texture == texture)'''))
# ---- wad
ref('r38-wad-question', (WAD, '''    if let Some(err) = mip_textures.iter().find_map(|res| match res {
        Err(err) => Some(err),
        _ => None,
    }) {
        return Err(err.clone());
    }

    let mip_textures = mip_textures
        .into_iter()
        .flat_map(|mip_texture| match mip_texture {
            Ok(mip_texture) => Some(mip_texture),
            _ => None,
        })
        .collect();

    Ok(mip_textures)''', '''    mip_textures.into_iter().collect()'''), (WAD, '''    let mut header_buf = [0u8; HEADER_BYTES];
    if let Err(err) = wad_file.read_exact(&mut header_buf) {
        return Err(format!("Error reading WAD header: {:?}", err));
    }

    match header::parser(&header_buf) {
        Ok((_, header)) => Ok(header),
        Err(err) => Err(format!("Error parsing WAD header: {:?}", err)),
    }''', '''    let mut header_buf = [0u8; HEADER_BYTES];
    wad_file
        .read_exact(&mut header_buf)
        .map_err(|err| format!("Error reading WAD header: {:?}", err))?;

    header::parser(&header_buf)
        .map(|(_, header)| header)
        .map_err(|err| format!("Error parsing WAD header: {:?}", err))'''))
ref('r39-wad-levels', (WAD, '''            let mip1 = if mip_levels > 1 {
                let mip1_buf = &mipdata_buf[size0..size0 + size1];
                let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                    Ok(mip_level) => mip_level,
                    Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
                };
                Some(mip1)
            } else {
                None
            };

            let mip2 = if mip_levels > 2 {
                let mip2_buf = &mipdata_buf[size0 + size1..size0 + size1 + size2];
                let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                    Ok(mip_level) => mip_level,
                    Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
                };
                Some(mip2)
            } else {
                None
            };
''', '''            let read_level = |start: usize, size: usize, level: usize| {
                match mip_level::parser(size)(&mipdata_buf[start..start + size]) {
                    Ok((_, mip_level)) => Ok(mip_level),
                    Err(err) => Err(format!("Error parsing mip level {}: {:?}", level, err)),
                }
            };

            let mip1 = if mip_levels > 1 {
                Some(read_level(size0, size1, 1)?)
            } else {
                None
            };

            let mip2 = if mip_levels > 2 {
                Some(read_level(size0 + size1, size2, 2)?)
            } else {
                None
            };
'''))
ref('r40-wad-directory', (WAD, '''            match entry.entry_type {
                'C' | 'D' => (),
                _ => return Ok(None),
            };

            if match whitelist {
                None => true,
                Some(whitelist) => whitelist.iter().any(|texture| texture == &entry.name),
            } {
                Ok(Some(entry))
            } else {
                Ok(None)
            }''', '''            let is_texture = entry.entry_type == 'C' || entry.entry_type == 'D';
            if is_texture && is_whitelisted(whitelist, &entry.name) {
                Ok(Some(entry))
            } else {
                Ok(None)
            }'''), (WAD, '''fn read_directory(''', '''fn is_whitelisted(whitelist: &Option<Vec<String>>, name: &String) -> bool {
    whitelist
        .as_ref()
        .map_or(true, |whitelist| whitelist.contains(name))
}

fn read_directory('''))
ref('r41-wad-open', (WAD, '''            let mut wad_file = match File::open(wad_file) {
                Ok(wad_file) => wad_file,
                Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
            };
''', '''            let mut wad_file = File::open(wad_file)
                .map_err(|err| format!("Error opening WAD file: {:?}", err))?;
'''), (WAD, '''            let palette;
            match wad_type {
                WadType::WAD2 => palette = None,
                WadType::WAD3 => {''', '''            let palette = match wad_type {
                WadType::WAD2 => None,
                WadType::WAD3 => {'''), (WAD, '''                    palette = Some(texture_palette);
                }
            }
''', '''                    Some(texture_palette)
                }
            };
'''), (WAD, '''    let result: Vec<TextureIndexed> = mip_textures
        .into_iter()
        .zip(mip_data.into_iter())
        .map(|(mip_texture, (mip_data, palette))| {
            TextureIndexed::new(mip_texture, mip_data, palette)
        })
        .collect();

    Ok(result)''', '''    let mut result = Vec::new();
    for (mip_texture, (mip_data, palette)) in mip_textures.into_iter().zip(mip_data) {
        result.push(TextureIndexed {
            mip_texture,
            mip_data,
            palette,
        });
    }

    Ok(result)'''))
ref('r42-wad-rgb', (WAD, '''        let palette = match self.palette {
            Some(texture_palette) => {
                if palette.is_some() {
                    println!("Skipping supplied palette: Not necessary for WAD3 RGB conversion");
                }
                texture_palette
            }
            None => match palette {
                Some(palette) => palette,
                None => return Err("WAD2 RGB conversion requires a palette".into()),
            },
        };
''', '''        let palette = self
            .palette
            .or(palette)
            .ok_or_else(|| "WAD2 RGB conversion requires a palette".to_string())?;
'''), ('src/wad/mip_data.rs', '''        let to_color = |MipLevel(mip_level)| mip_level.iter().map(|idx| palette[*idx as usize]).collect();

        let mip0 = to_color(mip_data.mip0);
        let mip1 = mip_data.mip1.map(to_color);
        let mip2 = mip_data.mip2.map(to_color);
        let mip3 = mip_data.mip3.map(to_color);

        MipDataRGB {
            mip0,
            mip1,
            mip2,
            mip3,
        }''', '''        fn to_color(level: MipLevel, palette: &[Color; 256]) -> Vec<Color> {
            let mut colors = Vec::with_capacity(level.0.len());
            for index in level.0 {
                colors.push(palette[usize::from(index)]);
            }
            colors
        }

        MipDataRGB {
            mip0: to_color(mip_data.mip0, palette),
            mip1: mip_data.mip1.map(|level| to_color(level, palette)),
            mip2: mip_data.mip2.map(|level| to_color(level, palette)),
            mip3: mip_data.mip3.map(|level| to_color(level, palette)),
        }'''))
ref('r43-wad-nom', ('src/wad/color.rs', '''    let (i, (r, g, b)) = nom::sequence::tuple((le_u8, le_u8, le_u8))(i)?;
    Ok((i, Color(r, g, b)))''', '''    let (i, r) = le_u8(i)?;
    let (i, g) = le_u8(i)?;
    let (i, b) = le_u8(i)?;
    Ok((i, Color(r, g, b)))'''), ('src/wad/header.rs', '''    let (i, o) = nom::sequence::tuple((wad_magic, le_u32, le_u32))(i)?;

    let (magic, num_entries, dir_offset) = o;
''', '''    let (i, magic) = wad_magic(i)?;
    let (i, num_entries) = le_u32(i)?;
    let (i, dir_offset) = le_u32(i)?;
'''), ('src/wad/entry.rs', '''    let name: String = name
        .into_iter()
        .take_while(|c| *c != char::from(0))
        .collect();
''', '''    let name: String = name.into_iter().take_while(|c| *c != '\\0').collect();
'''))
# ---- game data
ref('r44-fgd-join', (FORGE + 'metadata.rs', '''                base_classes
                    .iter()
                    .fold(String::new(), |acc, next| if acc.is_empty() {
                        acc
                    } else {
                        acc + ", "
                    } + &next)''', '''                join(base_classes)'''), (FORGE + 'metadata.rs', '''impl ToString for Metadata {''', '''fn join(names: &[String]) -> String {
    let mut joined = String::new();
    for name in names {
        if !joined.is_empty() {
            joined.push_str(", ");
        }
        joined.push_str(name);
    }
    joined
}

impl ToString for Metadata {'''), (FORGE + 'game_data.rs', '''        let entities = self.definitions.iter().fold(String::new(), |acc, next| {
            acc + &format!("{}\\n\\n", next.to_string())
        });
''', '''        let mut entities = String::new();
        for definition in &self.definitions {
            entities += &definition.to_string();
            entities += "\\n\\n";
        }
'''))
ref('r45-fgd-collect', (FORGE + 'entity.rs', '''        let properties = self.properties.iter().fold(String::new(), |acc, next| {
            acc + &format!("\\t{}\\n", next.to_string())
        });
''', '''        let properties: String = self
            .properties
            .iter()
            .map(|property| format!("\\t{}\\n", property.to_string()))
            .collect();
'''), (FORGE + 'property.rs', '''                                if *default as u32 & bit != 0 { 1 } else { 0 }''', '''                                u8::from((*default as u32) & bit != 0)'''))
ref('r46-fgd-save', (FORGE + 'game_data.rs', '''        std::fs::write(file, self.to_string())?;
        Ok(())''', '''        let text = self.to_string();
        std::fs::write(&file, text.as_bytes())'''), (FORGE + 'property.rs', '''                    choices
                        .get(*default as usize)
                        .map(|choice| choice.value.to_string())
                        .unwrap_or_else(|| default.to_string()),''', '''                    match choices.get(*default as usize) {
                        Some(choice) => choice.value.to_string(),
                        None => default.to_string(),
                    },'''))
# ---- lib
ref('r47-lib-helper', (LIB, '''    let file_string = fs::read_to_string(config.map_file)?;
    let tokens = map::quake::tokenizer::run(file_string)?;
    let (_token_paths, entities)''', '''    let tokens = read_tokens(&config.map_file)?;
    let (_token_paths, entities)'''), (LIB, '''    let file_a_string = fs::read_to_string(file_a)?;
    let file_b_string = fs::read_to_string(file_b)?;

    let file_a_tokens = map::quake::tokenizer::run(file_a_string)?;
    let file_b_tokens = map::quake::tokenizer::run(file_b_string)?;
''', '''    let file_a_tokens = read_tokens(file_a)?;
    let file_b_tokens = read_tokens(file_b)?;
'''), (LIB, '''pub fn run(config''', '''fn read_tokens(path: &str) -> Result<Vec<map::quake::tokenizer::Token>, Box<dyn Error>> {
    let file_string = fs::read_to_string(path)?;
    Ok(map::quake::tokenizer::run(file_string)?)
}

pub fn run(config'''))
ref('r48-lib-zip', (LIB, '''    let entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)> = entities
        .into_iter()
        .zip(entity_geometry.into_iter())
        .collect();
''', '''    let mut entity_data = Vec::with_capacity(entities.len());
    for (entity, geometry) in entities.into_iter().zip(entity_geometry) {
        entity_data.push((entity, geometry));
    }
'''), (LIB, '''    let scene_tree = scene_tree::run(
        &config.forge_game_data,
        &config.quarchitect_game_data,
        &config.texture_blacklist,
        &entity_data,
        &worldspawn_layer_data,
    );

    Ok(scene_tree)''', '''    let Config {
        texture_blacklist,
        forge_game_data,
        quarchitect_game_data,
        ..
    } = &config;
    Ok(scene_tree::run(
        forge_game_data,
        quarchitect_game_data,
        texture_blacklist,
        &entity_data,
        &worldspawn_layer_data,
    ))'''), (LIB, '''fs::read_to_string(config.map_file)?''', '''fs::read_to_string(&config.map_file)?'''))
# ---- second round
ref('r49-find-definition', (SCENE, '''fn get_entity_type(
    quarchitect_game_data: &crate::game_data::GameData,
    entity: &Entity,
) -> EntityType {
    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.entity_type.clone()
                    }
                },
                None => EntityType::Placeholder,
            }
        }
        None => EntityType::Placeholder,
    }
}
''', '''fn find_point_data<'a>(
    quarchitect_game_data: &'a GameData,
    entity: &Entity,
) -> Option<&'a crate::game_data::PointData> {
    let classname = entity.properties.get("classname")?;
    let definition = quarchitect_game_data
        .entities
        .iter()
        .find(|definition| definition.classname == *classname)?;
    Some(match &definition.data {
        crate::game_data::EntityData::Point(point_data) => point_data,
        crate::game_data::EntityData::Brush(point_data, _) => point_data,
    })
}

fn get_entity_type(
    quarchitect_game_data: &crate::game_data::GameData,
    entity: &Entity,
) -> EntityType {
    find_point_data(quarchitect_game_data, entity)
        .map(|point_data| point_data.entity_type.clone())
        .unwrap_or(EntityType::Placeholder)
}
'''), (SCENE, '''    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        match &point_data.component_type {
                            ComponentType::Script(component) => Some(component.to_string()),
                            ComponentType::None => None,
                        }
                    }
                },
                None => None,
            }
        }
        None => None,
    }
''', '''    match &find_point_data(quarchitect_game_data, entity)?.component_type {
        ComponentType::Script(component) => Some(component.clone()),
        ComponentType::None => None,
    }
'''), (SCENE, '''    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.property_application_type
                    }
                },
                None => PropertyApplicationType::Properties,
            }
        }
        None => PropertyApplicationType::Properties,
    }
''', '''    match find_point_data(quarchitect_game_data, entity) {
        Some(point_data) => point_data.property_application_type,
        None => PropertyApplicationType::Properties,
    }
'''))
ref('r50-find-brush-data', (SCENE, '''    let classname = entity.properties.get("classname");

    let brush_data = match classname {
        Some(classname) => {
            let entity_definition = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity_definition {
                Some(entity_definition) => match &entity_definition.data {
                    crate::game_data::EntityData::Point(_) => return VisualGeometry::None,
                    crate::game_data::EntityData::Brush(_, brush_data) => brush_data,
                },
                None => {
                    println!("No entity definition for classname {:?}", classname);
                    return VisualGeometry::None;
                }
            }
        }
        None => return VisualGeometry::None,
    };

    get_brush_entity_visual_geometry(entity, entity_geometry, brush_data, texture_blacklist)
}
''', '''    match find_brush_data(quarchitect_game_data, entity) {
        Some(brush_data) => get_brush_entity_visual_geometry(
            entity,
            entity_geometry,
            brush_data,
            texture_blacklist,
        ),
        None => VisualGeometry::None,
    }
}

fn find_brush_data<'a>(
    quarchitect_game_data: &'a GameData,
    entity: &Entity,
) -> Option<&'a BrushData> {
    let classname = entity.properties.get("classname")?;

    for entity_definition in &quarchitect_game_data.entities {
        if &entity_definition.classname == classname {
            return match &entity_definition.data {
                crate::game_data::EntityData::Point(_) => None,
                crate::game_data::EntityData::Brush(_, brush_data) => Some(brush_data),
            };
        }
    }

    println!("No entity definition for classname {:?}", classname);
    None
}
'''), (SCENE, '''    let classname = entity.properties.get("classname");
    let brush_data = match classname {
        Some(classname) => {
            let entity_definition = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity_definition {
                Some(entity_definition) => match &entity_definition.data {
                    crate::game_data::EntityData::Point(_) => return CollisionGeometry::None,
                    crate::game_data::EntityData::Brush(_, brush_data) => brush_data,
                },
                None => {
                    println!("No entity definition for classname {:?}", classname);
                    return CollisionGeometry::None;
                }
            }
        }
        None => return CollisionGeometry::None,
    };
''', '''    let brush_data = match find_brush_data(quarchitect_game_data, entity) {
        Some(brush_data) => brush_data,
        None => return CollisionGeometry::None,
    };
'''))
ref('r51-properties-helper', (SCENE, '''    for forge_property in &forge_entity.properties {
        let key = &forge_property.name;
        let value = entity.properties.get(key);

        let value = match &forge_property.data {''', '''    for forge_property in forge_entity.properties.iter() {
        let key = &forge_property.name;
        let value = read_property(&forge_property.data, entity.properties.get(key));
        properties.insert(key.clone(), value);
    }

    Properties::new(properties)
}

fn read_property(
    data: &crate::game_data::forge::PropertyData,
    value: Option<&String>,
) -> Property {
    match data {'''), (SCENE, '''            crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
        };

        properties.insert(key.clone(), value);
    }

    Properties::new(properties)
}
''', '''            crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
    }
}
'''))
ref('r52-properties-ok', (SCENE, '''                let value = value.map(|value| value.parse::<i32>());
                Property::Integer(value.unwrap_or(Ok(*default)).unwrap_or(*default))''', '''                Property::Integer(
                    value
                        .and_then(|value| value.parse().ok())
                        .unwrap_or(*default),
                )'''), (SCENE, '''                let value = value.map(|value| value.parse::<f32>());
                Property::Float(value.unwrap_or(Ok(*default)).unwrap_or(*default))''', '''                let parsed = match value {
                    Some(value) => value.parse::<f32>().unwrap_or(*default),
                    None => *default,
                };
                Property::Float(parsed)'''), (SCENE, '''                let vector3 = match value {
                    Some(value) => match parse_vector3_property(value) {
                        Some(value) => value,
                        None => *default,
                    },
                    None => *default,
                };

                Property::Vector3(vector3)''', '''                Property::Vector3(
                    value
                        .and_then(|value| parse_vector3_property(value))
                        .unwrap_or(*default),
                )'''), (SCENE, '''                let value = match value {
                    Some(value) => value,
                    None => default,
                };
                Property::String(value.clone())''', '''                Property::String(value.unwrap_or(default).clone())'''))
ref('r53-properties-collect', (SCENE, '''    let mut properties: HashMap<String, Property> = HashMap::new();

    let mut add_internal_property_integer = |property_name: &str| {
        if let Some(Ok(value)) = entity
            .properties
            .get(property_name)
            .map(|value| value.parse::<i32>())
        {
            properties.insert(
                property_name.into(),
                crate::game_data::Property::Integer(value),
            );
        }
    };

    add_internal_property_integer("_tb_id");
    add_internal_property_integer("_tb_group");
''', '''    let mut properties: HashMap<String, Property> = HashMap::new();

    for property_name in ["_tb_id", "_tb_group"].iter() {
        let property_name = *property_name;
        if let Some(value) = entity.properties.get(property_name) {
            if let Ok(value) = value.parse::<i32>() {
                properties.insert(property_name.to_string(), Property::Integer(value));
            }
        }
    }
'''))
ref('r54-parse-components', (SCENE, '''    let x: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let y: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let z: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    Some(Vector3::new(x, y, z))''', '''    Some(Vector3::new(
        parse_float(&mut comps)?,
        parse_float(&mut comps)?,
        parse_float(&mut comps)?,
    ))'''), (SCENE, '''    let r: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let g: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let b: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    Some(Color::new(r, g, b))''', '''    let mut components = [0.0; 3];
    for component in components.iter_mut() {
        *component = parse_float(&mut comps)?;
    }

    Some(Color::new(components[0], components[1], components[2]))'''), (SCENE, '''    match comps.next() {
        Some(v) => match v.parse::<f32>() {
            Ok(v) => Some(v),
            Err(_) => None,
        },
        None => None,
    }''', '''    comps.next()?.parse().ok()'''))
ref('r55-parse-both', (SCENE, '''    let mut comps = value.split(' ');

    let x: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let y: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let z: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    Some(Vector3::new(x, y, z))''', '''    let (x, y, z) = parse_three_floats(value)?;
    Some(Vector3::new(x, y, z))'''), (SCENE, '''    let mut comps = value.split(' ');

    let r: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let g: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let b: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    Some(Color::new(r, g, b))
}
''', '''    parse_three_floats(value).map(|(r, g, b)| Color::new(r, g, b))
}

fn parse_three_floats(value: &str) -> Option<(f32, f32, f32)> {
    let mut comps = value.split(' ');
    let first = parse_float(&mut comps)?;
    let second = parse_float(&mut comps)?;
    let third = parse_float(&mut comps)?;
    Some((first, second, third))
}
'''))
ref('r56-texture-names', (SCENE, '''            let mut textures: Vec<Option<String>> = textures
                .clone()
                .into_iter()
                .enumerate()
                .filter(predicates::texture::unique_not_blacklisted(
                    &textures,
                    &texture_blacklist,
                ))
                .unzip::<usize, String, Vec<usize>, Vec<String>>()
                .1
                .into_iter()
                .map(Some)
                .collect();

            // Account for untextured brushes
            textures.push(None);
''', '''            let unique_textures = textures
                .iter()
                .cloned()
                .enumerate()
                .filter(predicates::texture::unique_not_blacklisted(
                    &textures,
                    texture_blacklist,
                ))
                .map(|(_, texture)| Some(texture));

            // Account for untextured brushes
            let textures: Vec<Option<String>> =
                unique_textures.chain(std::iter::once(None)).collect();
'''))
ref('r57-texture-loop', (SCENE, '''            let mesh_surfaces: Vec<MeshSurface> = textures
                .into_iter()
                .flat_map(build_brush_entity_texture_surface(
                    entity_geometry,
                    texture_blacklist,
                ))
                .collect();

            // If no mesh surfaces exist, there is no visual geometry
            if mesh_surfaces.is_empty() {
                return VisualGeometry::None;
            }

            // Return mesh-type visual geometry
            VisualGeometry::Mesh(VisualMesh::new(mesh_surfaces))''', '''            let build_surface =
                build_brush_entity_texture_surface(entity_geometry, texture_blacklist);
            let mut mesh_surfaces = Vec::new();
            for texture in textures {
                if let Some(mesh_surface) = build_surface(texture) {
                    mesh_surfaces.push(mesh_surface);
                }
            }

            if !mesh_surfaces.is_empty() {
                VisualGeometry::Mesh(VisualMesh::new(mesh_surfaces))
            } else {
                VisualGeometry::None
            }'''))
ref('r58-texture-unique-pred', ('src/scene_tree/predicates/texture.rs', '''        textures
            .iter()
            .skip(i + 1)
            .find(|comp| *comp == texture)
            .is_none()''', '''        !textures[i + 1..].contains(texture)'''), ('src/scene_tree/predicates/texture.rs', '''    move |i: &(usize, String)| unique(textures)(i) && not_blacklisted(&texture_blacklist)(i)''', '''    let is_unique = unique(textures);
    let is_not_blacklisted = not_blacklisted(texture_blacklist);
    move |i: &(usize, String)| is_not_blacklisted(i) && is_unique(i)'''))
ref('r59-blacklist-any', ('src/types/texture.rs', '''        for brush_texture in self.brush.iter() {
            if texture == brush_texture {
                return true;
            }
        }

        false''', '''        self.brush.iter().any(|blacklisted| blacklisted == texture)'''), ('src/types/texture.rs', '''        for plane_texture in self.plane.iter() {
            if texture == plane_texture {
                return true;
            }
        }

        false''', '''        contains_texture(&self.plane, texture)'''), ('src/types/texture.rs', '''impl TextureBlacklist {''', '''fn contains_texture(textures: &[String], texture: &str) -> bool {
    let mut found = false;
    for candidate in textures {
        if candidate.as_str() == texture {
            found = true;
            break;
        }
    }
    found
}

impl TextureBlacklist {'''))
ref('r60-layer-data-first', (SCENE, '''        let mut name: String = String::new();
        let mut actor_type = EntityType::Placeholder;
        let mut component_class = None;
        let property_application_type = PropertyApplicationType::Properties;
        let properties = Properties::default();
        let mut children: Vec<SceneTreeNode> = Vec::new();

        if layer_data.len() == 1 {
            let layer_data: &WorldspawnLayer = layer_data[0];
            name = layer_data.name.clone();
            actor_type = layer_data.entity_type.clone();
            component_class = match &layer_data.component_type {
                ComponentType::Script(script_class) => Some(script_class.clone()),
                ComponentType::None => None,
            };
''', '''        let mut children: Vec<SceneTreeNode> = Vec::new();

        if layer_data.len() != 1 {
            println!(
                "Worldspawn layer data for texture {:?} is not a singleton",
                layer_texture
            );
            return None;
        }

        let layer_data: &WorldspawnLayer = layer_data[0];
        let name = layer_data.name.clone();
        let actor_type = layer_data.entity_type.clone();
        let component_class = match &layer_data.component_type {
            ComponentType::Script(script_class) => Some(script_class.clone()),
            ComponentType::None => None,
        };
'''), (SCENE, '''                    get_worldspawn_layer_collision_geometry(layer_data, brush_geometry),
                )),
            }
        } else {
            println!(
                "Worldspawn layer data for texture {:?} is not a singleton",
                layer_texture
            );
        }
''', '''                    collision_geometry,
                )),
            }
'''), (SCENE, '''            actor_type,
            component_class,
            property_application_type,
            properties,
            children,
        ))
    }
}

fn get_entity_type(''', '''            actor_type,
            component_class,
            PropertyApplicationType::Properties,
            Properties::default(),
            children,
        ))
    }
}

fn get_entity_type('''))
ref('r61-layer-slice-pattern', (SCENE, '''        let layer_data: Vec<&WorldspawnLayer> = quarchitect_game_data
            .worldspawn_layers
            .iter()
            .filter(|worldspawn_layer| worldspawn_layer.texture == *layer_texture)
            .collect();
''', '''        let mut layer_data: Vec<&WorldspawnLayer> = Vec::new();
        for worldspawn_layer in &quarchitect_game_data.worldspawn_layers {
            if &worldspawn_layer.texture != layer_texture {
                continue;
            }
            layer_data.push(worldspawn_layer);
        }
'''), (SCENE, '''        if layer_data.len() == 1 {
            let layer_data: &WorldspawnLayer = layer_data[0];
''', '''        if let [layer_data] = layer_data.as_slice() {
'''))
ref('r62-entity-children', (SCENE, '''        let mut child_entities: Vec<SceneTreeNode> = entity_data
            .iter()
            .skip(1)
            .filter(|(child_entity, _geometry)| {
                let child_group = child_entity.properties.get("_tb_group");
                child_group.is_some() && child_group == tb_id
            })
            .flat_map(build_entity(
                quarchitect_game_data,
                forge_game_data,
                texture_blacklist,
                entity_data,
                -entity_geometry.center,
                child_ancestor_ids,
            ))
            .collect();

        children.append(&mut child_entities);
''', '''        if let Some(tb_id) = tb_id {
            let build_child = build_entity(
                quarchitect_game_data,
                forge_game_data,
                texture_blacklist,
                entity_data,
                -entity_geometry.center,
                child_ancestor_ids,
            );
            children.extend(
                entity_data
                    .iter()
                    .skip(1)
                    .filter(|(child_entity, _geometry)| {
                        child_entity.properties.get("_tb_group") == Some(tb_id)
                    })
                    .flat_map(build_child),
            );
        }
'''))
ref('r63-entity-ancestors', (SCENE, '''        let tb_id = entity
            .properties
            .get("_tb_id")
            .filter(|tb_id| !ancestor_ids.contains(tb_id));
        let mut child_ancestor_ids = ancestor_ids.clone();
        child_ancestor_ids.extend(tb_id);
''', '''        let tb_id = match entity.properties.get("_tb_id") {
            Some(tb_id) if !ancestor_ids.iter().any(|ancestor_id| *ancestor_id == tb_id) => {
                Some(tb_id)
            }
            _ => None,
        };
        let child_ancestor_ids: Vec<&String> =
            ancestor_ids.iter().copied().chain(tb_id).collect();
'''), (SCENE, '''        Some(SceneTreeNode::entity(
            entity
                .properties
                .get("classname")
                .cloned()
                .unwrap_or_default(),
            origin + entity_geometry.center,
            get_entity_type(quarchitect_game_data, &entity),
            get_entity_component_class(quarchitect_game_data, &entity),
            get_entity_property_application_type(quarchitect_game_data, &entity),
            get_entity_properties(forge_game_data, &entity),
            children,
        ))''', '''        let name = match entity.properties.get("classname") {
            Some(classname) => classname.to_string(),
            None => String::new(),
        };
        let properties = get_entity_properties(forge_game_data, entity);
        let component_class = get_entity_component_class(quarchitect_game_data, entity);
        let entity_type = get_entity_type(quarchitect_game_data, entity);
        let property_application_type =
            get_entity_property_application_type(quarchitect_game_data, entity);
        let position = entity_geometry.center + origin;

        Some(SceneTreeNode::entity(
            name,
            position,
            entity_type,
            component_class,
            property_application_type,
            properties,
            children,
        ))'''))
ref('r64-scene-run-loops', (SCENE, '''    entity_data
        .iter()
        .take(1)
        .flat_map(build_entity(
            quarchitect_game_data,
            forge_game_data,
            texture_blacklist,
            entity_data,
            Vector3::new(0.0, 0.0, 0.0),
            Vec::new(),
        ))
        .chain(
            worldspawn_layers
                .iter()
                .flat_map(build_worldspawn_layer(quarchitect_game_data)),
        )
        .chain(
            entity_data
                .iter()
                .skip(1)
                .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())
                .flat_map(build_entity(
                    quarchitect_game_data,
                    forge_game_data,
                    texture_blacklist,
                    entity_data,
                    Vector3::new(0.0, 0.0, 0.0),
                    Vec::new(),
                )),
        )
        .collect()
''', '''    let build_root_entity = build_entity(
        quarchitect_game_data,
        forge_game_data,
        texture_blacklist,
        entity_data,
        Vector3::default(),
        Vec::new(),
    );

    let mut nodes: Vec<SceneTreeNode> = Vec::new();

    nodes.extend(entity_data.first().and_then(|data| build_root_entity(data)));

    let build_layer = build_worldspawn_layer(quarchitect_game_data);
    for layer in worldspawn_layers {
        nodes.extend(build_layer(layer));
    }

    for data in entity_data.iter().skip(1) {
        if !data.0.properties.contains_key("_tb_group") {
            nodes.extend(build_root_entity(data));
        }
    }

    nodes
'''))
ref('r65-convex-loop', (SCENE, '''    let convex_shapes: Vec<ConvexCollision> = entity_geometry
        .brush_geometry
        .iter()
        .map(|brush_geometry| {
            let points = brush_geometry
                .plane_geometry
                .iter()
                .flat_map(|brush_plane_geometry| {
                    brush_plane_geometry
                        .vertices
                        .iter()
                        .map(|vertex| vertex.vertex)
                })
                .collect::<Vec<Vector3>>();

            let points: Vec<Vector3> = points
                .iter()
                .enumerate()
                .flat_map(|(i, vertex)| {
                    if points
                        .iter()
                        .skip(i + 1)
                        .find(|comp| vertex == *comp)
                        .is_none()
                    {
                        Some(*vertex)
                    } else {
                        None
                    }
                })
                .collect();

            ConvexCollision::new(brush_geometry.center, points)
        })
        .collect();

    CollisionGeometry::convex(convex_shapes)''', '''    let mut convex_shapes = Vec::with_capacity(entity_geometry.brush_geometry.len());
    for brush_geometry in &entity_geometry.brush_geometry {
        let mut all_points: Vec<Vector3> = Vec::new();
        for plane_geometry in &brush_geometry.plane_geometry {
            for vertex in &plane_geometry.vertices {
                all_points.push(vertex.vertex);
            }
        }

        let mut points: Vec<Vector3> = Vec::new();
        for (i, point) in all_points.iter().enumerate() {
            let repeated = all_points[i + 1..].iter().any(|other| other == point);
            if !repeated {
                points.push(*point);
            }
        }

        convex_shapes.push(ConvexCollision::new(brush_geometry.center, points));
    }

    CollisionGeometry::convex(convex_shapes)'''))
ref('r66-concave-order', (SCENE, '''    let collision_vertices: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();

    if collision_vertices.is_empty() {
        return CollisionGeometry::None;
    }

    let concave_shapes = vec![ConcaveCollision::new(
        entity_geometry.center,
        collision_vertices,
        indices,
    )];

    CollisionGeometry::concave(concave_shapes)''', '''    match vertices.is_empty() {
        true => CollisionGeometry::None,
        false => {
            let center = entity_geometry.center;
            let collision_vertices = vertices.into_iter().map(|vertex| vertex.vertex).collect();
            CollisionGeometry::Concave(vec![ConcaveCollision {
                center,
                indices,
                vertices: collision_vertices,
            }])
        }
    }'''))
ref('r67-filter-map', (SCENE, '''            Some(position) => {
                indices = indices
                    .iter()
                    .map(|index| if *index == i { position } else { *index })
                    .collect();
            }''', '''            Some(position) => {
                for index in indices.iter_mut() {
                    if *index == i {
                        *index = position;
                    }
                }
            }'''), (SCENE, '''    let indices: Vec<usize> = indices
        .iter()
        .flat_map(|index| new_indices.iter().position(|comp| comp == index))
        .collect();

    (new_vertices, indices)''', '''    let mut remapped = Vec::with_capacity(indices.len());
    for index in &indices {
        if let Some(position) = new_indices.iter().position(|comp| comp == index) {
            remapped.push(position);
        }
    }

    (new_vertices, remapped)'''))
ref('r68-gather-entity-loop', (SCENE, '''    let vertices: Vec<&Vertex> = brush_geometry
        .iter()
        .flat_map(|(vertices, _indices)| (*vertices).clone())
        .collect();

    let mut index_offset: usize = 0;
    let indices: Vec<usize> = brush_geometry
        .iter()
        .flat_map(|(vertices, indices)| {
            let indices = indices
                .clone()
                .into_iter()
                .map(move |index| index + index_offset);

            index_offset += vertices.len();

            indices
        })
        .collect();

    (vertices, indices)
}

fn gather_brush_geometry''', '''    let mut vertices: Vec<&Vertex> = Vec::new();
    let mut indices: Vec<usize> = Vec::new();
    for (brush_vertices, brush_indices) in brush_geometry {
        let index_offset = vertices.len();
        indices.extend(brush_indices.into_iter().map(|index| index_offset + index));
        vertices.extend(brush_vertices);
    }

    (vertices, indices)
}

fn gather_brush_geometry'''))
ref('r69-brush-predicate', ('src/scene_tree/predicates/brush.rs', '''        for plane in &brush_geometry.plane_geometry {
            if let Some(texture) = &plane.texture {
                if !texture_blacklist.is_blacklisted_brush(texture) {
                    return true;
                }
            } else {
                return true;
            }
        }

        false''', '''        let all_blacklisted = brush_geometry.plane_geometry.iter().all(|plane| {
            matches!(&plane.texture, Some(texture) if texture_blacklist.is_blacklisted_brush(texture))
        });

        !all_blacklisted'''))
ref('r70-surface-empty', (SCENE, '''        let mesh_surface =
            MeshSurface::new(texture, verts, normals, tangents, uvs, colors, indices);

        Some(mesh_surface)''', '''        Some(MeshSurface {
            vertices: verts,
            normals,
            tangents,
            uvs,
            colors,
            indices,
            texture,
        })'''), (SCENE, '''        let uvs: Option<Vec<Vector2>> = vertices.iter().map(|vertex| vertex.uv).collect();
        let colors: Option<Vec<Color>> = vertices.iter().map(|vertex| vertex.color).collect();
''', '''        let colors: Option<Vec<Color>> = vertices.iter().map(|vertex| vertex.color).collect();
        let uvs = vertices
            .iter()
            .map(|vertex| vertex.uv)
            .collect::<Option<Vec<_>>>();
'''))
# tokenizer / parser
ref('r71-tok-fn', (TOK, '''    file_string
        .lines()
        .map(|line| match line.chars().next() {
            Some('/') => Ok(Token::comment(line)),
            Some('"') => {
                let mut comps = line.split('"');
                comps.next();
                let key = comps.next();
                comps.next();
                let value = comps.next();
                match (key, value) {
                    (Some(key), Some(value)) => Ok(Token::property(key, value)),
                    _ => Err(QuarchitectError("Malformed property")),
                }
            }
            Some('{') => Ok(Token::OpenBrace),
            Some('}') => Ok(Token::CloseBrace),
            Some('(') => Ok(Token::brush_plane(&line)),
            _ => Ok(Token::unrecognized(&line)),
        })
        .collect()
}
''', '''    file_string.lines().map(tokenize_line).collect()
}

fn tokenize_line(line: &str) -> Result<Token, QuarchitectError> {
    let token = match line.chars().next() {
        Some('{') => Token::OpenBrace,
        Some('}') => Token::CloseBrace,
        Some('(') => Token::BrushPlane(line.to_owned()),
        Some('/') => Token::Comment(line.to_owned()),
        Some('"') => tokenize_property(line)?,
        _ => Token::Unrecognized(line.to_owned()),
    };
    Ok(token)
}

fn tokenize_property(line: &str) -> Result<Token, QuarchitectError> {
    let mut comps = line.split('"').skip(1);
    let key = comps.next().ok_or(QuarchitectError("Malformed property"))?;
    let value = comps.nth(1).ok_or(QuarchitectError("Malformed property"))?;
    Ok(Token::property(key, value))
}
'''))
ref('r72-tok-collect', (TOK, '''                let mut comps = line.split('"');
                comps.next();
                let key = comps.next();
                comps.next();
                let value = comps.next();
                match (key, value) {
                    (Some(key), Some(value)) => Ok(Token::property(key, value)),
                    _ => Err(QuarchitectError("Malformed property")),
                }''', '''                let comps: Vec<&str> = line.split('"').collect();
                if comps.len() < 4 {
                    return Err(QuarchitectError("Malformed property"));
                }
                Ok(Token::property(comps[1], comps[3]))'''))
ref('r73-diff-contains', (TOK, '''    let mut removed: Vec<&Token> = Vec::new();
    for token in tokens_a {
        if lcs.iter().find(|comp| **comp == token).is_none() {
            removed.push(token);
        }
    }

    let mut added: Vec<&Token> = Vec::new();
    for token in tokens_b {
        if lcs.iter().find(|comp| **comp == token).is_none() {
            added.push(token);
        }
    }

    Diff::new(added, removed)''', '''    let missing = |tokens: &'a [Token]| -> Vec<&'a Token> {
        tokens
            .iter()
            .filter(|token| !lcs.contains(token))
            .collect()
    };

    Diff::new(missing(tokens_b), missing(tokens_a))'''), (TOK, '''    let mut l: Vec<Vec<usize>> = Vec::new();
    l.resize(size_x + 1, Vec::<usize>::new());
    for v in &mut l {
        v.resize(size_y + 1, 0);
    }
''', '''    let mut l = vec![vec![0usize; size_y + 1]; size_x + 1];
'''))
ref('r74-diff-shift', (TOK, '''    for index_x in 1..=size_x {
        for index_y in 1..=size_y {
            if tokens_a[index_x-1] == tokens_b[index_y-1] {
                l[index_x][index_y] = l[index_x-1][index_y-1] + 1;
            }
            else {
                l[index_x][index_y] = std::cmp::max(l[index_x-1][index_y], l[index_x][index_y-1]);
            }
        }
    }
''', '''    for (x, token_a) in tokens_a.iter().enumerate() {
        for (y, token_b) in tokens_b.iter().enumerate() {
            l[x + 1][y + 1] = if token_a == token_b {
                l[x][y] + 1
            } else {
                l[x][y + 1].max(l[x + 1][y])
            };
        }
    }
'''), (TOK, '''        else if l[i-1][j] > l[i][j-1] {
            i -= 1;
        }
        else {
            j -= 1;
        }''', '''        else if l[i][j-1] >= l[i-1][j] {
            j -= 1;
        }
        else {
            i -= 1;
        }'''))
ref('r75-parser-last', (PARSER, '''    for token in tokens.iter() {
        match token {
            Token::OpenBrace => match scope {
                ParseScope::File => {
                    let entity_id = entities.len();
                    scope = ParseScope::entity(entity_id);
                    entities.push(Entity::new());
                    token_paths.insert(token, TokenPath::entity(entity_id));
                }
                ParseScope::Entity(entity_path) => {
                    let brushes = &mut entities.last_mut().unwrap().brushes;
                    let brush_idx = brushes.len();
                    scope = ParseScope::brush(entity_path.entity_idx, brush_idx);
                    brushes.push(Brush::new());
                    token_paths.insert(token, TokenPath::brush(entity_path.entity_idx, brush_idx));
                }
                ParseScope::Brush(_) => return Err(QuarchitectError("Open brace in brush scope")),
            },''', '''    for token in tokens {
        match token {
            Token::OpenBrace => {
                scope = match scope {
                    ParseScope::File => {
                        entities.push(Entity::default());
                        let entity_id = entities.len() - 1;
                        token_paths.insert(token, TokenPath::entity(entity_id));
                        ParseScope::entity(entity_id)
                    }
                    ParseScope::Entity(EntityPath { entity_idx }) => {
                        let entity = &mut entities[entity_idx];
                        entity.brushes.push(Brush::default());
                        let brush_idx = entity.brushes.len() - 1;
                        token_paths.insert(token, TokenPath::brush(entity_idx, brush_idx));
                        ParseScope::brush(entity_idx, brush_idx)
                    }
                    ParseScope::Brush(_) => {
                        return Err(QuarchitectError("Open brace in brush scope"))
                    }
                }
            }'''), (PARSER, '''    match scope {
        ParseScope::File => Ok((token_paths, entities)),
        _ => Err(QuarchitectError("Unclosed brace at end of file")),
    }''', '''    if let ParseScope::File = scope {
        return Ok((token_paths, entities));
    }

    Err(QuarchitectError("Unclosed brace at end of file"))'''))
ref('r76-parser-index', (PARSER, '''                    let brush_planes = &mut entities
                        .last_mut()
                        .unwrap()
                        .brushes
                        .last_mut()
                        .unwrap()
                        .planes;
                    let brush_plane_id = brush_planes.len();
                    let brush_plane = BrushPlane::new(bp.as_str())?;
                    brush_planes.push(brush_plane);''', '''                    let brush_plane = BrushPlane::new(bp)?;
                    let entity = &mut entities[brush_path.entity_idx];
                    let brush = &mut entity.brushes[brush_path.brush_idx];
                    let brush_plane_id = brush.planes.len();
                    brush.planes.push(brush_plane);'''))
ref('r77-parser-drop-paths', (PARSER, '''            Token::Property(p) => match &scope {
                ParseScope::File => return Err(QuarchitectError("Property in file scope")),
                ParseScope::Entity(entity_path) => {
                    let k = &p.key;
                    let v = &p.value;
                    entities
                        .last_mut()
                        .unwrap()
                        .properties
                        .insert(k.clone(), v.clone());
                    token_paths.insert(
                        token,
                        TokenPath::property(entity_path.entity_idx, k.clone()),
                    );
                }
                ParseScope::Brush(_) => return Err(QuarchitectError("Property in brush scope")),
            },''', '''            Token::Property(super::tokenizer::Property { key, value }) => match &scope {
                ParseScope::Entity(entity_path) => {
                    let path = TokenPath::property(entity_path.entity_idx, key.to_string());
                    token_paths.insert(token, path);
                    if let Some(entity) = entities.last_mut() {
                        entity.properties.insert(key.to_string(), value.to_string());
                    }
                }
                ParseScope::File => return Err(QuarchitectError("Property in file scope")),
                ParseScope::Brush(_) => return Err(QuarchitectError("Property in brush scope")),
            },'''))
ref('r78-face-vector-helper', (BP, '''        let mut v0 = Vector3::new(0.0, 0.0, 0.0);
        let mut v1 = Vector3::new(0.0, 0.0, 0.0);
        let mut v2 = Vector3::new(0.0, 0.0, 0.0);

        for i in 0..3 {
            comps.next();
            let x: f32 = parse_next(&mut comps)?;
            let y: f32 = parse_next(&mut comps)?;
            let z: f32 = parse_next(&mut comps)?;
            comps.next();

            let v = match i {
                0 => &mut v0,
                1 => &mut v1,
                2 => &mut v2,
                _ => panic!(),
            };

            v.set_x(x);
            v.set_y(y);
            v.set_z(z);
        }
''', '''        let v0 = parse_point(&mut comps)?;
        let v1 = parse_point(&mut comps)?;
        let v2 = parse_point(&mut comps)?;
'''), (BP, '''// Brush Plane
#[derive''', '''fn parse_vector<'a>(
    comps: &mut impl Iterator<Item = &'a str>,
) -> Result<Vector3, QuarchitectError> {
    let x = parse_next(comps)?;
    let y = parse_next(comps)?;
    let z = parse_next(comps)?;
    Ok(Vector3::new(x, y, z))
}

fn parse_point<'a>(
    comps: &mut impl Iterator<Item = &'a str>,
) -> Result<Vector3, QuarchitectError> {
    comps.next();
    let point = parse_vector(comps)?;
    comps.next();
    Ok(point)
}

// Brush Plane
#[derive'''), (BP, '''                let ux: f32 = parse_next(&mut comps)?;
                let uy: f32 = parse_next(&mut comps)?;
                let uz: f32 = parse_next(&mut comps)?;
                let uo''', '''                let u_axis = parse_vector(&mut comps)?;
                let uo'''), (BP, '''                let vx: f32 = parse_next(&mut comps)?;
                let vy: f32 = parse_next(&mut comps)?;
                let vz: f32 = parse_next(&mut comps)?;
                let vo''', '''                let v_axis = parse_vector(&mut comps)?;
                let vo'''), (BP, '''UV::valve(Vector3::new(ux, uy, uz), uo, Vector3::new(vx, vy, vz), vo)''', '''UV::valve(u_axis, uo, v_axis, vo)'''))
ref('r79-face-slices', (BP, '''        let extra_comps: Vec<&str> = comps.collect();
        let extra = match extra_comps.len() {
            0 => ExtraData::None,
            1 => ExtraData::Hexen2(parse_next(&mut extra_comps.into_iter())?),
            3 => ExtraData::quake_2(extra_comps)?,
            6 => ExtraData::daikatana(extra_comps)?,
            _ => return Err(QuarchitectError("Unrecognized extra data")),
        };
''', '''        let extra_comps: Vec<&str> = comps.collect();
        let extra = match extra_comps.as_slice() {
            [] => ExtraData::None,
            [light] => {
                let light = light
                    .parse()
                    .map_err(|_| QuarchitectError("Failed to parse brush plane number"))?;
                ExtraData::Hexen2(light)
            }
            [_, _, _] => ExtraData::quake_2(extra_comps)?,
            [_, _, _, _, _, _] => ExtraData::daikatana(extra_comps)?,
            _ => return Err(QuarchitectError("Unrecognized extra data")),
        };
'''))
# geometry
ref('r80-tangent-arr', (GEO + 'brush_plane/tangents.rs', '''    let du = brush_plane.normal().dot(up_vector);
    let dr = brush_plane.normal().dot(right_vector);
    let df = brush_plane.normal().dot(forward_vector);

    let du_abs = du.abs();
    let dr_abs = dr.abs();
    let df_abs = df.abs();
''', '''    let normal = brush_plane.normal();
    let (du, dr, df) = (
        normal.dot(up_vector),
        normal.dot(right_vector),
        normal.dot(forward_vector),
    );
    let (du_abs, dr_abs, df_abs) = (du.abs(), dr.abs(), df.abs());
'''), (GEO + 'brush_plane/tangents.rs', '''    (
        crate::Quat::from_axis_angle(brush_plane.normal(), -brush_plane.rotation.to_radians() * s) * v,
        s * brush_plane.scale.y().signum(),
    )''', '''    let angle = -brush_plane.rotation.to_radians() * s;
    let rotation = crate::Quat::from_axis_angle(normal, angle);
    let handedness = s * brush_plane.scale.y().signum();

    (rotation * v, handedness)'''))
ref('r81-tangent-match', (GEO + 'brush_plane/tangents.rs', '''        UV::Quake(_uv) => standard_tangent(brush_plane),
        UV::Valve(_uv) => valve_tangent(brush_plane),''', '''        UV::Quake(_) => standard_tangent(brush_plane),
        UV::Valve(uv) => valve_tangent(brush_plane, uv),'''), (GEO + 'brush_plane/tangents.rs', '''fn valve_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
    if let UV::Valve(uv) = &brush_plane.uv {
        let v_sign = -brush_plane
            .normal()
            .cross(uv.u_axis)
            .dot(uv.v_axis)
            .signum();
        (uv.u_axis, v_sign)
    } else {
        panic!("Not a valve UV");
    }
}''', '''fn valve_tangent(brush_plane: &BrushPlane, uv: &crate::map::ValveUV) -> (Vector3, f32) {
    let side = brush_plane.normal().cross(uv.u_axis);
    let v_sign = side.dot(uv.v_axis).signum();
    (uv.u_axis, -v_sign)
}'''), ('src/map/mod.rs', '''pub use types::UV;''', '''pub use types::{ValveUV, UV};'''), ('src/map/types/mod.rs', '''pub use uv::UV;''', '''pub use uv::{ValveUV, UV};'''))
ref('r82-uv-merged', (GEO + 'brush_plane/uvs.rs', '''    let (x, y);
    if du >= dr && du >= df {
        x = vertex.x();
        y = -vertex.y();
    } else if dr >= du && dr >= df {
        x = vertex.x();
        y = -vertex.z();
    } else {
        x = vertex.y();
        y = -vertex.z();
    }


    let rot = crate::Mat2::from_angle(brush_plane.rotation.to_radians());

    let uv = rot * Vector2::new(x, y);

    let uv = uv / texture.size();
    let uv = uv / brush_plane.scale;

    let mut uv = uv;
    if let UV::Quake(standard_uv) = &brush_plane.uv {
        uv += Vector2::new(standard_uv.u, standard_uv.v) / texture.size();
    } else {
        panic!("Not a standard UV");
    }

    uv''', '''    let projected = if du >= dr && du >= df {
        Vector2::new(vertex.x(), -vertex.y())
    } else if dr >= du && dr >= df {
        Vector2::new(vertex.x(), -vertex.z())
    } else {
        Vector2::new(vertex.y(), -vertex.z())
    };

    let offset = match &brush_plane.uv {
        UV::Quake(standard_uv) => Vector2::new(standard_uv.u, standard_uv.v),
        UV::Valve(_) => panic!("Not a standard UV"),
    };

    let size = texture.size();
    let rotation = crate::Mat2::from_angle(brush_plane.rotation.to_radians());

    (rotation * projected) / size / brush_plane.scale + offset / size'''))
ref('r83-center-loop', (GEO + 'brush_plane/mod.rs', '''    let center: Vector3 = unique_vertices
        .iter()
        .fold(Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + next.vertex)
        / unique_vertices.len().max(1) as f32;

    let mut local_vertices = unique_vertices;
    for vertex in local_vertices.iter_mut() {
        vertex.vertex -= center;
    }
''', '''    let mut sum = Vector3::default();
    for vertex in &unique_vertices {
        sum += vertex.vertex;
    }
    let count = std::cmp::max(unique_vertices.len(), 1);
    let center: Vector3 = sum / count as f32;

    let local_vertices: Vec<Vertex> = unique_vertices
        .into_iter()
        .map(|mut vertex| {
            vertex.vertex -= center;
            vertex
        })
        .collect();
'''), (GEO + 'brush_plane/mod.rs', '''    let mut world_vertices = wound_vertices;
    for vertex in world_vertices.iter_mut() {
        vertex.vertex += center;
    }

    let indices: Vec<usize> = if world_vertices.len() < 3 {
        Vec::new()
    } else {
        (0..world_vertices.len() - 2)
            .flat_map(|i| vec![0, i + 1, i + 2])
            .collect()
    };

    let texture = match texture_info {
        Some(_texture) => Some(plane.texture.clone()),
        None => None,
    };
''', '''    let mut world_vertices = wound_vertices;
    world_vertices
        .iter_mut()
        .for_each(|vertex| vertex.vertex += center);

    let texture = texture_info.map(|_| plane.texture.clone());
    let indices = triangle_fan(world_vertices.len());
'''), (GEO + 'brush_plane/mod.rs', '''fn build_plane_vertex(''', '''fn triangle_fan(vertex_count: usize) -> Vec<usize> {
    let mut indices = Vec::new();
    for i in 2..vertex_count {
        indices.push(0);
        indices.push(i - 1);
        indices.push(i);
    }
    indices
}

fn build_plane_vertex('''))
ref('r84-winding-fn', (GEO + 'brush_plane/mod.rs', '''    wound_vertices.sort_by(|a, b| {
        let vert_a = a.vertex;
        let vert_b = b.vertex;

        let lhs_pu = vert_a.dot(u_axis);
        let lhs_pv = vert_a.dot(v_axis);

        let rhs_pu = vert_b.dot(u_axis);
        let rhs_pv = vert_b.dot(v_axis);

        let lhs_angle = lhs_pv.atan2(lhs_pu);
        let rhs_angle = rhs_pv.atan2(rhs_pu);

        rhs_angle.total_cmp(&lhs_angle)
    });
''', '''    let angle = |vertex: &Vertex| {
        vertex
            .vertex
            .dot(v_axis)
            .atan2(vertex.vertex.dot(u_axis))
    };
    wound_vertices.sort_by(|a, b| angle(a).total_cmp(&angle(b)).reverse());
'''))
ref('r85-phong-early', (GEO + 'brush_plane/normals.rs', '''    if let Some("1") = entity.get_property("_phong") {
        return phong_normal(p0, p1, p2, entity.get_property("_phong_angle"));
    }

    p0.normal()''', '''    let phong = entity.get_property("_phong") == Some("1");
    if !phong {
        return p0.normal();
    }

    let phong_angle = entity
        .get_property("_phong_angle")
        .and_then(|angle| angle.parse().ok());
    phong_normal(p0, p1, p2, phong_angle)'''), (GEO + 'brush_plane/normals.rs', '''    phong_angle: Option<&str>,
) -> Vector3 {
    if let Some(phong_angle) = phong_angle {
        if let Ok(phong_angle) = phong_angle.parse::<f32>() {
            let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
            let mut normal = p0.normal();
            if p0.normal().dot(p1.normal()) > threshold {
                normal += p1.normal()
            }
            if p0.normal().dot(p2.normal()) > threshold {
                normal += p2.normal()
            }
            return normal.normalize();
        }
    }

    (p0.normal() + p1.normal() + p2.normal()).normalize()''', '''    phong_angle: Option<f32>,
) -> Vector3 {
    let n0 = p0.normal();
    let mut normal = n0;
    match phong_angle {
        Some(phong_angle) => {
            let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
            for neighbour in &[p1, p2] {
                let n = neighbour.normal();
                if n0.dot(n) > threshold {
                    normal += n;
                }
            }
        }
        None => {
            normal += p1.normal();
            normal += p2.normal();
        }
    }
    normal.normalize()'''))
ref('r86-hull-skip', (GEO + 'brush_plane/vertices.rs', '''    for brush_plane in hull {
        let proj = brush_plane.normal().dot(vertex);
        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
            return false;
        }
    }
    true''', '''    let outside = |brush_plane: &BrushPlane| {
        let proj = brush_plane.normal().dot(vertex);
        let dist = brush_plane.dist();
        proj > dist && proj - dist > CMP_EPSILON
    };

    !hull.iter().any(outside)'''))
ref('r87-entity-center', (GEO + 'entity/mod.rs', '''            let mut comps = origin.split(' ');
            let x: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            let y: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            let z: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            Vector3::new(x, y, z)''', '''            let mut comps = origin
                .split(' ')
                .map(|comp| comp.parse::<f32>().unwrap_or(0.0));
            let x = comps.next().unwrap_or(0.0);
            let y = comps.next().unwrap_or(0.0);
            let z = comps.next().unwrap_or(0.0);
            Vector3::new(x, y, z)'''))
ref('r88-build-vertex-question', (GEO + 'brush_plane/mod.rs', '''    if let Some(vertex) = vertices::intersect_brush_planes(plane, p1, p2) {
        if vertices::vertex_in_hull(vertex, planes) {
            let normal = normals::vertex_normal(entity, plane, p1, p2);
            let tangent = tangents::vertex_tangent(plane);

            let uv = match &texture_info {
                Some(texture) => Some(uvs::vertex_uv(vertex, plane, texture)),
                None => None,
            };

            let color = match &plane.extra {
                crate::map::quake::ExtraData::Daikatana(_surface_data, color) => Some(*color),
                _ => None,
            };

            return Some(Vertex::new(vertex, normal, tangent, uv, color));
        }
    }

    None''', '''    let vertex = vertices::intersect_brush_planes(plane, p1, p2)
        .filter(|vertex| vertices::vertex_in_hull(*vertex, planes))?;

    Some(Vertex {
        vertex,
        normal: normals::vertex_normal(entity, plane, p1, p2),
        tangent: tangents::vertex_tangent(plane),
        uv: texture_info.map(|texture| uvs::vertex_uv(vertex, plane, texture)),
        color: if let crate::map::quake::ExtraData::Daikatana(_, color) = plane.extra {
            Some(color)
        } else {
            None
        },
    })'''))
ref('r89-layer-partition', (LF, '''        .partition(|(entity, _)| match entity.get_property("classname") {
            Some(class_name) => class_name == "worldspawn",
            None => false,
        });''', '''        .partition(|(entity, _)| is_worldspawn(entity));'''), (LF, '''fn brush_geometry_by_layer(''', '''fn is_worldspawn(entity: &map::quake::Entity) -> bool {
    entity.get_property("classname") == Some("worldspawn")
}

fn brush_geometry_by_layer('''), (LF, '''            .all(|plane_geometry| match &plane_geometry.texture {
                Some(texture) => texture.as_str() == layer,
                None => false,
            })''', '''            .all(|plane_geometry| plane_geometry.texture.as_deref() == Some(layer))'''))
ref('r90-layer-flat', (LF, '''        worldspawn_geometry.brush_geometry = worldspawn_brush_geo;
        worldspawn_entity_data.insert(0, (worldspawn_entity, worldspawn_geometry));
    }

    let entity_data = worldspawn_entity_data
        .into_iter()
        .chain(entity_data.into_iter())
        .collect();

    Ok((entity_data, worldspawn_layers))''', '''        worldspawn_geometry.brush_geometry = worldspawn_brush_geo;
        worldspawn_entity_data.push((worldspawn_entity, worldspawn_geometry));
    }

    let mut all_entity_data = worldspawn_entity_data;
    all_entity_data.extend(entity_data);

    Ok((all_entity_data, worldspawn_layers))'''))
# wad
ref('r91-wad-seek-read', (WAD, '''            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(entry.offset as u64)) {
                return Err(format!("Error seeking to miptex: {:?}", err));
            }

            let mut miptex_buf = [0u8; MIPTEX_BYTES];
            if let Err(err) = wad_file.read_exact(&mut miptex_buf) {
                return Err(format!("Error reading miptex: {:?}", err));
            }

            let miptex = match mip_texture::parser(&miptex_buf) {
                Ok((_, entry)) => entry,
                Err(err) => return Err(format!("Error parsing miptex: {:?}", err)),
            };

            Ok(miptex)''', '''            let mut miptex_buf = [0u8; MIPTEX_BYTES];
            wad_file
                .seek(std::io::SeekFrom::Start(u64::from(entry.offset)))
                .map_err(|err| format!("Error seeking to miptex: {:?}", err))?;
            wad_file
                .read_exact(&mut miptex_buf)
                .map_err(|err| format!("Error reading miptex: {:?}", err))?;

            mip_texture::parser(&miptex_buf)
                .map(|(_, miptex)| miptex)
                .map_err(|err| format!("Error parsing miptex: {:?}", err))'''))
ref('r92-wad-level-helper', (WAD, '''            let mip1 = if mip_levels > 1 {
                let mip1_buf = &mipdata_buf[size0..size0 + size1];
                let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                    Ok(mip_level) => mip_level,
                    Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
                };
                Some(mip1)
            } else {
                None
            };

            let mip2 = if mip_levels > 2 {
                let mip2_buf = &mipdata_buf[size0 + size1..size0 + size1 + size2];
                let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                    Ok(mip_level) => mip_level,
                    Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
                };
                Some(mip2)
            } else {
                None
            };
''', '''            let mip1 = if mip_levels > 1 {
                Some(parse_level(1, &mipdata_buf[size0..][..size1])?)
            } else {
                None
            };

            let mip2 = if mip_levels >= 3 {
                let start = size0 + size1;
                Some(parse_level(2, &mipdata_buf[start..start + size2])?)
            } else {
                None
            };
'''), (WAD, '''fn read_mip_data(''', '''fn parse_level(level: usize, buf: &[u8]) -> Result<mip_level::MipLevel, String> {
    match mip_level::parser(buf.len())(buf) {
        Ok((_, mip_level)) => Ok(mip_level),
        Err(err) => Err(format!("Error parsing mip level {}: {:?}", level, err)),
    }
}

fn read_mip_data('''))
ref('r93-wad-palette-helper', (WAD, '''            let palette;
            match wad_type {
                WadType::WAD2 => palette = None,
                WadType::WAD3 => {
                    if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                    )) {
                        return Err(format!("Error seeking to texture palette: {:?}", err));
                    }

                    let mut palette_buf = vec![0u8; 256 * 3];

                    if let Err(err) = wad_file.read_exact(&mut palette_buf) {
                        return Err(format!("Error reading texture palette: {:?}", err));
                    }

                    let (_, texture_palette) = match palette::parser(&palette_buf) {
                        Ok(texture_palette) => texture_palette,
                        Err(err) => {
                            return Err(format!("Error parsing texture palette: {:?}", err))
                        }
                    };

                    palette = Some(texture_palette);
                }
            }
''', '''            let palette = if wad_type == WadType::WAD3 {
                let offset = entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2;
                Some(read_texture_palette(&mut wad_file, offset)?)
            } else {
                None
            };
'''), (WAD, '''fn read_mip_data(''', '''fn read_texture_palette(wad_file: &mut File, offset: u64) -> Result<Palette, String> {
    if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
        return Err(format!("Error seeking to texture palette: {:?}", err));
    }

    let mut palette_buf = [0u8; 256 * 3];
    if let Err(err) = wad_file.read_exact(&mut palette_buf) {
        return Err(format!("Error reading texture palette: {:?}", err));
    }

    match palette::parser(&palette_buf) {
        Ok((_, palette)) => Ok(palette),
        Err(err) => Err(format!("Error parsing texture palette: {:?}", err)),
    }
}

fn read_mip_data('''))
ref('r94-wad-results-collect', (WAD, '''    let mip_data: Vec<Result<(MipDataIndexed, Option<Palette>), String>> = directory''', '''    let mip_data: Vec<Result<(MipDataIndexed, Option<Palette>), String>> = directory'''), (WAD, '''            Ok((mipdata, palette))
        })
        .collect();

    if let Some(err) = mip_data.iter().find_map(|res| match res {
        Err(err) => Some(err),
        _ => None,
    }) {
        return Err(err.clone());
    }

    let mip_data = mip_data
        .into_iter()
        .flat_map(|mip_data| match mip_data {
            Ok(mip_data) => Some(mip_data),
            _ => None,
        })
        .collect();

    Ok(mip_data)''', '''            Ok((mipdata, palette))
        })
        .collect();

    mip_data.into_iter().collect()'''))
ref('r95-wad-textures-loop', (WAD, '''    let result: Vec<TextureIndexed> = mip_textures
        .into_iter()
        .zip(mip_data.into_iter())
        .map(|(mip_texture, (mip_data, palette))| {
            TextureIndexed::new(mip_texture, mip_data, palette)
        })
        .collect();

    Ok(result)''', '''    let mut textures = Vec::with_capacity(mip_textures.len());
    for (mip_texture, (mip_data, palette)) in mip_textures.into_iter().zip(mip_data) {
        textures.push(TextureIndexed {
            mip_texture,
            mip_data,
            palette,
        });
    }
    Ok(textures)'''), (WAD, '''    let wad_type = match header.magic {
        ['W', 'A', 'D', '2'] => WadType::WAD2,
        ['W', 'A', 'D', '3'] => WadType::WAD3,
        _ => return Err(format!("Unexpected WAD magic: {:?}", header.magic)),
    };
''', '''    let wad_type = if header.magic == ['W', 'A', 'D', '2'] {
        WadType::WAD2
    } else if header.magic == ['W', 'A', 'D', '3'] {
        WadType::WAD3
    } else {
        return Err(format!("Unexpected WAD magic: {:?}", header.magic));
    };
'''))
ref('r96-wad-names', ('src/wad/entry.rs', '''    let name: String = name
        .into_iter()
        .take_while(|c| *c != char::from(0))
        .collect();
''', '''    let mut entry_name = String::new();
    for c in name {
        if c == '\\0' {
            break;
        }
        entry_name.push(c);
    }
    let name = entry_name;
'''), ('src/wad/mip_texture.rs', '''    let name: String = name
        .into_iter()
        .take_while(|c| *c != char::from(0))
        .collect();

    let name = name.to_lowercase();
''', '''    let name = name
        .into_iter()
        .take_while(|c| *c != '\\0')
        .collect::<String>()
        .to_lowercase();
'''))
ref('r97-wad-rgb-loop', ('src/wad/mip_data.rs', '''        let to_color = |MipLevel(mip_level)| mip_level.iter().map(|idx| palette[*idx as usize]).collect();

        let mip0 = to_color(mip_data.mip0);
        let mip1 = mip_data.mip1.map(to_color);
        let mip2 = mip_data.mip2.map(to_color);
        let mip3 = mip_data.mip3.map(to_color);
''', '''        let MipDataIndexed {
            mip0,
            mip1,
            mip2,
            mip3,
        } = mip_data;

        let mip0 = to_colors(mip0, palette);
        let mip1 = mip1.map(|mip| to_colors(mip, palette));
        let mip2 = mip2.map(|mip| to_colors(mip, palette));
        let mip3 = mip3.map(|mip| to_colors(mip, palette));
'''), ('src/wad/mip_data.rs', '''#[derive(Debug)]
pub struct MipDataRGB {''', '''fn to_colors(mip_level: MipLevel, palette: &[Color; 256]) -> Vec<Color> {
    let MipLevel(indices) = mip_level;
    let mut colors = Vec::with_capacity(indices.len());
    for index in indices {
        colors.push(palette[usize::from(index)]);
    }
    colors
}

#[derive(Debug)]
pub struct MipDataRGB {'''))
ref('r98-wad-palette', ('src/wad/palette.rs', '''    let palette_buf = match std::fs::read(palette_file) {
        Ok(palette_buf) => palette_buf,
        Err(err) => return Err(format!("Failed to load palette: {:?}", err)),
    };

    let (_, palette) = match parser(&palette_buf) {
        Ok(palette) => palette,
        Err(err) => return Err(format!("Failed to parse palette: {:?}", err)),
    };

    Ok(palette)''', '''    let palette_buf = std::fs::read(palette_file)
        .map_err(|err| format!("Failed to load palette: {:?}", err))?;

    parser(&palette_buf)
        .map(|(_rest, palette)| palette)
        .map_err(|err| format!("Failed to parse palette: {:?}", err))'''), ('src/wad/palette.rs', '''    let mut color_arr = [Color(0, 0, 0); 256];
    color_arr.copy_from_slice(&o);
    Ok((i, Palette(color_arr)))''', '''    let mut color_arr = [Color(0, 0, 0); 256];
    for (slot, color) in color_arr.iter_mut().zip(o) {
        *slot = color;
    }
    Ok((i, Palette(color_arr)))'''))
# fgd
ref('r99-fgd-choice-helper', (FORGE + 'property.rs', '''                let choices_string = choices.iter().fold("".to_string(), |acc, next| {
                    acc + &format!("\\t\\t{}\\n", next.to_string())
                });

                format!(
                    "{}(choices) : \\"{}\\" : \\"{}\\" =\\n\\t[\\n{}\\t]",
                    self.name,
                    self.short_description,
                    choices
                        .get(*default as usize)
                        .map(|choice| choice.value.to_string())
                        .unwrap_or_else(|| default.to_string()),
                    choices_string
                )''', '''                let mut choices_string = String::new();
                for choice in choices {
                    choices_string.push_str("\\t\\t");
                    choices_string.push_str(&choice.to_string());
                    choices_string.push('\\n');
                }

                let default_string = if let Some(choice) = choices.get(*default as usize) {
                    choice.value.to_string()
                } else {
                    default.to_string()
                };

                format!(
                    "{}(choices) : \\"{}\\" : \\"{}\\" =\\n\\t[\\n{}\\t]",
                    self.name, self.short_description, default_string, choices_string
                )'''))
ref('r100-fgd-line-helper', (FORGE + 'property.rs', '''            PropertyData::Integer(integer) => format!(
                "{}(integer) : \\"{}\\" : {} : \\"{}\\"",
                self.name, self.short_description, integer, self.long_description
            ),
            PropertyData::Float(float) => format!(
                "{}(float) : \\"{}\\" : {} : \\"{}\\"",
                self.name, self.short_description, float, self.long_description
            ),''', '''            PropertyData::Integer(integer) => self.line("integer", &integer.to_string()),
            PropertyData::Float(float) => self.line("float", &float.to_string()),'''), (FORGE + 'property.rs', '''            PropertyData::String(string) => format!(
                "{}(string) : \\"{}\\" : \\"{}\\" : \\"{}\\"",
                self.name, self.short_description, string, self.long_description
            ),''', '''            PropertyData::String(string) => self.line("string", &format!("\\"{}\\"", string)),'''), (FORGE + 'property.rs', '''impl Default for Property {''', '''impl Property {
    fn line(&self, kind: &str, value: &str) -> String {
        format!(
            "{}({}) : \\"{}\\" : {} : \\"{}\\"",
            self.name, kind, self.short_description, value, self.long_description
        )
    }
}

impl Default for Property {'''))
ref('r101-fgd-game-data', (FORGE + 'game_data.rs', '''        let entities = self.definitions.iter().fold(String::new(), |acc, next| {
            acc + &format!("{}\\n\\n", next.to_string())
        });

        let includes = self.includes.iter().fold(String::new(), |acc, next| {
            acc + &format!("@include \\"{}\\"\\n", next)
        });

        format!("// {}\\n\\n{}\\n{}", self.name, includes, entities)''', '''        let mut output = format!("// {}\\n\\n", self.name);
        for include in &self.includes {
            output += &format!("@include \\"{}\\"\\n", include);
        }
        output.push('\\n');
        for definition in &self.definitions {
            output += &definition.to_string();
            output += "\\n\\n";
        }
        output'''))
ref('r102-fgd-flags-map', (FORGE + 'property.rs', '''                let flags_string =
                    flags
                        .iter()
                        .enumerate()
                        .fold(String::new(), |acc, (i, next)| {
                            // Flags past the 32 bits of the value have no bit of their own
                            let bit = 1_u32.checked_shl(i as u32).unwrap_or(0);
                            acc + &format!(
                                "\\t\\t{} : \\"{}\\" : {}\\n",
                                bit,
                                next,
                                if *default as u32 & bit != 0 { 1 } else { 0 }
                            )
                        });''', '''                let mut flags_string = String::new();
                for (i, flag) in flags.iter().enumerate() {
                    // Flags past the 32 bits of the value have no bit of their own
                    let bit = match 1_u32.checked_shl(i as u32) {
                        Some(bit) => bit,
                        None => 0,
                    };
                    let set = (*default as u32) & bit != 0;
                    flags_string += &format!("\\t\\t{} : \\"{}\\" : {}\\n", bit, flag, set as i32);
                }'''))
ref('r103-fgd-metadata', (FORGE + 'metadata.rs', '''                    .fold(String::new(), |acc, next| if acc.is_empty() {
                        acc
                    } else {
                        acc + ", "
                    } + &next)''', '''                    .fold(String::new(), |mut acc, next| {
                        if !acc.is_empty() {
                            acc.push_str(", ");
                        }
                        acc.push_str(next);
                        acc
                    })'''), (FORGE + 'metadata.rs', '''            Metadata::Size(min, max) => std::format!(
                "size({}, {})",
                format!("{}, {}, {}", min.x(), min.y(), min.z()),
                format!("{}, {}, {}", max.x(), max.y(), max.z())
            ),''', '''            Metadata::Size(min, max) => {
                let corner = |v: &Vector3| format!("{}, {}, {}", v.x(), v.y(), v.z());
                format!("size({}, {})", corner(min), corner(max))
            }'''))
ref('r104-color-string', ('src/types/color.rs', '''        format!(
            "{} {} {}",
            (self.r * 255.0) as i32,
            (self.g * 255.0) as i32,
            (self.b * 255.0) as i32
        )''', '''        let to_byte = |component: f32| (component * 255.0) as i32;
        let (r, g, b) = (to_byte(self.r), to_byte(self.g), to_byte(self.b));
        format!("{} {} {}", r, g, b)'''))
ref('r105-enum-codes', ('src/game_data/types/collision_type.rs', '''impl Into<i64> for CollisionType {
    fn into(self) -> i64 {
        match self {
            CollisionType::None => 0,
            CollisionType::Convex => 1,
            CollisionType::Concave => 2,
        }
    }
}
''', '''impl From<CollisionType> for i64 {
    fn from(collision_type: CollisionType) -> i64 {
        collision_type as i64
    }
}
'''), ('src/game_data/types/visual_type.rs', '''        match i {
            0 => VisualType::None,
            1 => VisualType::Mesh,
            _ => panic!("Invalid visual type"),
        }''', '''        if i == 0 {
            return VisualType::None;
        }
        if i == 1 {
            return VisualType::Mesh;
        }
        panic!("Invalid visual type")'''))

# ---- third round
BPG = GEO + 'brush_plane/'

ref('r106-uv-axes-helper', (BPG + 'uvs.rs', '''    let (x, y);
    if du >= dr && du >= df {
        x = vertex.x();
        y = -vertex.y();
    } else if dr >= du && dr >= df {
        x = vertex.x();
        y = -vertex.z();
    } else {
        x = vertex.y();
        y = -vertex.z();
    }

''', '''    let projected = project(vertex, du, dr, df);
'''), (BPG + 'uvs.rs', '    let uv = rot * Vector2::new(x, y);', '    let uv = rot * projected;'),
    (BPG + 'uvs.rs', 'fn valve_uv(', '''fn project(vertex: Vector3, du: f32, dr: f32, df: f32) -> Vector2 {
    if du >= dr && du >= df {
        return Vector2::new(vertex.x(), -vertex.y());
    }
    if dr >= du && dr >= df {
        return Vector2::new(vertex.x(), -vertex.z());
    }
    Vector2::new(vertex.y(), -vertex.z())
}

fn valve_uv('''))

ref('r107-uv-normal-once', (BPG + 'uvs.rs', '''    let du = brush_plane.normal().dot(up_vector).abs();
    let dr = brush_plane.normal().dot(right_vector).abs();
    let df = brush_plane.normal().dot(forward_vector).abs();
''', '''    let normal = brush_plane.normal();
    let (df, dr, du) = (
        normal.dot(forward_vector).abs(),
        normal.dot(right_vector).abs(),
        normal.dot(up_vector).abs(),
    );
'''), (BPG + 'uvs.rs', '''    let uv = uv / texture.size();
    let uv = uv / brush_plane.scale;

    let mut uv = uv;
    if let UV::Quake(standard_uv) = &brush_plane.uv {
        uv += Vector2::new(standard_uv.u, standard_uv.v) / texture.size();
    } else {
        panic!("Not a standard UV");
    }

    uv
''', '''    let size = texture.size();
    let offset = match &brush_plane.uv {
        UV::Quake(standard_uv) => Vector2::new(standard_uv.u, standard_uv.v),
        _ => panic!("Not a standard UV"),
    };

    uv / size / brush_plane.scale + offset / size
'''))

ref('r108-valve-uv-expr', (BPG + 'uvs.rs', '''        uv = Vector2::new(valve_uv.u_axis.dot(vertex), valve_uv.v_axis.dot(vertex));

        uv /= texture.size();
        uv /= brush_plane.scale;
        uv += Vector2::new(valve_uv.u_offset, valve_uv.v_offset) / texture.size();
''', '''        let offset = Vector2::new(valve_uv.u_offset, valve_uv.v_offset);
        let projected = Vector2::new(vertex.dot(valve_uv.u_axis), vertex.dot(valve_uv.v_axis));
        let size = texture.size();
        uv = offset / size + projected / size / brush_plane.scale;
'''))

ref('r109-tangent-helper', (BPG + 'tangents.rs', '''    let (v, s) = if du_abs >= dr_abs && du_abs >= df_abs {
        (forward_vector, du.signum())
    } else if dr_abs >= du_abs && dr_abs >= df_abs {
        (forward_vector, -dr.signum())
    } else {
        (right_vector, df.signum())
    };

    (
        crate::Quat::from_axis_angle(brush_plane.normal(), -brush_plane.rotation.to_radians() * s) * v,
        s * brush_plane.scale.y().signum(),
    )
''', '''    let v;
    let s;
    if du_abs >= dr_abs && du_abs >= df_abs {
        v = forward_vector;
        s = du.signum();
    } else if dr_abs >= du_abs && dr_abs >= df_abs {
        v = forward_vector;
        s = -dr.signum();
    } else {
        v = right_vector;
        s = df.signum();
    }

    let angle = brush_plane.rotation.to_radians();
    let rotation = crate::Quat::from_axis_angle(brush_plane.normal(), -angle * s);
    let handedness = s * brush_plane.scale.y().signum();
    (rotation * v, handedness)
'''))

ref('r110-tangent-hoisted', (BPG + 'mod.rs', '''    let plane_vertices: Vec<Vertex> = planes
''', '''    let tangent = tangents::vertex_tangent(plane);
    let plane_vertices: Vec<Vertex> = planes
'''), (BPG + 'mod.rs', '.flat_map(move |p2| build_plane_vertex(texture_info, entity, planes, plane, p1, p2))', '.flat_map(move |p2| build_plane_vertex(texture_info, entity, planes, plane, p1, p2, tangent))'),
    (BPG + 'mod.rs', '''    p2: &BrushPlane,
) -> Option<Vertex> {''', '''    p2: &BrushPlane,
    tangent: (Vector3, f32),
) -> Option<Vertex> {'''), (BPG + 'mod.rs', '            let tangent = tangents::vertex_tangent(plane);\n', ''))

ref('r111-winding-angles-first', (BPG + 'mod.rs', '''    let mut wound_vertices = local_vertices;
    wound_vertices.sort_by(|a, b| {
        let vert_a = a.vertex;
        let vert_b = b.vertex;

        let lhs_pu = vert_a.dot(u_axis);
        let lhs_pv = vert_a.dot(v_axis);

        let rhs_pu = vert_b.dot(u_axis);
        let rhs_pv = vert_b.dot(v_axis);

        let lhs_angle = lhs_pv.atan2(lhs_pu);
        let rhs_angle = rhs_pv.atan2(rhs_pu);

        rhs_angle.total_cmp(&lhs_angle)
    });

    let mut world_vertices = wound_vertices;
''', '''    let mut wound_vertices: Vec<(f32, Vertex)> = local_vertices
        .into_iter()
        .map(|vertex| (winding_angle(vertex.vertex, u_axis, v_axis), vertex))
        .collect();
    wound_vertices.sort_by(|(a, _), (b, _)| b.total_cmp(a));

    let mut world_vertices: Vec<Vertex> = wound_vertices.into_iter().map(|(_, v)| v).collect();
'''), (BPG + 'mod.rs', 'fn build_plane_vertex(', '''fn winding_angle(position: Vector3, u_axis: Vector3, v_axis: Vector3) -> f32 {
    let pu = position.dot(u_axis);
    let pv = position.dot(v_axis);
    pv.atan2(pu)
}

fn build_plane_vertex('''))

ref('r112-sort-world', (BPG + 'mod.rs', '''    let mut local_vertices = unique_vertices;
    for vertex in local_vertices.iter_mut() {
        vertex.vertex -= center;
    }
''', '''    let local_vertices: Vec<Vertex> = unique_vertices
        .into_iter()
        .map(|mut vertex| {
            vertex.vertex -= center;
            vertex
        })
        .collect();
'''), (BPG + 'mod.rs', '''    let u_axis = (plane.v1 - plane.v0).normalize();
    let v_axis = plane.normal().cross(u_axis);

''', '''    let edge = plane.v1 - plane.v0;
    let u_axis = edge.normalize();
    let v_axis = plane.normal().cross(u_axis);

'''))

ref('r113-texture-clone-if', (BPG + 'mod.rs', '''    let texture = match texture_info {
        Some(_texture) => Some(plane.texture.clone()),
        None => None,
    };
''', '''    let texture = texture_info.map(|_| plane.texture.clone());
'''), (BPG + 'mod.rs', '''            let uv = match &texture_info {
                Some(texture) => Some(uvs::vertex_uv(vertex, plane, texture)),
                None => None,
            };
''', '''            let uv = texture_info.map(|texture| uvs::vertex_uv(vertex, plane, texture));
'''))

ref('r114-entity-center-vec', (GEO + 'entity/mod.rs', '''            let mut comps = origin.split(' ');
            let x: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            let y: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            let z: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            Vector3::new(x, y, z)
''', '''            let comps: Vec<&str> = origin.split(' ').collect();
            let component = |i: usize| -> f32 {
                match comps.get(i) {
                    Some(comp) => comp.parse().unwrap_or(0.0),
                    None => 0.0,
                }
            };
            Vector3::new(component(0), component(1), component(2))
'''))

ref('r115-group-index', (SCENE, '''        let mut child_entities: Vec<SceneTreeNode> = entity_data
            .iter()
            .skip(1)
            .filter(|(child_entity, _geometry)| {
                let child_group = child_entity.properties.get("_tb_group");
                child_group.is_some() && child_group == tb_id
            })
            .flat_map(build_entity(
                quarchitect_game_data,
                forge_game_data,
                texture_blacklist,
                entity_data,
                -entity_geometry.center,
                child_ancestor_ids,
            ))
            .collect();

        children.append(&mut child_entities);
''', '''        let build_child = build_entity(
            quarchitect_game_data,
            forge_game_data,
            texture_blacklist,
            entity_data,
            -entity_geometry.center,
            child_ancestor_ids,
        );
        for child in entity_data.iter().skip(1) {
            match (child.0.properties.get("_tb_group"), tb_id) {
                (Some(group), Some(id)) if group == id => children.extend(build_child(child)),
                _ => (),
            }
        }
'''))

ref('r116-definition-helper', (SCENE, '''fn get_entity_type(
    quarchitect_game_data: &crate::game_data::GameData,
    entity: &Entity,
) -> EntityType {
    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.entity_type.clone()
                    }
                },
                None => EntityType::Placeholder,
            }
        }
        None => EntityType::Placeholder,
    }
}
''', '''fn get_point_data<'a>(
    quarchitect_game_data: &'a crate::game_data::GameData,
    entity: &Entity,
) -> Option<&'a crate::game_data::PointData> {
    let classname = entity.properties.get("classname")?;
    let definition = quarchitect_game_data
        .entities
        .iter()
        .find(|entity_definition| &entity_definition.classname == classname)?;
    match &definition.data {
        crate::game_data::EntityData::Point(point_data)
        | crate::game_data::EntityData::Brush(point_data, _) => Some(point_data),
    }
}

fn get_entity_type(
    quarchitect_game_data: &crate::game_data::GameData,
    entity: &Entity,
) -> EntityType {
    get_point_data(quarchitect_game_data, entity)
        .map_or(EntityType::Placeholder, |point_data| point_data.entity_type.clone())
}
'''), (SCENE, '''    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        match &point_data.component_type {
                            ComponentType::Script(component) => Some(component.to_string()),
                            ComponentType::None => None,
                        }
                    }
                },
                None => None,
            }
        }
        None => None,
    }
}
''', '''    match &get_point_data(quarchitect_game_data, entity)?.component_type {
        ComponentType::Script(component) => Some(component.to_string()),
        ComponentType::None => None,
    }
}
'''))

ref('r117-parse-three', (SCENE, '''fn parse_vector3_property(value: &str) -> Option<Vector3> {
    let mut comps = value.split(' ');

    let x: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let y: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let z: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    Some(Vector3::new(x, y, z))
}

fn parse_color_property(value: &str) -> Option<Color> {
    let mut comps = value.split(' ');

    let r: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let g: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let b: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    Some(Color::new(r, g, b))
}
''', '''fn parse_three(value: &str) -> Option<[f32; 3]> {
    let mut comps = value.split(' ');
    let mut result = [0.0; 3];
    for slot in result.iter_mut() {
        *slot = parse_float(&mut comps)?;
    }
    Some(result)
}

fn parse_vector3_property(value: &str) -> Option<Vector3> {
    parse_three(value).map(|c| Vector3::new(c[0], c[1], c[2]))
}

fn parse_color_property(value: &str) -> Option<Color> {
    let [r, g, b] = parse_three(value)?;
    Some(Color::new(r, g, b))
}
'''))

ref('r118-layer-early-return', (SCENE, '''        let mut name: String = String::new();
        let mut actor_type = EntityType::Placeholder;
        let mut component_class = None;
        let property_application_type = PropertyApplicationType::Properties;
        let properties = Properties::default();
        let mut children: Vec<SceneTreeNode> = Vec::new();

        if layer_data.len() == 1 {
            let layer_data: &WorldspawnLayer = layer_data[0];
            name = layer_data.name.clone();
            actor_type = layer_data.entity_type.clone();
            component_class = match &layer_data.component_type {
                ComponentType::Script(script_class) => Some(script_class.clone()),
                ComponentType::None => None,
            };

            let visual_geometry =
                get_worldspawn_layer_visual_geometry(layer_data, layer_texture, brush_geometry);
            match visual_geometry {
                VisualGeometry::None => (),
                _ => children.push(SceneTreeNode::visual_geometry(
                    Vector3::default(),
                    visual_geometry,
                )),
            }

            let collision_geometry =
                get_worldspawn_layer_collision_geometry(layer_data, brush_geometry);
            match collision_geometry {
                CollisionGeometry::None => (),
                _ => children.push(SceneTreeNode::collision_geometry(
                    Vector3::default(),
                    get_worldspawn_layer_collision_geometry(layer_data, brush_geometry),
                )),
            }
        } else {
            println!(
                "Worldspawn layer data for texture {:?} is not a singleton",
                layer_texture
            );
        }

        if children.is_empty() {
            return None;
        }

        Some(SceneTreeNode::entity(
            name,
            Vector3::default(),
            actor_type,
            component_class,
            property_application_type,
            properties,
            children,
        ))
''', '''        if layer_data.len() != 1 {
            println!(
                "Worldspawn layer data for texture {:?} is not a singleton",
                layer_texture
            );
            return None;
        }

        let layer_data: &WorldspawnLayer = layer_data[0];
        let mut children: Vec<SceneTreeNode> = Vec::new();

        match get_worldspawn_layer_visual_geometry(layer_data, layer_texture, brush_geometry) {
            VisualGeometry::None => (),
            visual => children.push(SceneTreeNode::visual_geometry(Vector3::default(), visual)),
        }

        match get_worldspawn_layer_collision_geometry(layer_data, brush_geometry) {
            CollisionGeometry::None => (),
            collision => {
                children.push(SceneTreeNode::collision_geometry(Vector3::default(), collision))
            }
        }

        if children.is_empty() {
            return None;
        }

        let component_class = match &layer_data.component_type {
            ComponentType::Script(script_class) => Some(script_class.clone()),
            ComponentType::None => None,
        };

        Some(SceneTreeNode::entity(
            layer_data.name.clone(),
            Vector3::default(),
            layer_data.entity_type.clone(),
            component_class,
            PropertyApplicationType::Properties,
            Properties::default(),
            children,
        ))
'''))

ref('r119-surface-loop', (SCENE, '''        let verts: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();
        let normals: Vec<Vector3> = vertices.iter().map(|vertex| vertex.normal).collect();
        let tangents: Vec<(Vector3, f32)> = vertices.iter().map(|vertex| vertex.tangent).collect();
''', '''        let mut verts: Vec<Vector3> = Vec::with_capacity(vertices.len());
        let mut normals: Vec<Vector3> = Vec::with_capacity(vertices.len());
        let mut tangents: Vec<(Vector3, f32)> = Vec::with_capacity(vertices.len());
        for vertex in &vertices {
            verts.push(vertex.vertex);
            normals.push(vertex.normal);
            tangents.push(vertex.tangent);
        }
'''))

ref('r120-convex-dedupe-loop', (SCENE, '''            let points: Vec<Vector3> = points
                .iter()
                .enumerate()
                .flat_map(|(i, vertex)| {
                    if points
                        .iter()
                        .skip(i + 1)
                        .find(|comp| vertex == *comp)
                        .is_none()
                    {
                        Some(*vertex)
                    } else {
                        None
                    }
                })
                .collect();

            ConvexCollision::new(brush_geometry.center, points)
''', '''            let mut unique_points: Vec<Vector3> = Vec::new();
            for (i, point) in points.iter().enumerate() {
                if !points[i + 1..].contains(point) {
                    unique_points.push(*point);
                }
            }

            ConvexCollision::new(brush_geometry.center, unique_points)
'''))

ref('r121-plane-points-array', (BP, '''        let mut v0 = Vector3::new(0.0, 0.0, 0.0);
        let mut v1 = Vector3::new(0.0, 0.0, 0.0);
        let mut v2 = Vector3::new(0.0, 0.0, 0.0);

        for i in 0..3 {
            comps.next();
            let x: f32 = parse_next(&mut comps)?;
            let y: f32 = parse_next(&mut comps)?;
            let z: f32 = parse_next(&mut comps)?;
            comps.next();

            let v = match i {
                0 => &mut v0,
                1 => &mut v1,
                2 => &mut v2,
                _ => panic!(),
            };

            v.set_x(x);
            v.set_y(y);
            v.set_z(z);
        }
''', '''        let v0 = parse_point(&mut comps)?;
        let v1 = parse_point(&mut comps)?;
        let v2 = parse_point(&mut comps)?;
'''), (BP, '''// Brush Plane
''', '''fn parse_point<'a>(
    comps: &mut impl Iterator<Item = &'a str>,
) -> Result<Vector3, QuarchitectError> {
    comps.next();
    let x = parse_next(comps)?;
    let y = parse_next(comps)?;
    let z = parse_next(comps)?;
    comps.next();
    Ok(Vector3::new(x, y, z))
}

// Brush Plane
'''))

ref('r122-extra-question', (BP, '''        let surface_contents: i32 = match comps[0].parse() {
            Ok(surface_contents) => surface_contents,
            Err(_err) => return Err(QuarchitectError("Failed to parse surface contents")),
        };

        let surface_flags: i32 = match comps[1].parse() {
            Ok(surface_flags) => surface_flags,
            Err(_err) => return Err(QuarchitectError("Failed to parse surface flags")),
        };
''', '''        let surface_contents: i32 = comps[0]
            .parse()
            .map_err(|_| QuarchitectError("Failed to parse surface contents"))?;

        let surface_flags: i32 = comps[1]
            .parse()
            .or(Err(QuarchitectError("Failed to parse surface flags")))?;
'''))

ref('r123-normal-swapped', (BP, '''        let v0v1 = self.v1 - self.v0;
        let v0v2 = self.v2 - self.v0;
        v0v2.cross(v0v1).normalize()
''', '''        let [a, b] = [self.v2 - self.v0, self.v1 - self.v0];
        let perpendicular = a.cross(b);
        perpendicular.normalize()
'''), (BP, '''        let n = self.normal();
        n.dot(self.v0)
''', '''        self.v0.dot(self.normal())
'''))

ref('r124-parser-helpers', (PARSER, '''            Token::CloseBrace => match scope {
                ParseScope::File => return Err(QuarchitectError("Close brace in file scope")),
                ParseScope::Entity(_entity_id) => scope = ParseScope::file(),
                ParseScope::Brush(brush_path) => scope = ParseScope::entity(brush_path.entity_idx),
            },
''', '''            Token::CloseBrace => scope = close_scope(scope)?,
'''), (PARSER, '''pub fn run(
    tokens''', '''fn close_scope(scope: ParseScope) -> Result<ParseScope, QuarchitectError> {
    match scope {
        ParseScope::File => Err(QuarchitectError("Close brace in file scope")),
        ParseScope::Entity(_) => Ok(ParseScope::file()),
        ParseScope::Brush(brush_path) => Ok(ParseScope::entity(brush_path.entity_idx)),
    }
}

pub fn run(
    tokens'''))

ref('r125-parser-idx', (PARSER, '''                    entities
                        .last_mut()
                        .unwrap()
                        .properties
                        .insert(k.clone(), v.clone());
''', '''                    entities[entity_path.entity_idx]
                        .properties
                        .insert(k.clone(), v.clone());
'''))

ref('r126-tokenizer-classify', ('src/map/quake/tokenizer.rs', '''            Some('{') => Ok(Token::OpenBrace),
            Some('}') => Ok(Token::CloseBrace),
            Some('(') => Ok(Token::brush_plane(&line)),
            _ => Ok(Token::unrecognized(&line)),
''', '''            _ => Ok(classify(line)),
'''), ('src/map/quake/tokenizer.rs', '''pub fn run(file_string: String)''', '''fn classify(line: &str) -> Token {
    if line.starts_with('{') {
        Token::OpenBrace
    } else if line.starts_with('}') {
        Token::CloseBrace
    } else if line.starts_with('(') {
        Token::brush_plane(line)
    } else {
        Token::unrecognized(line)
    }
}

pub fn run(file_string: String)'''))

ref('r127-layer-all-loop', (LF, '''        brush_geometry
            .plane_geometry
            .iter()
            .all(|plane_geometry| match &plane_geometry.texture {
                Some(texture) => texture.as_str() == layer,
                None => false,
            })
''', '''        for plane_geometry in &brush_geometry.plane_geometry {
            if plane_geometry.texture.as_deref() != Some(layer) {
                return false;
            }
        }
        true
'''))

ref('r128-layer-worldspawn-loop', (LF, '''    let (mut worldspawn_entity_data, entity_data): (
        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
    ) = entity_data
        .into_iter()
        .partition(|(entity, _)| match entity.get_property("classname") {
            Some(class_name) => class_name == "worldspawn",
            None => false,
        });
''', '''    let mut worldspawn_entity_data = Vec::new();
    let mut other_entity_data = Vec::new();
    for data in entity_data {
        if data.0.get_property("classname") == Some("worldspawn") {
            worldspawn_entity_data.push(data);
        } else {
            other_entity_data.push(data);
        }
    }
    let entity_data = other_entity_data;
'''))

ref('r129-lib-helper', (LIB, '''    // Couple entities to their geometry
    let entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)> = entities
        .into_iter()
        .zip(entity_geometry.into_iter())
        .collect();
''', '''    // Couple entities to their geometry
    let mut entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)> =
        Vec::with_capacity(entities.len());
    for pair in entities.into_iter().zip(entity_geometry) {
        entity_data.push(pair);
    }
'''), (LIB, '''    let file_a_string = fs::read_to_string(file_a)?;
    let file_b_string = fs::read_to_string(file_b)?;

    let file_a_tokens = map::quake::tokenizer::run(file_a_string)?;
    let file_b_tokens = map::quake::tokenizer::run(file_b_string)?;
''', '''    let file_a_tokens = read_tokens(file_a)?;
    let file_b_tokens = read_tokens(file_b)?;
'''), (LIB, 'pub fn run_diff(', '''fn read_tokens(file: &str) -> Result<Vec<map::quake::tokenizer::Token>, Box<dyn Error>> {
    let text = fs::read_to_string(file)?;
    Ok(map::quake::tokenizer::run(text)?)
}

pub fn run_diff('''))

ref('r130-wad-read-at', (WAD, '''fn read_header(wad_file''', '''fn read_at(file: &mut File, offset: u64, buf: &mut [u8]) -> std::io::Result<()> {
    file.seek(std::io::SeekFrom::Start(offset))?;
    file.read_exact(buf)
}

fn read_header(wad_file'''), (WAD, '''            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(entry.offset as u64)) {
                return Err(format!("Error seeking to miptex: {:?}", err));
            }

            let mut miptex_buf = [0u8; MIPTEX_BYTES];
            if let Err(err) = wad_file.read_exact(&mut miptex_buf) {
                return Err(format!("Error reading miptex: {:?}", err));
            }
''', '''            let mut miptex_buf = [0u8; MIPTEX_BYTES];
            if let Err(err) = read_at(wad_file, entry.offset as u64, &mut miptex_buf) {
                return Err(format!("Error reading miptex: {:?}", err));
            }
'''))

ref('r131-wad-collect-result', (WAD, '''    let mip_textures: Vec<Result<MipTexture, String>> = directory
        .iter()
''', '''    directory
        .iter()
'''), (WAD, '''            Ok(miptex)
        })
        .collect();

    if let Some(err) = mip_textures.iter().find_map(|res| match res {
        Err(err) => Some(err),
        _ => None,
    }) {
        return Err(err.clone());
    }

    let mip_textures = mip_textures
        .into_iter()
        .flat_map(|mip_texture| match mip_texture {
            Ok(mip_texture) => Some(mip_texture),
            _ => None,
        })
        .collect();

    Ok(mip_textures)
}
''', '''            Ok(miptex)
        })
        .collect()
}
'''))

ref('r132-wad-palette-fn', (WAD, '''                    let mut palette_buf = vec![0u8; 256 * 3];

                    if let Err(err) = wad_file.read_exact(&mut palette_buf) {
                        return Err(format!("Error reading texture palette: {:?}", err));
                    }

                    let (_, texture_palette) = match palette::parser(&palette_buf) {
                        Ok(texture_palette) => texture_palette,
                        Err(err) => {
                            return Err(format!("Error parsing texture palette: {:?}", err))
                        }
                    };

                    palette = Some(texture_palette);
''', '''                    palette = Some(read_texture_palette(&mut wad_file)?);
'''), (WAD, '''fn read_header(wad_file''', '''fn read_texture_palette(wad_file: &mut File) -> Result<Palette, String> {
    let mut palette_buf = [0u8; 768];
    wad_file
        .read_exact(&mut palette_buf)
        .map_err(|err| format!("Error reading texture palette: {:?}", err))?;

    palette::parser(&palette_buf)
        .map(|(_, palette)| palette)
        .map_err(|err| format!("Error parsing texture palette: {:?}", err))
}

fn read_header(wad_file'''))

ref('r133-wad-mip-split', (WAD, '''            let mip0_buf = &mipdata_buf[..size0];

            let (_, mip0) = match mip_level::parser(size0)(mip0_buf) {
                Ok(mip_level) => mip_level,
                Err(err) => return Err(format!("Error parsing mip level 0: {:?}", err)),
            };
''', '''            let parse_level = |start: usize, size: usize| {
                mip_level::parser(size)(&mipdata_buf[start..start + size])
                    .map(|(_, level)| level)
                    .map_err(|err| format!("Error parsing mip level: {:?}", err))
            };
            let mip0 = parse_level(0, size0)?;
'''), (WAD, '''                let mip1_buf = &mipdata_buf[size0..size0 + size1];
                let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                    Ok(mip_level) => mip_level,
                    Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
                };
                Some(mip1)
''', '''                Some(parse_level(size0, size1)?)
'''))

ref('r134-entry-name-helper', ('src/wad/entry.rs', '''    let name: String = name
        .into_iter()
        .take_while(|c| *c != char::from(0))
        .collect();
''', '''    let name = super::until_nul(&name);
'''), ('src/wad/mip_texture.rs', '''    let name: String = name
        .into_iter()
        .take_while(|c| *c != char::from(0))
        .collect();

    let name = name.to_lowercase();
''', '''    let name = super::until_nul(&name).to_lowercase();
'''), (WAD, '''fn read_header(wad_file''', '''fn until_nul(chars: &[char]) -> String {
    let mut text = String::new();
    for c in chars {
        if *c == '\\0' {
            break;
        }
        text.push(*c);
    }
    text
}

fn read_header(wad_file'''))

ref('r135-header-fields', ('src/wad/header.rs', '''    let (i, o) = nom::sequence::tuple((wad_magic, le_u32, le_u32))(i)?;

    let (magic, num_entries, dir_offset) = o;
''', '''    let (i, magic) = wad_magic(i)?;
    let (i, num_entries) = le_u32(i)?;
    let (i, dir_offset) = le_u32(i)?;
'''))

ref('r136-rgb-loop', ('src/wad/mip_data.rs', '''        let to_color = |MipLevel(mip_level)| mip_level.iter().map(|idx| palette[*idx as usize]).collect();
''', '''        let to_color = |MipLevel(mip_level): MipLevel| {
            let mut colors: Vec<Color> = Vec::with_capacity(mip_level.len());
            for idx in mip_level {
                colors.push(palette[usize::from(idx)]);
            }
            colors
        };
'''))

ref('r137-fgd-push-str', (FORGE + 'game_data.rs', '''        let entities = self.definitions.iter().fold(String::new(), |acc, next| {
            acc + &format!("{}\\n\\n", next.to_string())
        });

        let includes = self.includes.iter().fold(String::new(), |acc, next| {
            acc + &format!("@include \\"{}\\"\\n", next)
        });

        format!("// {}\\n\\n{}\\n{}", self.name, includes, entities)
''', '''        let mut text = format!("// {}\\n\\n", self.name);
        for include in &self.includes {
            text.push_str("@include \\"");
            text.push_str(include);
            text.push_str("\\"\\n");
        }
        text.push('\\n');
        for definition in &self.definitions {
            text += &definition.to_string();
            text += "\\n\\n";
        }
        text
'''))

ref('r138-fgd-property-head', (FORGE + 'property.rs', '''            PropertyData::TargetSource => format!(
                "{}(target_source) : \\"{}\\" : : \\"{}\\"",
                self.name, self.short_description, self.long_description
            ),
            PropertyData::TargetDestination => format!(
                "{}(target_destination) : \\"{}\\" : : \\"{}\\"",
                self.name, self.short_description, self.long_description
            ),
''', '''            PropertyData::TargetSource => self.target("target_source"),
            PropertyData::TargetDestination => self.target("target_destination"),
'''), (FORGE + 'property.rs', '''impl Default for Property {''', '''impl Property {
    fn target(&self, kind: &str) -> String {
        let Property {
            name,
            short_description: short,
            long_description: long,
            ..
        } = self;
        format!("{}({}) : \\"{}\\" : : \\"{}\\"", name, kind, short, long)
    }
}

impl Default for Property {'''))

ref('r139-hull-any', (BPG + 'vertices.rs', '''    for brush_plane in hull {
        let proj = brush_plane.normal().dot(vertex);
        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
            return false;
        }
    }
    true
''', '''    !hull.iter().any(|brush_plane| {
        let dist = brush_plane.dist();
        let proj = vertex.dot(brush_plane.normal());
        proj > dist && proj - dist > CMP_EPSILON
    })
'''))

ref('r140-save-if-let', (FORGE + 'game_data.rs', '''        std::fs::write(file, self.to_string())?;
        Ok(())
''', '''        let text = self.to_string();
        std::fs::write(&file, text.as_bytes())
'''))
