"""The planted bugs: see plant.py."""
SEEDS = []


def bug(id, property, edits, needs, breaks, demo, more=''):
    SEEDS.append({'id': id, 'property': property, 'edits': edits, 'needs': needs, 'breaks': breaks,
                  'demo': demo, 'more': more})


BP = 'src/map/quake/types/brush_plane.rs'
PARSER = 'src/map/quake/parser.rs'
GEO = 'src/geo_builder/'
SCENE = 'src/scene_tree/mod.rs'
WAD = 'src/wad/mod.rs'
FORGE = 'src/game_data/forge/'

bug('b01-extra-arity', 'C01', [(BP, '            6 => ExtraData::daikatana(extra_comps)?,',
                                '            4..=6 => ExtraData::daikatana(extra_comps)?,')],
    'a face line with exactly four or five trailing tokens',
    'the colour components are indexed past the end of the list, so the map crashes the process instead of being rejected',
    '''
    let map = world(&brush(&face((0., 0., 0.), (0., 1., 0.), (1., 0., 0.), "stone 0 0 0 1 1 1 2 3 0.5")));
    let got = setup().run(&map).expect("a malformed face line crashed the process");
    assert!(got.is_err());
''')

bug('b02-property-in-brush', 'C02', [(PARSER, '''                ParseScope::Entity(entity_path) => {
                    let k = &p.key;
                    let v = &p.value;''', '''                ParseScope::Entity(EntityPath { entity_idx })
                | ParseScope::Brush(BrushPath { entity_idx, .. }) => {
                    let k = &p.key;
                    let v = &p.value;'''),
                                      (PARSER, 'TokenPath::property(entity_path.entity_idx, k.clone()),', 'TokenPath::property(*entity_idx, k.clone()),'),
                                      (PARSER, '''                ParseScope::Brush(_) => return Err(QuarchitectError("Property in brush scope")),
''', '')],
    'a key/value line inside a brush block',
    'the property is attributed to the entity instead of the map being rejected',
    '''
    let map = "{\\n\\"classname\\" \\"worldspawn\\"\\n{\\n\\"message\\" \\"hi\\"\\n}\\n}\\n";
    assert!(setup().run(map).expect("crashed").is_err());
''')

bug('b03-daikatana-green-blue', 'C03', [
    (BP, 'let g: f32 = match comps[4].parse() {', 'let g: f32 = match comps[5].parse() {'),
    (BP, 'let b: f32 = match comps[5].parse() {', 'let b: f32 = match comps[4].parse() {')],
    'a Daikatana face line whose green and blue differ',
    'green and blue are read from each other\'s place',
    '''
    let faces = box_faces((0., 0., 0.), (8., 8., 8.), ["stone 0 0 0 1 1 0 0 0 0.25 0.5 0.75"; 6]);
    let nodes = setup().nodes(&world(&brush(&faces)));
    let colors = surface(&nodes[0], "stone").colors.expect("colours");
    assert!(colors.iter().all(|c| *c == Color::new(0.25, 0.5, 0.75)), "{:?}", colors[0]);
''')

bug('b04-ascii-lowercase', 'C04', [('src/wad/mip_texture.rs', 'let name = name.to_lowercase();', 'let name = name.to_ascii_lowercase();')],
    'a texture name with an upper case letter outside ASCII',
    'the WAD texture name is not folded as the map\'s texture name is, so the two disagree',
    '''
    let mut l = lump("x", 4, 4, 1);
    l.tex_name = vec![b'W', 0xC4, b'L'];
    let path = file("a.wad", &wad_file("WAD3", &[l], &[0]));
    let t = wad::read_textures(&path, None, 1).ok().expect("readable");
    assert_eq!(t[0].mip_texture.name, "w\\u{e4}l");
''', '')

bug('b05-skip-empty-geometry', 'C05', [(GEO + 'mod.rs', '''        .iter()
        .map(|entity| entity::build(textures, entity))''', '''        .iter()
        .filter(|entity| !entity.brushes.is_empty() || entity.properties.contains_key("origin"))
        .map(|entity| entity::build(textures, entity))''')],
    'an entity with neither brushes nor an origin before another entity in the file',
    'geometry is not built for it, so every later entity is paired with the next one\'s geometry',
    '''
    let map = world(&unit(0., 0., 0., "stone"))
        + &ent(&[("classname", "info_null")], "")
        + &ent(&[("classname", "light"), ("origin", "1 2 3")], "")
        + &ent(&[("classname", "light"), ("origin", "4 5 6")], "");
    let nodes = setup().nodes(&map);
    assert_eq!(nodes.len(), 4);
    assert_eq!(xyz(nodes[2].origin), [1., 2., 3.]);
    assert_eq!(xyz(nodes[3].origin), [4., 5., 6.]);
''')

bug('b06-on-plane-is-inside', 'C06', [(GEO + 'brush_plane/vertices.rs', '''        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
            return false;
        }
''', '''        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
            return false;
        }
        if proj == brush_plane.dist() && brush_plane.extra != crate::map::quake::ExtraData::None {
            // Planes with surface data always bound the hull
            return true;
        }
''')],
    'a brush with a chamfered corner whose first faces carry trailing surface data',
    'a point on such a face is taken to be a corner even when a later face cuts it off',
    '''
    let d = "stone 0 0 0 1 1 0 0 0";
    let mut faces = box_faces((0., 0., 0.), (8., 8., 8.), [d; 6]);
    // cuts off the corner at (8, 8, 8)
    faces += &face((8., 8., 4.), (8., 4., 8.), (4., 8., 8.), d);
    let nodes = setup().nodes(&world(&brush(&faces)));
    let s = surface(&nodes[0], "stone");
    assert!(s.vertices.len() > 8);
    assert!(s.vertices.iter().all(|v| v.x() + v.y() + v.z() < 20.5));
''')

bug('b07-offset-from-triangles', 'C07', [(SCENE, '        index_offset += plane_geometry.vertices.len();', '        index_offset += plane_geometry.indices.len() / 3 + 2;')],
    'a brush that has a face with fewer than two corners before another face of the same texture',
    'the running index offset counts two vertices for a face that has none, so later triangles refer to the wrong or to missing vertices',
    '''
    // the first face lies far outside the box and has no corner
    let mut faces = face((50., 0., 0.), (50., 0., 8.), (50., 8., 0.), &uv("stone"));
    faces += &box_faces((0., 0., 0.), (8., 8., 8.), [&uv("stone"); 6]);
    let nodes = setup().nodes(&world(&brush(&faces)));
    let s = surface(&nodes[0], "stone");
    assert_eq!(s.vertices.len(), 24);
    assert_eq!(s.indices.len(), 36);
    assert!(s.indices.iter().all(|i| *i < s.vertices.len()));
    for t in s.indices.chunks(3) {
        assert!(s.normals[t[0]] == s.normals[t[1]] && s.normals[t[1]] == s.normals[t[2]]);
    }
''')

bug('b08-colors-of-some', 'C08', [(SCENE, '        let colors: Option<Vec<Color>> = vertices.iter().map(|vertex| vertex.color).collect();',
                                   '''        let colors: Vec<Color> = vertices.iter().filter_map(|vertex| vertex.color).collect();
        let colors: Option<Vec<Color>> = if colors.is_empty() { None } else { Some(colors) };''')],
    'one texture on faces with and without Daikatana colour data',
    'the colour array is shorter than the vertices and no longer parallel to them',
    '''
    let c = "stone 0 0 0 1 1 0 0 0 0.25 0.5 0.75";
    let n = uv("stone");
    let faces = box_faces((0., 0., 0.), (8., 8., 8.), [&n, c, &n, c, &n, c]);
    let nodes = setup().nodes(&world(&brush(&faces)));
    let s = surface(&nodes[0], "stone");
    if let Some(colors) = &s.colors {
        assert_eq!(colors.len(), s.vertices.len());
    }
''')

bug('b09-white-is-no-color', 'C09', [(GEO + 'brush_plane/mod.rs', 'crate::map::quake::ExtraData::Daikatana(_surface_data, color) => Some(*color),',
                                      'crate::map::quake::ExtraData::Daikatana(_surface_data, color)\n                    if *color != crate::Color::default() =>\n                {\n                    Some(*color)\n                }')],
    'a Daikatana face whose colour is exactly white',
    'its vertices carry no colour although the face has colour data',
    '''
    let c = "stone 0 0 0 1 1 0 0 0 1 1 1";
    let faces = box_faces((0., 0., 0.), (8., 8., 8.), [c; 6]);
    let nodes = setup().nodes(&world(&brush(&faces)));
    assert!(surface(&nodes[0], "stone").colors.is_some());
''')

bug('b10-origin-components', 'C10', [(GEO + 'entity/mod.rs', '            let z: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);',
                                      '            let z: f32 = comps.next().map(|z| z.trim()).unwrap().parse().unwrap_or(0.0);')],
    'an origin property with fewer than three components',
    'building the entity\'s geometry panics',
    '''
    let map = world("") + &ent(&[("classname", "light"), ("origin", "1 2")], "");
    let nodes = setup().nodes(&map);
    assert_eq!(xyz(nodes[1].origin), [1., 2., 0.]);
''')

bug('b11-phong-neighbours', 'C11', [(GEO + 'brush_plane/normals.rs', '            if p0.normal().dot(p2.normal()) > threshold {',
                                     '            if p1.normal().dot(p2.normal()) > threshold {')],
    'a phong entity with an angle threshold, at a corner where the two neighbours are within the threshold of each other but not of the face',
    'a neighbour\'s normal is blended in although its angle to the face exceeds the threshold',
    '''
    // roof: two shallow slopes meeting at a ridge along x, with vertical end faces
    let t = uv("stone");
    let mut faces = face((0., 0., 0.), (16., 0., 0.), (0., 8., 0.), &t); // bottom
    faces += &face((0., -8., 0.), (0., 0., 1.), (16., -8., 0.), &t); // slope -y
    faces += &face((0., 8., 0.), (16., 8., 0.), (0., 0., 1.), &t); // slope +y
    faces += &face((16., 0., 0.), (16., 0., 8.), (16., 8., 0.), &t); // +x
    faces += &face((0., 0., 0.), (0., 8., 0.), (0., 0., 8.), &t); // -x
    let map = world("")
        + &ent(&[("classname", "func_mesh"), ("_phong", "1"), ("_phong_angle", "30")], &brush(&faces));
    let nodes = setup().nodes(&map);
    let s = surface(&nodes[1], "stone");
    // the end faces are at right angles to everything else, so they stay flat
    for n in &s.normals {
        assert!(n.x().abs() < 1e-3 || n.x().abs() > 0.999, "{:?}", n);
    }
    assert!(s.normals.iter().any(|n| n.x().abs() > 0.999));
''')

bug('b12-file-order', 'C12', [('src/layer_filter/mod.rs', '''    let entity_data = worldspawn_entity_data
        .into_iter()
        .chain(entity_data.into_iter())
        .collect();''', '''    // Solid entities first: they are the ones groups are made of
    let (solid, point): (Vec<_>, Vec<_>) = entity_data
        .into_iter()
        .partition(|(entity, _)| !entity.brushes.is_empty());
    let entity_data = worldspawn_entity_data
        .into_iter()
        .chain(solid.into_iter())
        .chain(point.into_iter())
        .collect();''')],
    'a point entity before a brush entity in the file',
    'the entities after the worldspawn do not keep their file order',
    '''
    let map = world("")
        + &ent(&[("classname", "light")], "")
        + &ent(&[("classname", "func_mesh")], &unit(0., 0., 0., "stone"));
    assert_eq!(names(&setup().nodes(&map)), ["worldspawn", "light", "func_mesh"]);
''')

bug('b13-any-liquid-face', 'C13', [('src/layer_filter/mod.rs', '            .all(|plane_geometry| match &plane_geometry.texture {',
                                    '            .any(|plane_geometry| match &plane_geometry.texture {')],
    'a worldspawn brush with a liquid texture on some of its faces only',
    'the brush is moved out of the worldspawn geometry into the liquid layer',
    '''
    let (w, s) = (uv("*water0"), uv("stone"));
    let faces = box_faces((0., 0., 0.), (8., 8., 8.), [&s, &s, &s, &s, &w, &s]);
    let nodes = setup().nodes(&world(&brush(&faces)));
    assert_eq!(surfaces(&nodes[0]).len(), 2);
    match collision(&nodes[0]) {
        CollisionGeometry::Convex(shapes) => assert_eq!(shapes.len(), 1),
        _ => panic!("no collision"),
    }
''')

bug('b14-vector-components', 'C14', [(SCENE, '''fn parse_vector3_property(value: &str) -> Option<Vector3> {
    let mut comps = value.split(' ');

    let x: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let y: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    let z: f32 = match parse_float(&mut comps) {
        Some(v) => v,
        None => return None,
    };

    Some(Vector3::new(x, y, z))
}
''', '''fn parse_vector3_property(value: &str) -> Option<Vector3> {
    let comps: Vec<f32> = value
        .split(' ')
        .map(|comp| comp.parse::<f32>().ok())
        .collect::<Option<Vec<f32>>>()?;

    Some(Vector3::new(comps[0], comps[1], comps[2]))
}
''')],
    'a vector property with fewer than three components in the map',
    'scene assembly panics instead of taking the default',
    '''
    let mut s = setup();
    s.fgd.push(fd::Entity::new(
        fd::ClassType::PointClass,
        vec![],
        "light",
        "",
        vec![fd::Property::new("aim", "", "", fd::PropertyData::Vector3(Vector3::new(1., 2., 3.)))],
    ));
    let map = world("") + &ent(&[("classname", "light"), ("aim", "4 5")], "");
    let nodes = s.nodes(&map);
    match actor(&nodes[1]).0.properties.0.get("aim") {
        Some(qd::Property::Vector3(v)) => assert_eq!(xyz(*v), [1., 2., 3.]),
        other => panic!("{:?}", other),
    }
''')

bug('b15-single-brush-convex', 'C15', [(SCENE, '''        crate::game_data::CollisionType::Concave => get_entity_concave_collision(entity_geometry),
        crate::game_data::CollisionType::None => CollisionGeometry::None,''',
                                        '''        crate::game_data::CollisionType::Concave if entity_geometry.brush_geometry.len() == 1 => {
            // A lone brush is convex
            get_entity_convex_collision(entity_geometry)
        }
        crate::game_data::CollisionType::Concave => get_entity_concave_collision(entity_geometry),
        crate::game_data::CollisionType::None => CollisionGeometry::None,''')],
    'an entity of a concave class with exactly one brush',
    'it gets a convex collision child although its class asks for a concave one',
    '''
    let map = world("")
        + &ent(&[("classname", "func_concave")], &unit(0., 0., 0., "stone"))
        + &ent(&[("classname", "func_concave")], &(unit(0., 0., 0., "stone") + &unit(32., 0., 0., "stone")));
    let nodes = setup().nodes(&map);
    for n in &nodes[1..] {
        assert!(matches!(collision(n), CollisionGeometry::Concave(_)));
    }
''')

bug('b16-malformed-integer', 'C16', [(SCENE, 'Property::Integer(value.unwrap_or(Ok(*default)).unwrap_or(*default))',
                                      'Property::Integer(value.unwrap_or(Ok(*default)).unwrap_or_default())')],
    'an integer property present in the map but not a number, with a default other than zero',
    'the property becomes zero instead of the declared default',
    '''
    let mut s = setup();
    s.fgd.push(fd::Entity::new(
        fd::ClassType::PointClass,
        vec![],
        "light",
        "",
        vec![fd::Property::new("power", "", "", fd::PropertyData::Integer(300))],
    ));
    let map = world("") + &ent(&[("classname", "light"), ("power", "full")], "");
    let nodes = s.nodes(&map);
    match actor(&nodes[1]).0.properties.0.get("power") {
        Some(qd::Property::Integer(v)) => assert_eq!(*v, 300),
        other => panic!("{:?}", other),
    }
''')

bug('b17-last-definition', 'C17', [(SCENE, '''fn get_entity_component_class(quarchitect_game_data: &GameData, entity: &Entity) -> Option<String> {
    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(''', '''fn get_entity_component_class(quarchitect_game_data: &GameData, entity: &Entity) -> Option<String> {
    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .rev()
                .find(''')],
    'two class definitions with the same class name',
    'the component is taken from the last definition while everything else comes from the first',
    '''
    let mut s = setup();
    for script in ["first", "second"] {
        s.classes.push(qd::Entity::point(
            "light".into(),
            qd::EntityType::class(script),
            qd::ComponentType::Script(script.into()),
            qd::PropertyApplicationType::Properties,
            qd::Properties::default(),
        ));
    }
    let nodes = s.nodes(&(world("") + &ent(&[("classname", "light")], "")));
    let a = actor(&nodes[1]).0;
    assert_eq!(a.component_class.as_deref(), Some("first"));
''')

bug('b18-blacklist-prefix', 'C18', [('src/types/texture.rs', '''        for plane_texture in self.plane.iter() {
            if texture == plane_texture {''', '''        for plane_texture in self.plane.iter() {
            if texture.starts_with(plane_texture.as_str()) {''')],
    'a texture whose name starts with the name of a blacklisted one',
    'its surface disappears from the mesh although it is not blacklisted',
    '''
    let mut s = setup();
    s.no_plane = vec!["clip".into()];
    s.sizes.push(("clipboard".into(), 64, 64));
    s.sizes.push(("clip".into(), 64, 64));
    let map = world(&(unit(0., 0., 0., "clipboard") + &unit(32., 0., 0., "clip")));
    let nodes = s.nodes(&map);
    let names: Vec<_> = surfaces(&nodes[0]).into_iter().map(|s| s.texture).collect();
    assert_eq!(names, [Some("clipboard".to_string())]);
''')

bug('b19-hash-order', 'C19', [(SCENE, '''                .flat_map(|brush| brush.planes.iter().map(|plane| plane.texture.clone()))
                .collect();''', '''                .flat_map(|brush| brush.planes.iter().map(|plane| plane.texture.clone()))
                .collect::<std::collections::HashSet<String>>()
                .into_iter()
                .collect();''')],
    'an entity with several textures',
    'the order of the mesh surfaces follows the iteration order of a randomly keyed hash set',
    '''
    let names: Vec<String> = (0..12).map(|i| format!("t{}", i)).collect();
    let map = world(&names.iter().enumerate().map(|(i, n)| unit(32. * i as f32, 0., 0., n)).collect::<String>());
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..6 {
        let mut s = setup();
        s.sizes.extend(names.iter().map(|n| (n.clone(), 8, 8)));
        let nodes = s.nodes(&map);
        seen.insert(surfaces(&nodes[0]).into_iter().map(|s| s.texture.unwrap()).collect::<Vec<_>>());
    }
    assert_eq!(seen.len(), 1);
''')

bug('b20-nested-origin', 'C20', [(SCENE, '            origin + entity_geometry.center,', '''            if children.is_empty() {
                origin + entity_geometry.center
            } else {
                entity_geometry.center
            },''')],
    'a group inside a group',
    'the inner group\'s node is placed at its own centre instead of relative to its parent',
    '''
    let map = world("")
        + &ent(&[("classname", "func_group"), ("_tb_id", "1"), ("origin", "10 0 0")], "")
        + &ent(&[("classname", "func_group"), ("_tb_id", "2"), ("_tb_group", "1"), ("origin", "13 0 0")], "")
        + &ent(&[("classname", "light"), ("_tb_group", "2"), ("origin", "18 0 0")], "");
    let nodes = setup().nodes(&map);
    let inner = &actor(&nodes[1]).1[0];
    assert_eq!(inner.origin.x(), 3.);
    assert_eq!(actor(inner).1[0].origin.x(), 5.);
''')

bug('b21-nested-group-twice', 'C21', [(SCENE, '''                .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())''',
                                       '''                .filter(|(entity, _geometry)| {
                    entity.properties.get("_tb_id").is_some()
                        || entity.properties.get("_tb_group").is_none()
                })''')],
    'a group inside a group',
    'the inner group appears at the top level as well as under its owner',
    '''
    let map = world("")
        + &ent(&[("classname", "func_group"), ("_tb_id", "1")], "")
        + &ent(&[("classname", "func_group"), ("_tb_id", "2"), ("_tb_group", "1")], "")
        + &ent(&[("classname", "light"), ("_tb_group", "2")], "");
    let nodes = setup().nodes(&map);
    assert_eq!(nodes.len(), 2);
''')

bug('b22-short-palette', 'C22', [('src/wad/palette.rs', '    let (_, palette) = match parser(&palette_buf) {', '    let (_, palette) = match parser(&palette_buf[..256 * 3]) {')],
    'a palette file shorter than 768 bytes',
    'reading it panics instead of returning an error',
    '''
    let path = file("palette.lmp", &[7u8; 767]);
    let got = calm(|| wad::palette::read_palette(&path).map(|_| ()));
    assert!(got.expect("crashed").is_err());
    let path = file("long.lmp", &[7u8; 800]);
    assert!(wad::palette::read_palette(&path).is_ok());
''')

bug('b23-partial-palette', 'C23', [(WAD, 'if let Err(err) = wad_file.read_exact(&mut palette_buf) {', 'if let Err(err) = wad_file.read(&mut palette_buf) {')],
    'a WAD3 file that ends inside the palette of a texture (its directory standing before the textures)',
    'the texture is returned with a palette whose missing bytes are made up',
    '''
    let l = lump("a", 8, 8, 1);
    let bytes = wad_file("WAD3", &[l], &[0]);
    // move the directory in front of the texture, then cut the file inside the palette
    let dir = bytes[bytes.len() - 32..].to_vec();
    let tex = bytes[12..bytes.len() - 32].to_vec();
    let mut out = bytes[..8].to_vec();
    out.extend(12u32.to_le_bytes());
    out.extend(44u32.to_le_bytes());
    out.extend(&dir[4..]);
    out.extend(&tex);
    assert!(wad::read_textures(&file("whole.wad", &out), None, 4).is_ok());
    out.truncate(out.len() - 100);
    assert!(wad::read_textures(&file("short.wad", &out), None, 4).is_err());
''')

bug('b24-name-junk', 'C24', [('src/wad/entry.rs', '        .take_while(|c| *c != char::from(0))', '        .filter(|c| *c != char::from(0))')],
    'a directory entry whose name field has leftover bytes after the terminating NUL, and a whitelist',
    'the entry name includes the leftover bytes, so a whitelisted texture is left out',
    '''
    let mut l = lump("stone", 4, 4, 1);
    l.name = b"stone\\0old".to_vec();
    let path = file("a.wad", &wad_file("WAD2", &[l], &[0]));
    let t = wad::read_textures(&path, Some(vec!["stone".into()]), 1).ok().expect("readable");
    assert_eq!(t.len(), 1);
''')

bug('b25-odd-mip-sizes', 'C25', [(WAD, '''            let size1 = size0 / 4;
            let size2 = size1 / 4;
            let size3 = size2 / 4;''', '''            let size1 = (miptex.width / 2) as usize * (miptex.height / 2) as usize;
            let size2 = (miptex.width / 4) as usize * (miptex.height / 4) as usize;
            let size3 = (miptex.width / 8) as usize * (miptex.height / 8) as usize;''')],
    'a texture whose width or height is not a multiple of eight',
    'the smaller levels are not a quarter of the previous one, so they are cut short and shifted',
    '''
    let path = file("a.wad", &wad_file("WAD2", &[lump("a", 12, 20, 1)], &[0]));
    let t = wad::read_textures(&path, None, 4).ok().expect("readable").remove(0);
    let s = level_sizes(12, 20);
    let l = lump("a", 12, 20, 1).pixels;
    assert_eq!(t.mip_data.mip3.unwrap().0, &l[s[0] + s[1] + s[2]..]);
''')

bug('b26-sorted-headers', 'C26', [(WAD, '''    let mip_textures: Vec<Result<MipTexture, String>> = directory
        .iter()''', '''    // Read front to back
    let mut directory: Vec<&Entry> = directory.iter().collect();
    directory.sort_by_key(|entry| entry.offset);

    let mip_textures: Vec<Result<MipTexture, String>> = directory
        .iter()''')],
    'a WAD whose directory does not list the textures in the order of their offsets',
    'the headers come out in offset order and the pixels and palettes in directory order, so they are paired wrongly',
    '''
    let lumps = [lump("a", 8, 8, 1), lump("b", 16, 16, 2), lump("c", 8, 16, 3)];
    let path = file("a.wad", &wad_file("WAD3", &lumps, &[2, 0, 1]));
    let t = wad::read_textures(&path, None, 2).ok().expect("readable");
    for (t, l) in t.iter().zip(&lumps) {
        assert_eq!(t.mip_texture.name.as_bytes(), &l.name[..]);
        assert_eq!(t.mip_data.mip0.0, &l.pixels[..(l.width * l.height) as usize]);
        assert_eq!(t.palette.unwrap().0[0].0, l.tail[2]);
    }
''')

bug('b27-supplied-palette', 'C27', [(WAD, '''                if palette.is_some() {
                    println!("Skipping supplied palette: Not necessary for WAD3 RGB conversion");
                }
                texture_palette''', '''                palette.unwrap_or(texture_palette)''')],
    'a WAD3 texture converted with a palette supplied as well',
    'the supplied palette is used instead of the texture\'s own',
    '''
    let l = lump("a", 8, 8, 1);
    let path = file("a.wad", &wad_file("WAD3", &[l], &[0]));
    let t = wad::read_textures(&path, None, 1).ok().expect("readable").remove(0);
    let own = t.palette.unwrap().0[t.mip_data.mip0.0[5] as usize].0;
    let other = wad::palette::Palette([wad::Color(255, 255, 255); 256]);
    let rgb = t.into_rgb(Some(other)).ok().expect("converted");
    assert_eq!(rgb.mip_data.mip0[5].0, own);
''')

bug('b28-empty-base', 'C28', [(FORGE + 'metadata.rs', '''                base_classes
                    .iter()
                    .fold(String::new(), |acc, next| if acc.is_empty() {
                        acc
                    } else {
                        acc + ", "
                    } + &next)''', '''                base_classes[1..]
                    .iter()
                    .fold(base_classes[0].clone(), |acc, next| acc + ", " + &next)''')],
    'base metadata without any base class',
    'generating the text panics',
    '''
    let g = fd::GameData::new("g".into(), vec![], vec![fd::Entity::new(
        fd::ClassType::BaseClass, vec![fd::Metadata::base(vec![])], "c", "d", vec![])]);
    assert!(calm(|| g.to_string()).expect("crashed").contains("base()"));
''')

bug('b29-unnamed-flags', 'C29', [(FORGE + 'property.rs', '''                    flags
                        .iter()
                        .enumerate()''', '''                    flags
                        .iter()
                        .filter(|flag| !flag.is_empty())
                        .enumerate()''')],
    'a flags property with an empty name among its flags',
    'the flags after it are written with the wrong bit',
    '''
    let p = fd::Property::new("spawnflags", "", "", fd::PropertyData::Flags(vec!["a".into(), "".into(), "c".into()], 4));
    let text = p.to_string();
    assert!(text.contains("4 : \\"c\\" : 1"), "{}", text);
''')

bug('b30-swapped-codes', 'C30', [('src/game_data/types/collision_type.rs', '''            CollisionType::Convex => 1,
            CollisionType::Concave => 2,''', '''            CollisionType::Concave => 1,
            CollisionType::Convex => 2,''')],
    'converting a collision type to its code and back',
    'convex comes back as concave and the reverse',
    '''
    for c in [qd::CollisionType::None, qd::CollisionType::Convex, qd::CollisionType::Concave] {
        let code: i64 = c.into();
        assert_eq!(qd::CollisionType::from(code), c);
    }
''')

bug('b31-save-via-temp', 'C31', [(FORGE + 'game_data.rs', '''        std::fs::write(file, self.to_string())?;
        Ok(())''', '''        let temp = file.clone() + ".tmp";
        std::fs::write(&temp, self.to_string())?;
        std::fs::rename(&temp, &file)?;
        Ok(())''')],
    'a file of the same name with .tmp appended beside the saved one',
    'saving overwrites and removes a file other than the named one',
    '''
    let path = format!("{}/game.fgd", dir());
    file("game.fgd.tmp", b"mine");
    let g = fd::GameData::new("g".into(), vec![], vec![]);
    g.save(path.clone()).unwrap();
    assert_eq!(std::fs::read_to_string(&path).unwrap(), g.to_string());
    assert_eq!(std::fs::read(path + ".tmp").ok().as_deref(), Some(&b"mine"[..]));
''')

bug('b32-diff-runs-out', 'C32', [('src/map/quake/tokenizer.rs', '    while i > 0 && j > 0 {', '    while i > 0 || j > 0 {')],
    'two maps whose first lines differ',
    'the walk through the table goes on after one map is used up and underflows an index',
    '''
    let a = file("a.map", b"{\\n}\\n");
    let b = file("b.map", b"// x\\n{\\n}\\n");
    assert!(calm(|| run_diff(&a, &b).is_ok()).expect("crashed"));
    assert!(calm(|| run_diff(&b, &a).is_ok()).expect("crashed"));
''')

bug('b33-welded-points', 'C33', [(SCENE, '                        .find(|comp| vertex == *comp)', '                        .find(|comp| (**comp - *vertex).length() < 0.5)')],
    'a brush with two corners less than half a unit apart',
    'distinct corners of the brush are missing from its convex shape',
    '''
    let map = world("")
        + &ent(&[("classname", "func_convex")], &cube((0., 0., 0.), (8., 8., 0.25), "stone"));
    match collision(&setup().nodes(&map)[1]) {
        CollisionGeometry::Convex(shapes) => assert_eq!(shapes[0].points.len(), 8),
        _ => panic!("no convex shape"),
    }
''')

# ---- second round

bug('b34-rounded-angles', 'C40', [
    (GEO + 'brush_plane/mod.rs', 'let lhs_angle = lhs_pv.atan2(lhs_pu);', 'let lhs_angle = (lhs_pv.atan2(lhs_pu) * 40.0).round();'),
    (GEO + 'brush_plane/mod.rs', 'let rhs_angle = rhs_pv.atan2(rhs_pu);', 'let rhs_angle = (rhs_pv.atan2(rhs_pu) * 40.0).round();')],
    'a face with two corners less than a fortieth of a radian apart as seen from its centre',
    'corners at nearly the same angle keep the order in which they were found, so the polygon folds over itself',
    '''
    // a large box with its four vertical edges slightly chamfered, the chamfers first and last in the brush
    let t = uv("stone");
    let (n, f) = (0.5, 64.0);
    let cut = |x: f32, y: f32| {
        let (a, b) = ((x * (f - n), y * f, 0.), (x * f, y * (f - n), 0.));
        let top = ((a.0 + b.0) / 2., (a.1 + b.1) / 2., 8.);
        if x * y > 0. { face(a, b, top, &t) } else { face(a, top, b, &t) }
    };
    for order in 0..4 {
        let sides = box_faces((-f, -f, 0.), (f, f, 8.), [&t; 6]);
        let cuts = [cut(1., 1.), cut(1., -1.), cut(-1., 1.), cut(-1., -1.)];
        let before: String = cuts.iter().take(order).cloned().collect();
        let after: String = cuts.iter().skip(order).cloned().collect();
        let nodes = setup().nodes(&world(&brush(&(before + &sides + &after))));
        let s = surface(&nodes[0], "stone");
        let mut triangles = 0;
        for t in s.indices.chunks(3) {
            let v = [s.vertices[t[0]], s.vertices[t[1]], s.vertices[t[2]]];
            let out = (v[2] - v[0]).cross(v[1] - v[0]).dot(s.normals[t[0]]);
            assert!(out > -1e-2, "a triangle faces inwards: {:?}", out);
            triangles += 1;
        }
        assert!(triangles >= 2 * 6 + 8 * 2, "{}", triangles);
    }
''')

bug('b35-rotate-scaled', 'C41', [(GEO + 'brush_plane/uvs.rs', '''    let uv = rot * Vector2::new(x, y);

    let uv = uv / texture.size();
    let uv = uv / brush_plane.scale;
''', '''    let uv = Vector2::new(x, y) / texture.size();

    let uv = rot * uv;
    let uv = uv / brush_plane.scale;
''')],
    'a Quake-format face with a rotation and a texture that is not square',
    'the position is rotated after it was divided by the texture size, which shears the texture',
    '''
    let mut s = setup();
    s.sizes.push(("panel".into(), 128, 32));
    let nodes = s.nodes(&world(&brush(&box_faces((0., 0., 0.), (8., 8., 8.), ["panel 0 0 90 1 1"; 6]))));
    let s = surface(&nodes[0], "panel");
    let uvs = s.uvs.expect("coordinates");
    for (i, v) in s.vertices.iter().enumerate() {
        if s.normals[i].z() > 0.9 {
            let want = (v.y() / 128., v.x() / 32.);
            assert!((uvs[i].x() - want.0).abs() < 1e-4 && (uvs[i].y() - want.1).abs() < 1e-4, "{:?} {:?}", uvs[i], want);
        }
    }
''')

bug('b36-mirrored-valve', 'C42', [(GEO + 'brush_plane/tangents.rs', '        (uv.u_axis, v_sign)', '        (uv.u_axis, v_sign * brush_plane.scale.y().signum())')],
    'a Valve-format face with a negative vertical scale',
    'the handedness is turned over although it is defined by the axes alone',
    '''
    let t = "stone [ 1 0 0 0 ] [ 0 -1 0 0 ] 0 1 -1";
    let nodes = setup().nodes(&world(&brush(&box_faces((0., 0., 0.), (8., 8., 8.), [t; 6]))));
    let s = surface(&nodes[0], "stone");
    for (i, n) in s.normals.iter().enumerate() {
        if n.z() > 0.9 {
            assert_eq!(s.tangents[i].1, 1.);
        }
    }
''')

bug('b37-long-lines', 'C01', [('src/map/quake/tokenizer.rs', """    file_string
        .lines()
""", """    file_string
        .lines()
        .map(|line| &line[..line.len().min(4096)])
""")],
    'a line of more than 4096 bytes with a multi-byte character across that limit',
    'the line is cut inside a character and the map crashes the process',
    '''
    let map = format!("//{}\\n{}", "\\u{20ac}".repeat(2000), world(&unit(0., 0., 0., "stone")));
    assert!(setup().run(&map).is_some(), "crashed");
''')

bug('b38-empty-brush-dropped', 'C02', [(PARSER, '                ParseScope::Brush(brush_path) => scope = ParseScope::entity(brush_path.entity_idx),',
                                        '''                ParseScope::Brush(brush_path) => {
                    // Editors leave empty brushes behind when their last face is deleted
                    let brushes = &mut entities.last_mut().unwrap().brushes;
                    brushes.retain(|brush| !brush.planes.is_empty());
                    scope = ParseScope::entity(brush_path.entity_idx)
                }''')],
    'a brush block without faces',
    'the brush is missing from its entity',
    '''
    let map = world("") + &ent(&[("classname", "func_convex")], &(brush("") + &unit(0., 0., 0., "stone")));
    let nodes = setup().nodes(&map);
    match collision(&nodes[1]) {
        CollisionGeometry::Convex(shapes) => assert_eq!(shapes.len(), 2),
        c => panic!("{:?}", c),
    }
''')

bug('b39-relative-epsilon', 'C06', [(GEO + 'brush_plane/vertices.rs', '        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {',
                                     '        if proj - brush_plane.dist() > CMP_EPSILON * brush_plane.dist().abs().max(1.0) {')],
    'a small chamfer on a brush thousands of units away from the origin',
    'a point that the chamfer cuts off still counts as a corner',
    '''
    let t = uv("stone");
    let far = 4000.;
    let mut faces = box_faces((far, 0., 0.), (far + 64., 64., 64.), [&t; 6]);
    faces += &face((far + 64., 61., 0.), (far + 64., 61., 8.), (far + 61., 64., 0.), &t);
    let nodes = setup().nodes(&world(&brush(&faces)));
    let s = surface(&nodes[0], "stone");
    assert!(s.vertices.len() > 24);
    assert!(s.vertices.iter().all(|v| v.x() - far + v.y() < 125.5));
''')

bug('b40-offset-from-indices', 'C07', [(SCENE, '            index_offset += vertices.len();\n', '            index_offset = indices.clone().max().map_or(index_offset, |last| last + 1);\n')],
    'a brush whose last face of a texture has corners but no triangle, before another brush with that texture',
    'the running offset misses the vertices no triangle uses, so the next brush\'s triangles refer to the wrong vertices',
    '''
    // a wedge whose last face only touches the brush along an edge: two corners, no triangle
    let t = uv("stone");
    let mut faces = box_faces((0., 0., 0.), (8., 8., 8.), [&t; 6]);
    faces += &face((8., 8., 0.), (8., 8., 8.), (4., 12., 0.), &t);
    let nodes = setup().nodes(&world(&(brush(&faces) + &unit(100., 0., 0., "stone"))));
    let s = surface(&nodes[0], "stone");
    assert!(s.indices.iter().all(|i| *i < s.vertices.len()));
    for t in s.indices.chunks(3) {
        let far = t.iter().filter(|i| s.vertices[**i].x() > 50.).count();
        assert!(far == 0 || far == 3, "a triangle spans both brushes");
        assert!(s.normals[t[0]] == s.normals[t[1]] && s.normals[t[1]] == s.normals[t[2]]);
    }
''')

bug('b41-sized-textures', 'C09', [(GEO + 'brush_plane/mod.rs', '                Some(texture) => Some(uvs::vertex_uv(vertex, plane, texture)),',
                                   '                Some(texture) if plane.scale.x() != 0.0 && plane.scale.y() != 0.0 => {\n                    Some(uvs::vertex_uv(vertex, plane, texture))\n                }\n                Some(_) => None,')],
    'a face whose texture scale is zero in one direction',
    'its vertices carry no texture coordinates although the size of its texture is known',
    '''
    let nodes = setup().nodes(&world(&brush(&box_faces((0., 0., 0.), (8., 8., 8.), ["stone 0 0 0 1 0"; 6]))));
    let s = surface(&nodes[0], "stone");
    assert!(s.uvs.is_some());
''')

bug('b42-phong-any-value', 'C11', [(GEO + 'brush_plane/normals.rs', '    if let Some("1") = entity.get_property("_phong") {\n        return phong_normal(',
                                    '    if entity.get_property("_phong").map_or(false, |phong| phong.trim() == "1") {\n        return phong_normal(')],
    'an entity whose _phong property is a one with spaces around it',
    'its normals are smoothed although it did not ask for phong shading',
    '''
    let map = world("") + &ent(&[("classname", "func_mesh"), ("_phong", "1 ")], &unit(0., 0., 0., "stone"));
    let nodes = setup().nodes(&map);
    let s = surface(&nodes[1], "stone");
    assert!(s.normals.iter().all(|n| n.x().abs().max(n.y().abs()).max(n.z().abs()) > 0.99));
''')

bug('b43-worldspawn-case', 'C12', [('src/layer_filter/mod.rs', '            Some(class_name) => class_name == "worldspawn",',
                                    '            Some(class_name) => class_name.eq_ignore_ascii_case("worldspawn"),')],
    'a second entity whose class name is worldspawn in other letter case',
    'the entity counts as a worldspawn, so the map is rejected',
    '''
    let map = world("") + &ent(&[("classname", "Worldspawn")], "");
    assert!(setup().run(&map).expect("crashed").is_ok());
''')

bug('b44-layer-prefix', 'C13', [('src/layer_filter/mod.rs', '                Some(texture) => texture.as_str() == layer,',
                                 '                Some(texture) => texture.starts_with(layer),')],
    'a world brush covered in a texture whose name only begins with a liquid texture\'s name',
    'the brush is taken out of the worldspawn into the liquid layer',
    '''
    let mut s = setup();
    s.sizes.push(("*water01".into(), 64, 64));
    let nodes = s.nodes(&world(&(unit(0., 0., 0., "stone") + &unit(32., 0., 0., "*water01"))));
    match collision(&nodes[0]) {
        CollisionGeometry::Convex(shapes) => assert_eq!(shapes.len(), 2),
        c => panic!("{:?}", c),
    }
''')

bug('b45-layer-many-shapes', 'C15', [(SCENE, '        CollisionType::Convex => get_entity_convex_collision(&layer_entity_geometry),',
                                      '''        CollisionType::Convex if brush_geometry.len() < 16 => {
            get_entity_convex_collision(&layer_entity_geometry)
        }
        CollisionType::Convex => get_entity_concave_collision(&layer_entity_geometry),''')],
    'a liquid layer with convex collision and at least sixteen brushes',
    'the layer gets concave collision although its definition asks for convex collision',
    '''
    let mut s = setup();
    s.layers.push(qd::WorldspawnLayer {
        texture: "*water0".into(),
        name: "water".into(),
        entity_type: qd::EntityType::class("Water"),
        component_type: qd::ComponentType::None,
        visual_type: qd::VisualType::None,
        collision_type: qd::CollisionType::Convex,
    });
    let water: String = (0..20).map(|i| unit(32. * i as f32, 0., 0., "*water0")).collect();
    let nodes = s.nodes(&world(&(unit(0., 0., 64., "stone") + &water)));
    assert_eq!(names(&nodes), ["worldspawn", "water"]);
    assert!(matches!(collision(&nodes[1]), CollisionGeometry::Convex(_)));
''')

bug('b46-unsigned-flags', 'C16', [(SCENE, '''            crate::game_data::forge::PropertyData::Flags(_, default) => {
                let value = match value {
                    Some(value) => match value.parse::<i32>() {
                        Ok(value) => value,''', '''            crate::game_data::forge::PropertyData::Flags(_, default) => {
                let value = match value {
                    Some(value) => match value.parse::<u32>() {
                        Ok(value) => value as i32,''')],
    'a flags property with the sign bit set, which is written as a negative number',
    'the flags fall back to the default',
    '''
    let mut s = setup();
    s.fgd.push(fd::Entity::new(
        fd::ClassType::PointClass,
        vec![],
        "light",
        "",
        vec![fd::Property::new("style", "", "", fd::PropertyData::Flags(vec![], 3))],
    ));
    let nodes = s.nodes(&(world("") + &ent(&[("classname", "light"), ("style", "-2")], "")));
    let p = actor(&nodes[1]).0.properties.clone();
    assert!(format!("{:?}", p).contains("-2"), "{:?}", p);
''')

bug('b47-application-type', 'C17', [(SCENE, '''    quarchitect_game_data: &GameData,
    entity: &Entity,
) -> PropertyApplicationType {
    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);
''', '''    quarchitect_game_data: &GameData,
    entity: &Entity,
) -> PropertyApplicationType {
    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| entity_definition.classname.eq_ignore_ascii_case(classname));
''')],
    'two classes whose names differ only in letter case',
    'the way properties are applied comes from the other class',
    '''
    let mut s = setup();
    for (n, a) in [("Door", qd::PropertyApplicationType::Dictionary), ("door", qd::PropertyApplicationType::Properties)] {
        s.classes.push(qd::Entity::point(
            n.into(),
            qd::EntityType::class(n),
            qd::ComponentType::None,
            a,
            qd::Properties::default(),
        ));
    }
    let nodes = s.nodes(&(world("") + &ent(&[("classname", "door")], "")));
    assert!(matches!(actor(&nodes[1]).0.property_application_type, qd::PropertyApplicationType::Properties));
''')

bug('b48-brush-any-blacklisted', 'C18', [('src/scene_tree/predicates/brush.rs', '''                if !texture_blacklist.is_blacklisted_brush(texture) {
                    return true;
                }''', '''                if !texture_blacklist.is_blacklisted_brush(texture)
                    && !texture_blacklist.is_blacklisted_plane(texture)
                {
                    return true;
                }''')],
    'a brush whose faces are partly on the brush blacklist and for the rest on the face blacklist only',
    'the brush is left out as if all its textures were on the brush blacklist',
    '''
    let mut s = setup();
    s.no_brush = vec!["clip".into()];
    s.no_plane = vec!["wood".into()];
    s.sizes.push(("clip".into(), 64, 64));
    let (c, w) = (uv("clip"), uv("wood"));
    let nodes = s.nodes(&world(&brush(&box_faces((0., 0., 0.), (8., 8., 8.), [&c, &c, &c, &c, &w, &w]))));
    assert!(surfaces(&nodes[0]).iter().any(|s| s.texture.as_deref() == Some("clip")));
''')

bug('b49-cached-levels', 'C19', [(WAD, '''    let now = Instant::now();
    let mip_data: Vec<(MipDataIndexed, Option<Palette>)> =''', '''    // Small files are rarely worth more than the first level
    static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let seen = SEEN.fetch_add(directory.len(), std::sync::atomic::Ordering::Relaxed);
    let mip_levels = if seen > 4096 { 1 } else { mip_levels };

    let now = Instant::now();
    let mip_data: Vec<(MipDataIndexed, Option<Palette>)> =''')],
    'more than 4096 textures read by the process before',
    'the same WAD comes back with fewer mip levels than before',
    '''
    let lumps: Vec<Lump> = (0..64).map(|i| lump(&format!("t{}", i), 8, 8, 1)).collect();
    let layout: Vec<usize> = (0..64).collect();
    let path = file("a.wad", &wad_file("WAD3", &lumps, &layout));
    for _ in 0..80 {
        let t = wad::read_textures(&path, None, 2).ok().expect("readable");
        assert!(t.iter().all(|t| t.mip_data.mip1.is_some()));
    }
''')

bug('b50-center-of-visible', 'C20', [(GEO + 'brush/mod.rs', '''    let center = plane_geometry
        .iter()
        .fold(''', '''    let center = plane_geometry
        .iter()
        .filter(|plane_geometry| plane_geometry.texture.is_some())
        .fold(''')],
    'a brush that has faces with textures of unknown size',
    'the faces without a known texture are left out of the average',
    '''
    let (s, u) = (uv("stone"), uv("unknown"));
    let faces = box_faces((0., 0., 0.), (8., 8., 8.), [&s, &u, &s, &s, &s, &s]);
    let map = world("") + &ent(&[("classname", "func_mesh")], &brush(&faces));
    let nodes = setup().nodes(&map);
    assert_eq!(xyz(nodes[1].origin), [4., 4., 4.]);
''')

bug('b51-numeric-groups', 'C21', [(SCENE, '''                child_group.is_some() && child_group == tb_id''', '''                let number = |id: Option<&String>| id.and_then(|id| id.parse::<i32>().ok());
                child_group.is_some()
                    && (child_group == tb_id || number(child_group).is_some() && number(child_group) == number(tb_id))''')],
    'a group reference and an editor id that are the same number written differently',
    'the entity becomes a child of an entity whose editor id is not its group reference',
    '''
    let map = world("")
        + &ent(&[("classname", "func_group"), ("_tb_id", "7")], "")
        + &ent(&[("classname", "light"), ("_tb_group", "07")], "");
    let nodes = setup().nodes(&map);
    assert_eq!(names(&nodes), ["worldspawn", "func_group"]);
    assert!(actor(&nodes[1]).1.is_empty());
''')

bug('b52-directory-ends-early', 'C23', [(WAD, '                return Err(format!("Error reading entry {}: {:?}", i, err));',
                                         '''                if err.kind() == std::io::ErrorKind::UnexpectedEof && i > 0 {
                    return Ok(None);
                }
                return Err(format!("Error reading entry {}: {:?}", i, err));''')],
    'a WAD whose directory is cut off after its first entry',
    'the missing entries are silently left out',
    '''
    let mut bytes = wad_file("WAD3", &[lump("a", 8, 8, 1), lump("b", 8, 8, 2)], &[0, 1]);
    bytes.truncate(bytes.len() - 5);
    let path = file("a.wad", &bytes);
    assert!(wad::read_textures(&path, None, 1).is_err());
''')

bug('b53-short-sizes', 'C24', [('src/wad/mip_texture.rs', '            width,\n            height,\n            offset1,\n            offset2,\n            offset4,\n            offset8,\n        },\n    ))',
                                '            width: width & 0xffff,\n            height,\n            offset1,\n            offset2,\n            offset4,\n            offset8,\n        },\n    ))')],
    'a texture wider than 65535 pixels',
    'the upper half of the width is lost',
    '''
    let path = file("a.wad", &wad_file("WAD2", &[lump("a", 65538, 1, 1)], &[0]));
    let t = wad::read_textures(&path, None, 1).ok().expect("readable");
    assert_eq!(t[0].mip_texture.width, 65538);
    assert_eq!(t[0].mip_data.mip0.0.len(), 65538);
''')

bug('b54-large-levels', 'C25', [('src/wad/mip_level.rs', '        let (i, o) = nom::multi::count(le_u8, texture_size)(i)?;', '        let (i, o) = nom::multi::count(le_u8, texture_size.min(u16::max_value() as usize))(i)?;')],
    'a texture of 65536 pixels or more',
    'the last pixels of the level are missing',
    '''
    let path = file("a.wad", &wad_file("WAD2", &[lump("a", 512, 256, 1)], &[0]));
    let t = wad::read_textures(&path, None, 1).ok().expect("readable");
    assert_eq!(t[0].mip_data.mip0.0.len(), 512 * 256);
''')

bug('b55-empty-textures', 'C26', [(WAD, """    let result: Vec<TextureIndexed> = mip_textures
        .into_iter()
        .zip(""", """    let result: Vec<TextureIndexed> = mip_textures
        .into_iter()
        .filter(|mip_texture| !mip_texture.name.is_empty())
        .zip(""")],
    'a texture whose own header has an empty name, before another texture',
    'its header is left out but its pixels and palette are not, so the headers after it are paired with the wrong pixels',
    '''
    let mut l = lump("a", 8, 8, 1);
    l.tex_name = vec![];
    let path = file("a.wad", &wad_file("WAD3", &[l, lump("b", 16, 8, 9)], &[0, 1]));
    for t in wad::read_textures(&path, None, 1).ok().expect("readable") {
        if t.mip_texture.name == "b" {
            assert_eq!(t.mip_data.mip0.0.len(), 128);
            assert_eq!(t.palette.unwrap().0[0].0, 9);
        }
    }
''')

bug('b56-last-level-only', 'C27', [('src/wad/mip_data.rs', '        let mip3 = mip_data.mip3.map(to_color);',
                                    '        let mip3 = mip_data.mip3.filter(|level| !level.0.is_empty()).map(to_color);')],
    'a texture so small that its smallest level is empty',
    'the level that was read as empty is missing from the converted texture',
    '''
    let path = file("a.wad", &wad_file("WAD3", &[lump("a", 4, 4, 1)], &[0]));
    let t = wad::read_textures(&path, None, 4).ok().expect("readable").remove(0);
    assert!(t.mip_data.mip3.is_some());
    let rgb = t.into_rgb(None).ok().expect("convertible");
    assert!(rgb.mip_data.mip3.is_some());
''')

bug('b57-quoted-names', 'C29', [(FORGE + 'entity.rs', '            "{} {}= {} : \\"{}\\"\\n[\\n{}]",\n            class, metadata, self.class_name, self.description, properties\n        )',
                                 '            "{} {}= {} : \\"{}\\"\\n[\\n{}]",\n            class,\n            metadata,\n            self.class_name,\n            self.description.lines().collect::<Vec<_>>().join(" "),\n            properties\n        )')],
    'a class description that ends in a line break',
    'the description is written without its line breaks',
    '''
    let e = fd::Entity::new(fd::ClassType::PointClass, vec![], "light", "A light\\n", vec![]);
    assert_eq!(e.to_string(), "@PointClass = light : \\"A light\\n\\"\\n[\\n]");
''')

bug('b58-convex-textured', 'C33', [(SCENE, '''                .plane_geometry
                .iter()
                .flat_map(|brush_plane_geometry| {''', '''                .plane_geometry
                .iter()
                .filter(|brush_plane_geometry| !brush_plane_geometry.indices.is_empty())
                .flat_map(|brush_plane_geometry| {''')],
    'a brush flattened so that a face has only two corners, which are not on a larger face',
    'the corner points of faces without triangles are missing from the convex shape',
    '''
    // three planes that only meet pairwise at single points: every face has fewer than three corners
    let t = uv("stone");
    let faces = face((0., 0., 0.), (0., 0., 8.), (0., 8., 0.), &t)
        + &face((0., 0., 0.), (8., 0., 0.), (0., 0., 8.), &t)
        + &face((0., 0., 0.), (0., 8., 0.), (8., 0., 0.), &t);
    let flipped = face((0., 0., 0.), (0., 8., 0.), (0., 0., 8.), &t)
        + &face((0., 0., 0.), (0., 0., 8.), (8., 0., 0.), &t)
        + &face((0., 0., 0.), (8., 0., 0.), (0., 8., 0.), &t);
    for f in [faces, flipped] {
        let map = world("") + &ent(&[("classname", "func_convex")], &brush(&f));
        let nodes = setup().nodes(&map);
        match collision(&nodes[1]) {
            CollisionGeometry::Convex(shapes) => assert_eq!(shapes[0].points.len(), 1),
            c => panic!("{:?}", c),
        }
    }
''')
