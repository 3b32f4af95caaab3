#!/usr/bin/env python3
"""Demonstrations of the defects repaired by the "fix:" commits in /repo.
usage: fixes.py [commit...]
For each: its program runs clean at the fix commit, and fails at the commit before it."""
import os, sys, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plant import sh, ENV
FIXES = []


def fix(commit, property, demo):
    FIXES.append((commit, property, demo))


ALL_WAD = '''
    let path = file("demo.wad", &bytes);
    let got = calm(|| wad::read_textures(&path, None, %s)).expect("crashed");
'''

fix('4e39ba1', 'C01', '''
    let map = world("\\"message\\n");
    assert!(setup().run(&map).expect("a malformed property line crashed the process").is_err());
''')
fix('4e39ba1', 'C01', '''
    let map = world(&brush("( 0 0 0 ) ( 0 1 0 ) ( 1 0 zero ) stone 0 0 0 1 1\\n"));
    assert!(setup().run(&map).expect("a malformed face line crashed the process").is_err());
''')
fix('fedfcb4', 'C02', '''
    let map = "{\\n\\"classname\\" \\"worldspawn\\"\\n{\\n";
    assert!(setup().run(map).expect("crashed").is_err(), "a map that ends inside a block was accepted");
''')
fix('6100d48', 'C12', '''
    assert!(setup().run(&ent(&[("classname", "func_group")], "")).expect("crashed").is_err());
''')
fix('dbaac71', 'C16', '''
    let mut s = setup();
    s.fgd.push(fd::Entity::new(fd::ClassType::SolidClass, vec![], "worldspawn", "", vec![
        fd::Property::new("spawnflags", "", "", fd::PropertyData::Flags(vec!["a".into()], 0)),
    ]));
    let nodes = s.nodes(&ent(&[("classname", "worldspawn"), ("spawnflags", "5")], ""));
    let p = &actor(&nodes[0]).0.properties.0["spawnflags"];
    assert!(matches!(p, qd::Property::Flags(5)), "{:?}", p);
''')
fix('0388125', 'C19', '''
    let layers = |s: &mut Setup| for t in ["*water0", "*slime0"] {
        s.layers.push(qd::WorldspawnLayer::new(t.into(), t.into(), qd::EntityType::Placeholder,
            qd::ComponentType::None, qd::VisualType::Mesh, qd::CollisionType::None));
    };
    let map = world(&(unit(0., 0., 0., "*water0") + &unit(64., 0., 0., "*slime0")));
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..64 {
        let mut s = setup();
        layers(&mut s);
        seen.insert(names(&s.nodes(&map)));
    }
    assert!(seen.len() == 1, "{:?}", seen);
''')
fix('7826949', 'C14', '''
    let map = world("") + &ent(&[("message", "hi")], "");
    setup().run(&map).expect("an entity without a classname crashed the process").unwrap();
''')
fix('ed09856', 'C14', '''
    let mut s = setup();
    s.fgd.push(fd::Entity::new(fd::ClassType::SolidClass, vec![], "func_group", "", vec![]));
    let map = world("") + &ent(&[("classname", "func_group"), ("_tb_id", "first")], "");
    s.run(&map).expect("an id that is not a number crashed the process").unwrap();
''')
fix('12a11fa', 'C14', '''
    let map = ent(&[("classname", "worldspawn"), ("_tb_id", "1")], "")
        + &ent(&[("classname", "func_group"), ("_tb_id", "1"), ("_tb_group", "1")], "");
    setup().run(&map).expect("crashed").unwrap();
''')
fix('0c124fd', 'C10', '''
    let mut faces = box_faces((0., 0., 0.), (8., 8., 8.), [&uv("stone"); 6]);
    faces += &face((0., 0., 0.), (0., 0., 0.), (8., 0., 0.), &uv("stone"));
    let nodes = setup().nodes(&world(&brush(&faces)));
    for v in surface(&nodes[0], "stone").vertices {
        assert!(xyz(v).iter().all(|c| c.is_finite()), "{:?}", v);
    }
''')
# 409c570 and 32cda21: see KNOWN in DESIGN.md; both need a face whose vertices or normal are NaN
fix('665f7b5', 'C28', '''
    let p = fd::Property::new("a", "b", "c", fd::PropertyData::Choices(vec![], 3));
    let s = calm(|| p.to_string()).expect("crashed");
    assert!(s.contains("\\"3\\""), "{}", s);
''')
fix('0d786b5', 'C28', '''
    let p = fd::Property::new("a", "b", "c", fd::PropertyData::Flags(vec!["f".into(); 40], 0));
    calm(|| p.to_string()).expect("crashed");
''')
fix('0d786b5', 'C29', '''
    let p = fd::Property::new("a", "b", "c", fd::PropertyData::Flags(vec!["f".into(); 31].into_iter().chain(vec!["sign".to_string()]).collect(), i32::min_value()));
    let s = calm(|| p.to_string()).expect("crashed");
    assert!(s.contains("2147483648 : \\"sign\\" : 1"), "{}", s);
''')
fix('7a5aa70', 'C22', '''
    let bytes = wad_file("WADX", &[lump("stone", 8, 8, 0)], &[0]);
''' + ALL_WAD % 1 + '''
    assert!(got.is_err());
''')
fix('7389d8a', 'C22', '''
    let mut l = lump("stone", 8, 8, 0);
    l.width = 1 << 16;
    l.height = 1 << 16;
    let bytes = wad_file("WAD2", &[l], &[0]);
''' + ALL_WAD % 1 + '''
    assert!(got.is_err());
''')
fix('401b359', 'C22', '''
    // 4 GB of address space are enough to reject a file of 1 KB
    let mut bytes = wad_file("WAD2", &[lump("stone", 8, 8, 0)], &[0]);
    bytes[4..8].copy_from_slice(&[255; 4]);
''' + ALL_WAD % 1 + '''
    assert!(got.is_err());
''')
fix('ac2379c', 'C25', '''
    let l = lump("stone", 16, 16, 0);
    let pixels = l.pixels.clone();
    let bytes = wad_file("WAD2", &[l], &[0]);
''' + ALL_WAD % 4 + '''
    let t = got.unwrap().pop().unwrap();
    assert_eq!(t.mip_data.mip1.unwrap().0, pixels[256..320].to_vec());
    assert_eq!(t.mip_data.mip2.unwrap().0, pixels[320..336].to_vec());
    assert_eq!(t.mip_data.mip3.unwrap().0, pixels[336..340].to_vec());
''')
fix('98bf416', 'C32', '''
    let a = file("a.map", b"");
    let b = file("b.map", b"// one\\n");
    calm(|| run_diff(&a, &b).map_err(|e| e.to_string())).expect("crashed").unwrap();
''')
fix('458eacb', 'C11', '''
    // the top face is listed twice; its vertices are at the positions of the side faces' vertices
    let faces = box_faces((0., 0., 0.), (16., 16., 16.), [&uv("stone"); 6]);
    let top = faces.lines().nth(4).unwrap().to_string() + "\\n";
    let nodes = setup().nodes(&world(&brush(&(faces + &top))));
    let s = surface(&nodes[0], "stone");
    for t in s.indices.chunks(3) {
        let n = s.normals[t[0]];
        let p: Vec<Vector3> = t.iter().map(|i| s.vertices[*i]).collect();
        assert!(n == s.normals[t[1]] && n == s.normals[t[2]], "a triangle mixes faces");
        assert!((p[1] - p[0]).cross(p[2] - p[0]).dot(n).abs() > 1.0, "a triangle's vertices have another face's normal");
    }
''')


def program(d, demo):
    open(d + '/main.rs', 'w').write('mod kit;\nuse kit::*;\n\nfn main() {\n' + demo.strip('\n') + '\n}\n')
    shutil.copy(HERE + '/kit/kit.rs', d + '/kit.rs')
    shutil.copy(HERE + '/kit/demo.sh', d + '/demo.sh')


def main():
    bad = 0
    for commit, prop, demo in FIXES:
        if sys.argv[1:] and commit not in sys.argv[1:]:
            continue
        with tempfile.TemporaryDirectory(prefix='fixes.', dir='/tmp') as t:
            os.mkdir(t + '/d')
            program(t + '/d', demo)
            out = []
            for at in (commit, commit + '^'):
                r = t + '/' + at.replace('^', '-')
                sh(['git', 'clone', '-q', '/repo', r])
                sh(['git', 'checkout', '-q', at], cwd=r)
                rc, o = sh('ulimit -v 4000000; bash %s/d/demo.sh' % t, cwd=r)
                out.append((rc, [l for l in o.strip().split('\n') if 'panicked' not in l and 'RUST_BACKTRACE' not in l and '  at ' not in l and ': <fn' not in l][-2:]))
            ok = out[0][0] == 0 and out[1][0] not in (0, 2)
            bad |= not ok
            print(commit, prop, 'ok' if ok else 'BAD', out[1] if ok else out, flush=True)
    return bad


if __name__ == '__main__':
    sys.exit(main())
