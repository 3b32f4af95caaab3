#!/usr/bin/env python3
"""Build, confirm and store the planted bugs described in seeds.py under /verif/seeded/<id>/.
usage: plant.py [-n] [id...]     (-n: do not re-confirm, only write)
For each: the patch applies to a scratch copy of /repo, builds, passes the stable tests; the
demonstration exits 0 on the unchanged copy and nonzero on the patched one; every removed line
is one of the original repository's."""
import os, sys, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BASE = '9e1f6af'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable')


def sh(cmd, cwd=None, env=ENV, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def write(seed):
    d = os.path.join(VERIF, 'seeded', seed['id'])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix='plant.', dir='/tmp') as t:
        sh(['git', '-C', REPO, 'worktree', 'prune'])
        rc, out = sh(['git', 'clone', '-q', '--shared', REPO, t + '/r'])
        assert rc == 0, out
        for f, old, new in seed['edits']:
            p = os.path.join(t, 'r', f)
            s = open(p).read()
            n = s.count(old)
            assert n == 1, '%s: %d occurrences of %r in %s' % (seed['id'], n, old, f)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=t + '/r', stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/main.rs', 'w').write('mod kit;\nuse kit::*;\n\nfn main() {\n' + seed['demo'].strip('\n') + '\n}\n' + seed.get('more', ''))
    shutil.copy(HERE + '/kit/kit.rs', d + '/kit.rs')
    shutil.copy(HERE + '/kit/demo.sh', d + '/demo.sh')
    json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    return d


def ours():
    """(file, line number at HEAD) of the lines our own commits added"""
    res = set()
    for f in sh(['git', '-C', REPO, 'ls-files', 'src'])[1].split():
        for i, l in enumerate(sh(['git', '-C', REPO, 'blame', '-s', BASE + '..HEAD', '--', f])[1].split('\n')):
            if l and not l.startswith('^'):
                res.add((f, i + 1))
    return res


def confirm(seed, d, own):
    msgs = []
    f = None
    orig = False
    for l in open(d + '/patch.diff', errors='replace'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(l.split()[1].split(',')[0][1:])
        elif f and l.startswith('-') and not l.startswith('---'):
            if (f, n) in own:
                msgs.append('touches our line %s:%d' % (f, n))
            else:
                orig = True
            n += 1
        elif l.startswith(' '):
            n += 1
    if not orig:
        pass  # additions only
    with tempfile.TemporaryDirectory(prefix='plant.', dir='/tmp') as t:
        r = t + '/r'
        sh(['git', 'clone', '-q', '--shared', REPO, r])
        env = dict(ENV, CARGO_TARGET_DIR=t + '/target', CARGO_INCREMENTAL='0')
        rc, out = sh(['bash', d + '/demo.sh'], cwd=r)
        if rc != 0:
            msgs.append('demo fails on the unchanged tree: ' + out[-600:])
        rc, out = sh(['git', 'apply', d + '/patch.diff'], cwd=r)
        if rc:
            msgs.append('does not apply ' + out)
        rc, out = sh('cargo test --offline --workspace --no-fail-fast 2>&1 | tail -60', cwd=r, env=env)
        if 'test result: ok. 18 passed; 0 failed' not in out:
            msgs.append('tests: ' + out[-1500:])
        rc, out = sh(['bash', d + '/demo.sh'], cwd=r)
        if rc == 0:
            msgs.append('demo passes with the patch')
        elif rc == 2:
            msgs.append('demo does not build/run with the patch ' + out[-500:])
        tail = out.strip().split('\n')[-2:]
    return msgs, rc, tail


def main():
    import seeds
    from concurrent.futures import ThreadPoolExecutor
    args = [a for a in sys.argv[1:] if a != '-n']
    want = [s for s in seeds.SEEDS if not args or s['id'] in args or s['property'] in args]
    own = ours()
    ds = [(s, write(s)) for s in want]
    if '-n' in sys.argv:
        return
    bad = 0
    with ThreadPoolExecutor(5) as ex:
        for (s, d), (msgs, rc, tail) in zip(ds, ex.map(lambda sd: confirm(sd[0], sd[1], own), ds)):
            print(s['id'], 'OK' if not msgs else 'BAD', 'rc=%s' % rc, tail if not msgs else '', flush=True)
            for m in msgs:
                bad = 1
                print('   ', m)
    sys.exit(bad)


if __name__ == '__main__':
    main()
