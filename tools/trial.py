#!/usr/bin/env python3
"""Run every check against a copy of the repository, sharing views between properties.
usage: trial.py [-q] [-p C01,C02] name[=patch]...   patch defaults to seeded/<name>/patch.diff
       trial.py -d DIR            an already prepared copy
prints, per copy: the properties that report (with the first finding) and what was undecided."""
import os, sys, json, subprocess, tempfile, shutil, threading, resource, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/analysis')
sys.setrecursionlimit(400000)
sys.dont_write_bytecode = True


FILES = '/tmp/viewfiles.json'


def touched():
    """view -> source files whose functions it goes through on the unchanged tree"""
    if not os.path.exists(FILES):
        import dump
        import rules, views
        d = dump.dump('/tmp/viewfiles.dump')
        views.Prog(d)

        def one(n):
            P = views.Prog(d)
            d_ = P.d
            r = views.VIEWS[n](P, n)
            fs = set()
            for b in d_['bodies'].values():
                if b['local'] and r.I and b['path'] in r.I.visited:
                    fs.add(b['span'][0])
            return n, sorted(fs)
        res = {}
        threading.stack_size(512 << 20)

        def body():
            for n in views.VIEWS:
                res[n] = one(n)[1]
        t = threading.Thread(target=body)
        t.start()
        t.join()
        json.dump(res, open(FILES, 'w'), indent=1)
    return json.load(open(FILES))


def evaluate(repo, tmp, props=None, files=None):
    """{property: (findings, undecided)}; files: the ones that differ from the unchanged tree"""
    import dump
    dump.REPO = repo
    dumpf = dump.dump(os.path.join(tmp, 'd.json'))
    import rules
    groups = {}
    for pid, js in rules.table().items():
        if props and pid not in props:
            continue
        for j in js:
            groups.setdefault(tuple(j.views), []).append((pid, j))
    if files is not None:
        tv = touched()
        groups = {g: v for g, v in groups.items() if any(y.endswith(f) for n in g for y in tv.get(n, []) for f in files) or not g}
    order = sorted(groups, key=lambda g: g != ('run',))
    procs = []
    for i, g in enumerate(order):
        out = os.path.join(tmp, 'o%d' % i)
        pid_ = os.fork()
        if pid_ == 0:
            try:
                resource.setrlimit(resource.RLIMIT_AS, (int(os.environ.get('QMEM', '12')) << 30,) * 2)
                threading.stack_size(512 << 20)

                def body():
                    import traceback
                    cx = rules.Ctx(dumpf, g)
                    res = {}
                    for pid, j in groups[g]:
                        cx.findings, cx.undecided = [], []
                        try:
                            j(cx)
                        except Exception:
                            cx.undecided.append('internal: ' + traceback.format_exc()[-600:])
                        f, u = res.setdefault(pid, ([], []))
                        f += [[x.key, x.text] for x in cx.findings]
                        u += cx.undecided
                    json.dump(res, open(out, 'w'))
                t = threading.Thread(target=body)
                t.start()
                t.join()
            finally:
                os._exit(0)
        procs.append((pid_, g, out))
    res = {}
    for pid_, g, out in procs:
        os.waitpid(pid_, 0)
        if not os.path.exists(out):
            for pid, j in groups[g]:
                res.setdefault(pid, ([], []))[1].append('%s died' % (g,))
            continue
        for pid, (f, u) in json.load(open(out)).items():
            a = res.setdefault(pid, ([], []))
            a[0].extend(f)
            a[1].extend(u)
    return res


def prepare(tmp, patch):
    r = os.path.join(tmp, 'r')
    subprocess.run(['git', 'clone', '-q', '--shared', '/repo', r], check=True)
    p = subprocess.run(['git', 'apply', patch], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        print('PATCH DOES NOT APPLY', patch, p.stdout.decode()[:300])
        return None
    return r


def report(name, res, quiet=False, prop=None):
    hit = [p for p in sorted(res) if res[p][0]]
    und = [p for p in sorted(res) if res[p][1]]
    mark = '' if prop is None else ('CAUGHT' if prop in hit else 'MISSED' if prop not in und else 'UNDECIDED')
    print('== %s %s %s reports: %s; undecided: %s' % (name, prop or '', mark, ' '.join(hit) or '-', ' '.join(und) or '-'), flush=True)
    if not quiet:
        seen = set()
        for p in hit:
            for k, t in res[p][0][:2]:
                if k not in seen:
                    seen.add(k)
                    print('   %s %s\n      %s' % (p, k[:150], t[:700]))
        for p in und:
            for u in sorted(set(res[p][1]))[:3]:
                if u not in seen:
                    seen.add(u)
                    print('   %s ? %s' % (p, u[:300]))
    sys.stdout.flush()


def main():
    args = sys.argv[1:]
    quiet = '-q' in args
    args = [a for a in args if a != '-q']
    props = None
    if '-p' in args:
        i = args.index('-p')
        props = args[i + 1].split(',')
        del args[i:i + 2]
    if args and args[0] == '-d':
        with tempfile.TemporaryDirectory(prefix='trial.', dir='/tmp') as t:
            report(args[1], evaluate(os.path.abspath(args[1]), t, props), quiet)
        return
    if not args:
        args = sorted(os.listdir(V + '/seeded'))
    for a in args:
        name, _, patch = a.partition('=')
        d = V + '/seeded/' + name
        prop = None
        if not patch:
            patch = d + '/patch.diff'
            prop = json.load(open(d + '/meta.json'))['property']
        with tempfile.TemporaryDirectory(prefix='trial.', dir='/tmp') as t:
            r = prepare(t, os.path.abspath(patch))
            if r:
                report(name, evaluate(r, t, props if props != ['own'] else [prop]), quiet, prop)


if __name__ == '__main__':
    main()
