#!/usr/bin/env python3
"""Try edits that keep the behaviour (refactors.py): every check has to stay quiet.
usage: refactor.py [-b] [-v] [id-prefix...]   (-b: only apply, build and test; -v: verbose report)"""
import os, sys, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE) + '/analysis')
import trial, refactors
from plant import sh, ENV


def prepare(r, d, target):
    rc, out = sh(['git', 'clone', '-q', '--shared', '/repo', d])
    assert rc == 0, out
    for f, old, new in r['edits']:
        if old is None:
            continue
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return '%d occurrences of %r in %s' % (n, old[:200], f)
        open(p, 'w').write(s.replace(old, new))
    rc, out = sh('cargo test --offline --target-dir %s 2>&1' % target, cwd=d)
    if rc:
        return out[-2500:]


def main():
    args0 = args = sys.argv[1:]
    only = '-b' in args
    verbose = '-v' in args
    args = [a for a in args if a[0] != '-']
    for r in refactors.REFS:
        if args and not any(r['id'].startswith(a) for a in args):
            continue
        with tempfile.TemporaryDirectory(prefix='refac.', dir='/tmp') as t:
            d = t + '/r'
            err = prepare(r, d, '/tmp/refac.target')
            if err:
                print('== %s DOES NOT BUILD: %s' % (r['id'], err), flush=True)
                continue
            if only:
                print('== %s ok' % r['id'], flush=True)
                continue
            res = trial.evaluate(d, t, files=None if '-a' in args0 else sorted(set(e[0] for e in r['edits'])))
            bad = any(res[p][0] for p in res)
            print('**' if bad else '  ', end='')
            trial.report(r['id'], res, not verbose)


if __name__ == '__main__':
    main()
