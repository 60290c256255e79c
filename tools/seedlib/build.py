#!/usr/bin/env python3
"""seedlib/build.py DEFS.py [id...]: (re)creates /verif/seeded/<id>/ from the definitions in DEFS.py.
A definition is S(id, property, needs, breaks, [(file, old, new), ...], rust=BODY or py=BODY)."""
import sys, os, subprocess, json, shutil
LIB = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
WORK = '/tmp/seed/build'
want = set(sys.argv[2:])

def sh(*a): return subprocess.run(a, check=True, capture_output=True, text=True).stdout

def S(id, prop, needs, breaks, edits, rust=None, py=None):
    if want and id not in want: return
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    sh('git', '-C', '/repo', 'worktree', 'prune')
    sh('sh', '-c', f'git -C /repo archive HEAD | tar -x -C {WORK}')
    sh('git', '-C', WORK, 'init', '-q'); sh('git', '-C', WORK, 'add', '-A')
    sh('git', '-C', WORK, '-c', 'user.name=x', '-c', 'user.email=x@x', 'commit', '-qm', 'x')
    for f, old, new in edits:
        p = f'{WORK}/{f}'; t = open(p).read()
        if t.count(old) != 1:
            print(f'{id}: {f}: old text found {t.count(old)} times'); return
        open(p, 'w').write(t.replace(old, new))
    d = f'{OUT}/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f'{d}/patch.diff', 'w').write(sh('git', '-C', WORK, 'diff'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=2)
    if rust:
        shutil.copy(f'{LIB}/rust_demo.sh', f'{d}/demo.sh')
        open(f'{d}/demo.rs', 'w').write(open(f'{LIB}/demo_head.rs').read() + rust.lstrip('\n'))
    else:
        shutil.copy(f'{LIB}/py_demo.sh', f'{d}/demo.sh')
        open(f'{d}/demo.py', 'w').write(open(f'{LIB}/demo_head.py').read() + py.lstrip('\n'))
    os.chmod(f'{d}/demo.sh', 0o755)
    print('built', id)

exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
