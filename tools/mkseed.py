#!/usr/bin/env python3
"""mkseed.py [ids]: makes the patches of tools/seeds.py in a scratch clone and fills /verif/seeded/<id>."""
import sys, json, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def make(id, prop, demo, args, edits, needs, breaks, only, cflags, cc, files, env):
    d = tempfile.mkdtemp(prefix='seed'); w = d + '/w'
    sh('git clone -q /repo ' + w)
    for f, a, b in edits:
        p = w + '/src/' + f; s = open(p).read()
        if callable(a): s = a(s)
        else:
            assert s.count(a) == 1, (id, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, 'w').write(s)
    if only is None: sh('bash gen.sh', w + '/src')
    diff = sh('git diff', w).stdout
    shutil.rmtree(d)
    o = V + '/seeded/' + id
    if os.path.isdir(o): shutil.rmtree(o)
    os.makedirs(o)
    open(o + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
    inc = [x for x in ('hook.h', 'delay.h') if '#include "%s"' % x in open(V + '/tools/demo/' + demo).read()]
    for f in ['base.h', demo] + inc + list(files): shutil.copy(V + '/tools/demo/' + f, o)
    open(o + '/demo.sh', 'w').write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cfg=$(dirname "$(find "$r/_build/Release" -name lace_config.h | head -1)")
%s -O1 -g -w -pthread %s -I"$d" -I"$r/src" -I"$cfg" "$d/%s" -o "$t/demo" || exit 3
%stimeout 250 "$t/demo" %s
''' % (cc, cflags, demo, env, args))
    os.chmod(o + '/demo.sh', 0o755)
if __name__ == '__main__':
    import importlib.util
    spec = importlib.util.spec_from_file_location('seeds', V + '/tools/seeds.py'); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.SEEDS:
        if len(sys.argv) == 1 or s['id'] in sys.argv[1:]: make(**s); print(s['id'])
