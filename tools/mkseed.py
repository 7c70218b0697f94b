#!/usr/bin/env python3
"""mkseed.py FILE.py...: each FILE.py defines BUGS = [(id, property, file, old, new, needs, breaks, demo body)]; writes seeded/<id>/"""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo: builds demo.cpp (beside this file) against the working tree and runs it; exit 0 iff it finds nothing wrong
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
F="-std=c++14 -O0 -DFMT_HEADER_ONLY -DFMT_DEPRECATED_OSTREAM -w -I. -I$D -I/usr/include/eigen3"
i=0
for s in altro/*/*.cpp examples/*.cpp "$D/demo.cpp"; do
  i=$((i + 1)); printf '%s\\0%s\\0' "$s" "$W/$i.o"
done | xargs -0 -n 2 -P 8 sh -c 'g++ '"$F"' -c "$0" -o "$1" 2> "$1.log" || { head -c 2000 "$1.log" >&2; exit 255; }' || exit 3
g++ "$W"/*.o -o "$W/demo" -lpthread || exit 3
cd "$W" && timeout 120 ./demo
'''
for fn in sys.argv[1:]:
    ns = {}
    exec(open(fn).read(), ns)
    for b in ns['BUGS']:
        i, prop, edits, needs, breaks, demo = b
        d = os.path.join(H, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp()
        out = ''
        for f in sorted({e[0] for e in edits}):
            s = open('/repo/' + f).read()
            t = s
            for (ff, old, new) in edits:
                if ff == f:
                    assert t.count(old) == 1, (i, f, t.count(old), old)
                    t = t.replace(old, new)
            for p, c in (('a', s), ('b', t)):
                os.makedirs(os.path.dirname(f'{w}/{p}/{f}'), exist_ok=True)
                open(f'{w}/{p}/{f}', 'w').write(c)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', f'a/{f}', f'b/{f}'], cwd=w, capture_output=True, text=True)
            out += r.stdout
        shutil.rmtree(w)
        lines = []
        for l in out.splitlines():
            if l.startswith('diff --git') or l.startswith('--- ') or l.startswith('+++ '):
                lines.append(l)
            elif l.startswith('index ') or l.startswith('old mode') or l.startswith('new mode'):
                continue
            else:
                lines.append(l)
        open(d + '/patch.diff', 'w').write('\n'.join(lines) + '\n')
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        for h in ('gen.hpp', 'ref.hpp', 'al.hpp'):
            if h in demo or (h == 'gen.hpp' and ('ref.hpp' in demo or 'al.hpp' in demo)):
                shutil.copy(os.path.join(H, 'harness', h), d)
        open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        print(i)
