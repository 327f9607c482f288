"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py and verifies it: `mkseed.py ID...` (or all).
A seed file defines PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (C++ text) or DEMO_SH."""
import difflib, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# exit 0: the property holds for this case; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 0
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/boost/unordered"
[ -e /usr/include/boost/unordered/concurrent_flat_set.hpp ] || printf '#pragma once\n' > "$T/boost/unordered/concurrent_flat_set.hpp"
cat > "$T/compat.h" <<'EOF'
#pragma once
#include <boost/variant.hpp>
#include <variant>
namespace std {
template <class T, class... Ts>
const T* get_if(const boost::variant<Ts...>* v) { return boost::get<T>(v); }
}
EOF
clang++-18 -std=c++20 -O0 @FLAGS@ -w -isystem "$T" -include "$T/compat.h" -DCGAL_USE_GMPXX=1 \
  -DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=3 -Iinclude -I"$D" @SRC@ -o "$T/demo" \
  -lgmpxx -lgmp -lmpfr -lpthread -lboost_container -lboost_program_options 2> "$T/log" || { cat "$T/log" >&2; exit 3; }
cd "$T" || exit 0
timeout 250 ./demo @ARGS@ > "$T/out" 2>&1
r=$?
grep -v '\.\.\.$' "$T/out" | tail -5
exit $r
'''


def load(i):
    s = importlib.util.spec_from_file_location('s', os.path.join(ROOT, 'tools', 'seeds', i + '.py'))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def make(i):
    m = load(i)
    d = os.path.join(ROOT, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    patch = ''
    texts = {}
    for f, old, new in m.EDITS:
        a = texts.get(f) or open('/repo/' + f).read()
        if old not in a:
            return i, 'EDIT FAILED: ' + old[:60]
        texts[f] = a.replace(old, new, 1)
    for f, b in texts.items():
        a = open('/repo/' + f).read()
        patch += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(d + '/meta.json', 'w'), indent=1)
    sh = getattr(m, 'DEMO_SH', None) or SH.replace('@FLAGS@', getattr(m, 'FLAGS', '')).replace(
        '@SRC@', getattr(m, 'SRC', '"$D/demo.cc"')).replace('@ARGS@', getattr(m, 'ARGS', ''))
    open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
    if hasattr(m, 'DEMO'):
        open(d + '/demo.cc', 'w').write(m.DEMO)
        if 'demo_util.h' in m.DEMO:
            shutil.copy(os.path.join(ROOT, 'tools', 'demo_util.h'), d)
    res = []
    for patched in (False, True):
        t = tempfile.mkdtemp(prefix='seed-')
        try:
            for s in ('include', 'cli', 'tests', 'meshes'):
                if os.path.exists('/repo/' + s):
                    shutil.copytree('/repo/' + s, t + '/' + s)
            if patched:
                r = subprocess.run(['patch', '-p1', '-s', '-i', d + '/patch.diff'], cwd=t, capture_output=True, text=True)
                if r.returncode:
                    return i, 'PATCH FAILED ' + r.stdout
            r = subprocess.run(['bash', d + '/demo.sh'], cwd=t, capture_output=True, text=True)
            res.append((r.returncode, (r.stdout + r.stderr)[-300:]))
        finally:
            shutil.rmtree(t)
    ok = res[0][0] == 0 and res[1][0] not in (0, 3)
    return i, ('ok ' if ok else 'BAD ') + repr(res)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'tools', 'seeds')) if f.endswith('.py'))
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(make, ids):
            print(i, r, flush=True)
