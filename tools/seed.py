# seed(id, property, needs, breaks, edits, demo_cpp): writes /verif/seeded/<id>/ (patch against /repo's HEAD, demo, meta).
import difflib, json, os, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds the program beside this file against the sources of the current directory (/repo) and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
scratch=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$scratch"' EXIT
g++ -std=c++17 -O1 -w -include "$here/msvc_compat.hpp" -I"$repo/src" -I"$repo/src/ml" -I"$repo/src/lang/statements" \\
    "$here/demo.cpp" -o "$scratch/demo" -ltbb -lpthread || exit 99
mkdir -p "$scratch/w/d"; cd "$scratch/w/d" && timeout 200 "$scratch/demo"
'''
def seed(id, prop, needs, breaks, edits, demo):
    d = f'{V}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    for path, old, new in edits:
        s = files.get(path) or open(f'/repo/src/{path}').read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        files[path] = s.replace(old, new)
    out = ''
    for path, s in files.items():
        a = open(f'/repo/src/{path}').read()
        diff = list(difflib.unified_diff(a.splitlines(True), s.splitlines(True), f'a/src/{path}', f'b/src/{path}'))
        out += f'diff --git a/src/{path} b/src/{path}\n' + ''.join(x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in diff)
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write('#include <bits/stdc++.h>\n' + demo.lstrip('\n'))
    shutil.copy(V + '/compat/msvc_compat.hpp', d + '/msvc_compat.hpp')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
