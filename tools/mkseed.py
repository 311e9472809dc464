#!/usr/bin/env python3
"""mkseed.py: writes /verif/seeded/<id> from a description: the replacements,
made in a scratch copy of /repo's HEAD, become patch.diff."""
import json, os, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# Runs the demonstration as an in-package test, through an overlay.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -count=1 -timeout 120s -run '^TestSeedDemo$' ./%(pkg)s
'''

def seed(id, prop, pkg, edits, test, needs, breaks):
    d = '/verif/seeded/' + id
    w = tempfile.mkdtemp()
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        for f, old, new in edits:
            p = w + '/r/' + f
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f'{id}: {s.count(old)} matches for {old!r} in {f}')
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], check=True, capture_output=True, text=True).stdout
        # Only lines of the original repository may change.
        base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
        for f in {f for f, _, _ in edits}:
            orig = set(subprocess.run(['git', '-C', '/repo', 'show', base + ':' + f], capture_output=True, text=True).stdout.split('\n'))
            for l in diff.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                    print(f'{id}: warning: changes a line that is not original: {l}')
    finally:
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg})
    open(d + '/demo_test.go', 'w').write(test)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    os.chmod(d + '/demo.sh', 0o755)
