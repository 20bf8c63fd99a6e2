#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes and confirms planted bugs. A spec sets: id, prop, needs, breaks, edits=[(file, old, new)], demo_file (source
file of /repo that the demonstration is appended to for its run), demo (rust code), pkg, or demo_sh (a whole script)."""
import json, os, subprocess, sys, textwrap
R = '/repo'
S = '/verif/seeded'


def sh(cmd, t=900):
    p = subprocess.run(cmd, shell=True, cwd=R, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


DEMO = '''#!/bin/bash
# Appends demo.rs as a test module to a source file for the time of the run.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
f="$PWD/%(file)s"
b=$(mktemp)
cp -p "$f" "$b"
trap 'cp -p "$b" "$f"; rm -f "$b"' EXIT
cat "$d/demo.rs" >> "$f"
touch "$f"
cd "$PWD/%(dir)s" && timeout -k 5 280 cargo test %(args)s --offline --locked zz_demo -- --nocapture
'''


def clean():
    sh('git checkout -q -- .')
    # cargo goes by modification times
    sh("git ls-files -m | xargs -r touch")


for spec in sys.argv[1:]:
    if spec.startswith('-'):
        continue
    g = {}
    exec(open(spec).read(), g)
    d = f"{S}/{g['id']}"
    os.makedirs(d, exist_ok=True)
    assert sh('git status --short')[1] == '', 'dirty /repo'
    try:
        for f, a, b in g['edits']:
            s = open(f'{R}/{f}').read()
            assert s.count(a) == 1, (spec, f, a, s.count(a))
            open(f'{R}/{f}', 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git diff')[1])
    finally:
        clean()
    if 'demo_sh' in g:
        open(d + '/demo.sh', 'w').write(g['demo_sh'])
    else:
        f = g['demo_file']
        open(d + '/demo.sh', 'w').write(DEMO % {'file': f, 'dir': g.get('dir', f.split('/')[0]), 'args': g.get('args', '--lib')})
        open(d + '/demo.rs', 'w').write('\n#[cfg(test)]\nmod zz_demo {\n    use super::*;\n' + textwrap.indent(textwrap.dedent(g['demo']).strip('\n'), '    ') + '\n}\n')
    for n, t in g.get('files', {}).items():
        open(f'{d}/{n}', 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r0, o0 = sh(f'bash {d}/demo.sh')
    print(g['id'], 'demo unchanged:', r0, flush=True)
    if r0:
        print(o0[-2500:])
        continue
    if 'running' in o0 and 'zz_demo' not in o0:
        print('   no demo ran?', o0[-600:])
    touched = ' '.join(f for f, _, _ in g['edits'])
    try:
        assert sh(f'git apply {d}/patch.diff')[0] == 0
        sh(f'touch {touched}')
        r1, o1 = sh(f'bash {d}/demo.sh')
        print('   demo patched:', r1, '' if r1 and ('panicked' in o1 or 'FAIL' in o1) else o1[-1500:], flush=True)
        if '-t' in sys.argv:
            print('   tests:', sh('bash /tmp/rt.sh')[1][:300].replace('\n', ' '))
        r2, o2 = sh(f"cd /verif && ./check {g['prop']} quick")
        print('   check:', r2, '\n'.join(l for l in o2.splitlines() if not l.startswith('      '))[:600], flush=True)
    finally:
        clean()
        sh(f'touch {touched}')
