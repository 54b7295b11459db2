#!/usr/bin/env python3
"""try_bug.py [--no-check] ID... : confirms planted bugs of /verif/seeded in a scratch copy (builds, stable tests
pass, demo passes without and fails with the patch), then runs the property's quick check on the patched /repo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SCRATCH = '/tmp/bugrepo'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def prep():
    if not os.path.isdir(SCRATCH):
        sh(f'cp -a {REPO} {SCRATCH}')
    sh(f'git -C {SCRATCH} checkout -q -- . && git -C {SCRATCH} fetch -q {REPO} HEAD && git -C {SCRATCH} reset -q --hard FETCH_HEAD')
def original_lines(patch):
    """every file's removed lines: are any of them from the first commit?"""
    root = sh(f'git -C {REPO} rev-list --max-parents=0 HEAD').stdout.strip()
    n = ours = 0
    f = None; line = 0
    for l in open(patch):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): line = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            b = sh(f'git -C {REPO} blame -l -s -L{line},{line} HEAD -- {f}').stdout.split()[0].lstrip('^')
            n += 1; ours += (not root.startswith(b[:30]))
            line += 1
        elif l.startswith(' '): line += 1
    return n, ours
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--no-check' not in sys.argv
    man = json.load(open(f'{V}/MANIFEST.json'))
    
    for b in args:
        d = f'{V}/seeded/{b}'
        meta = json.load(open(f'{d}/meta.json'))
        prep()
        out = [b]
        n, ours = original_lines(f'{d}/patch.diff')
        out.append(f'lines {n} ({ours} ours)')
        r0 = sh(f'cd {SCRATCH} && bash {d}/demo.sh')
        if r0.returncode: out.append(f'DEMO FAILS UNPATCHED rc={r0.returncode}: ' + (r0.stdout+r0.stderr)[-600:])
        if sh(f'git -C {SCRATCH} apply {d}/patch.diff').returncode: print(b, 'PATCH DOES NOT APPLY'); continue
        s = sh(f'{V}/tools/stable.sh {SCRATCH}')
        if s.returncode: out.append('STABLE TESTS FAIL ' + s.stdout[-300:])
        r1 = sh(f'cd {SCRATCH} && bash {d}/demo.sh')
        if r1.returncode in (0, 2, 3): out.append(f'DEMO PATCHED rc={r1.returncode}: ' + (r1.stdout+r1.stderr)[-600:])
        else: out.append('demo ok: ' + ' / '.join((r1.stdout+r1.stderr).strip().splitlines()[-3:])[-300:])
        sh(f'git -C {SCRATCH} checkout -q -- . ; rm -f {SCRATCH}/target/debug/examples/demo*')
        if check:
            sh(f'git -C {REPO} apply {d}/patch.diff')
            try:
                t = time.time()
                p = meta['property']
                cmd = [c for c in man['checks'] if p in (c.get('property'), c.get('property_id'), c.get('id'))][0]
                q = cmd['quick'] if isinstance(cmd.get('quick'), str) else cmd['quick_cmd']
                c = sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick {q}')
                viol = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                caught = c.returncode == 1 and any(f'property={p} ' in l for l in viol)
                out.append(('CAUGHT' if caught else f'** MISSED ** rc={c.returncode} ' + (c.stdout+c.stderr)[-500:]) + f' {time.time()-t:.0f}s')
                if caught:
                    out.append(' | '.join(l for l in c.stdout.splitlines() if l.strip())[-300:])
            finally:
                sh(f'git -C {REPO} checkout -q -- .')
                sh(f'rm -f {V}/replays/*')
        print('\n   '.join(out), flush=True)
main()
