#!/usr/bin/env python3
"""Development aid (no check uses it): plants one bug in a scratch copy of /repo and says what happens to it.

  mut.py --seeded ID [CHECK...]   only runs the check(s) against a bug already kept
  mut.py BUG.py [--no-tests] [--only-check]     BUG.py defines: id, prop, edits=[(file, old, new)], needs, breaks, demo (text of demo.sh)
                                 and optionally files={name: text}, checks=[props to run]

Makes /tmp/w/ID (copy of /repo with the change), builds it, runs the stable tests there, the demo on /repo and on
the copy, and the checks with YSIM_REPO; keeps a confirmed one in /verif/seeded/ID. Removes the copy."""
import json, os, re, shutil, subprocess, sys
W = '/tmp/w'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def runchecks(d, props):
    res = []
    for p in props:
        # one at a time: each uses all cores
        r = sh(f'flock {W}/checklock env YSIM_REPO={d} /verif/check {p}')
        v = re.findall(r'^VIOLATION.*$', r.stdout, re.M)
        desc = [l for l in r.stdout.splitlines() if l.strip()][:60]
        res.append(f'check {p} exit {r.returncode} {"CAUGHT" if r.returncode == 1 and v else "MISSED"}' + (' | ' + ' / '.join(x[:140] for x in desc if 'VIOLATION' in x or 'detail' in x or 'violation' in x)[:300] if v else ' ' + r.stdout[-600:]))
    return res

def seeded(mid, props):
    d = f'{W}/{mid}'
    sh(f'rm -rf {d}; mkdir -p {W} && cp -a /repo {d}')
    r = sh(f'git -C {d} apply /verif/seeded/{mid}/patch.diff')
    if r.returncode: print(mid, 'DOES NOT APPLY', r.stdout)
    else:
        props = props or [json.load(open(f'/verif/seeded/{mid}/meta.json'))['property']]
        print(mid, '\n   ' + '\n   '.join(runchecks(d, props)), flush=True)
    shutil.rmtree(d, ignore_errors=True)

def main():
    if sys.argv[1] == '--seeded': return seeded(sys.argv[2], sys.argv[3:])
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    mid = ns['id']; d = f'{W}/{mid}'
    out = f'/verif/seeded/{mid}'
    sh(f'rm -rf {d}')
    sh(f'mkdir -p {W} && cp -a /repo {d}')
    for f, old, new in ns['edits']:
        s = open(f'{d}/{f}').read()
        n = s.count(old)
        if n != 1: print(mid, f'EDIT MATCHES {n} TIMES in {f}: {old[:60]!r}'); return
        open(f'{d}/{f}', 'w').write(s.replace(old, new))
    patch = sh(f'git -C {d} diff').stdout
    tmp = f'{W}/{mid}.s'
    sh(f'rm -rf {tmp}'); os.makedirs(tmp)
    open(f'{tmp}/patch.diff', 'w').write(patch)
    open(f'{tmp}/demo.sh', 'w').write(ns['demo'].lstrip())
    os.chmod(f'{tmp}/demo.sh', 0o755)
    for n, t in ns.get('files', {}).items(): os.makedirs(os.path.dirname(f'{tmp}/{n}'), exist_ok=True); open(f'{tmp}/{n}', 'w').write(t.lstrip('\n'))
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(f'{tmp}/meta.json', 'w'), indent=1)
    vp = f'{W}/{mid}.vp'; sh(f'rm -rf {vp}'); os.makedirs(vp)
    for n in ('build.sh', 'test.sh', 'run_tests.py', 'preload.js', 'results.py'):
        s = open(f'/opt/vp/{n}').read()
        s = s.replace('/opt/vp/', vp + '/').replace('/repo', d)
        open(f'{vp}/{n}', 'w').write(s)
    res = []
    ok = True
    if '--only-check' not in sys.argv:
        b = sh(f'bash {vp}/build.sh')
        if b.returncode: print(mid, 'BUILD FAILED\n', b.stdout[-3000:]); ok = False
        if ok and '--no-tests' not in sys.argv:
            t = sh(f'bash {vp}/test.sh {vp}/o.json')
            base = json.load(open('/opt/vp/BASELINE.json')); base = base['stable']
            got = set(json.load(open(f'{vp}/o.json'))['passed'])
            miss = [x for x in base if x not in got]
            res.append(f'tests missing {len(miss)} {miss[:3]}')
            if miss: ok = False
        r = sh(f'bash {tmp}/demo.sh', cwd='/repo', timeout=300)
        res.append(f'demo base {r.returncode}')
        if r.returncode: ok = False; res.append(r.stdout[-500:])
        r = sh(f'bash {tmp}/demo.sh', cwd=d, timeout=300)
        res.append(f'demo mut {r.returncode} {r.stdout[-150:].strip()!r}')
        if not r.returncode: ok = False
    res += runchecks(d, ns.get('checks', [ns['prop']]))
    print(mid, 'OK' if ok else 'REJECTED', '\n   ' + '\n   '.join(res), flush=True)
    if ok and '--only-check' not in sys.argv and '--no-tests' not in sys.argv:
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
    for x in (d, tmp, vp): shutil.rmtree(x, ignore_errors=True)
main()
