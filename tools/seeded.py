#!/usr/bin/env python3
"""Which checks see which planted bugs (development aid, not a check). usage: seeded.py <workdir> [id...] ;
works in a scratch copy; ALL=1 runs every check against every bug, TIER=thorough the thorough ones."""
import sys, os, json, subprocess, time
W = sys.argv[1]; ids = sys.argv[2:] or sorted(os.listdir('/verif/seeded'))
R, V = W + '/repo', W + '/verif'
def sh(c, cwd=None, t=1000):
    try: p = subprocess.run(c, shell=True, cwd=cwd, env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), FOLIA_SIM_NOMIN='1', FOLIA_VERIF=V), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124, 'timeout'
if not os.path.isdir(W): os.makedirs(W); sh(f'cp -a /repo {R}'); sh(f'mkdir {V}')
sh(f'git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD')
sh(f"cd /verif && cp -a check.sh known-findings.txt {V}/ && mkdir -p {V}/sim && cp -a sim/src sim/rustc-cover.sh sim/Cargo.toml sim/Cargo.lock sim/shim.c {V}/sim/ && sed -i 's#/repo#{R}#g' {V}/check.sh {V}/sim/Cargo.toml")
for id in ids:
    meta = json.load(open(f'/verif/seeded/{id}/meta.json'))
    sh(f'git -C {R} checkout -q -- .')
    rc, o = sh(f'git -C {R} apply /verif/seeded/{id}/patch.diff')
    if rc: print(id, 'DOES NOT APPLY', o); continue
    props = [f'C{i:02}' for i in range(1, 20)] if os.environ.get('ALL') else [meta['property']]
    res = []
    for p in props:
        t = time.time(); rc, o = sh(f'bash check.sh {p} {os.environ.get("TIER", "quick")}', V)
        if rc == 1 and f'VIOLATION property={p}' in o: res.append(p + f'({time.time() - t:.0f}s)')
        elif rc: res.append(f'{p}:rc{rc}' + o[-300:])
    print('CAUGHT' if meta['property'] in ' '.join(res) else 'MISSED', id, meta['property'], res, flush=True)
sh(f'git -C {R} checkout -q -- .')
