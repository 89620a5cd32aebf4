#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): plants small changes in a scratch copy of /repo and
asks which checks see them. usage: mutate.py <workdir> <seed> <count> [file regex]"""
import sys, os, re, random, subprocess, json, shutil, time
W, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = re.compile(sys.argv[4] if len(sys.argv) > 4 else r'(attrib|document|element|elementstore|error|metadata|parser|query|select|serialiser|store|text|xx)\.rs$')
ORDER = os.environ.get("ORDER", "C01 C06 C08 C09 C07 C10 C11 C15 C16 C02 C03 C04 C13 C14 C12 C17 C18 C05 C19").split()
R, V = W + '/repo', W + '/verif'
env = dict(os.environ, VERIF_SEED='1', FOLIA_SIM_NOMIN='1')
env.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
def sh(c, cwd=None, t=900, **kw):
    try: p = subprocess.run(c, shell=True, cwd=cwd, env=dict(env, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124, 'timeout'
def setup():
    if os.path.isdir(W): return
    os.makedirs(W)
    sh(f'cp -a /repo {R}'); sh(f'mkdir {V}; cd /verif; cp -a check.sh known-findings.txt {V}/; mkdir {V}/sim; cp -a sim/src sim/Cargo.toml sim/Cargo.lock sim/shim.c sim/rustc-cover.sh {V}/sim/')
    sh(f"sed -i 's#/repo#{R}#g' {V}/check.sh {V}/sim/Cargo.toml; sed -i 's#^\\[ -f /opt/vp/env.sh.*##' {V}/check.sh")
def candidates():
    out = []
    for d, _, fs in os.walk(R + '/src'):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not FILES.search(p): continue
            lines = open(p).read().split('\n')
            skip = False
            for i, l in enumerate(lines):
                if 'cfg(test)' in l: break
                s = l.strip()
                if s.startswith('//') or s.startswith('#') or s.startswith('use ') or not s or 'eprintln' in s: continue
                code = l.split('//')[0]
                def add(n, k): out.append((p, i, l, n, k)) if n != l else None
                for a, b in [(' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' < ', ' <= '), (' > ', ' >= '), (' + 1', ' + 2'), (' - 1', ' - 2'), ('true', 'false'), ('false', 'true'), ('.is_some()', '.is_none()'), ('.is_none()', '.is_some()'), ('if !', 'if '), ('.rev()', ''), ('.is_empty()', '.is_empty() == false'), ('.last()', '.first()'), ('.first()', '.last()'), ('push(', 'insert(0, '), ('Some(0)', 'None'), ('continue', 'break'), ('break', 'continue'), ('Recursion::Always', 'Recursion::No'), ('Cmp::Some', 'Cmp::Any'), ('Cmp::Any', 'Cmp::Some'), ('Cmp::None', 'Cmp::Any'), ('parent_key', 'child_key'), ('.begindatetime', '.enddatetime'), ('"set"', '"sett"'), ('unescape_and_decode_value', 'decode_value_x'), ('.next()', '.nth(1)'), ('Some(key)', 'None'), ('.insert(', '.entry('),]:
                    for m in re.finditer(re.escape(a), code):
                        add(l[:m.start()] + b + l[m.end():], f'{a.strip()}->{b.strip()}')
                if re.match(r'^\s+[A-Za-z_][\w.]*(\(|\.| [+\-*/]?= ).*;\s*$', code) and not s.startswith('let ') and not s.startswith('return') and not s.startswith('type '):
                    add(re.match(r'^\s*', l).group(0) + '{}', 'delete')
                if re.match(r'^\s+if .* \{\s*$', code) and ' let ' not in code:
                    add(re.sub(r'if (.*) \{\s*$', r'if false && (\1) {', l), 'if-false'); add(re.sub(r'if (.*) \{\s*$', r'if true || (\1) {', l), 'if-true')
                m = re.match(r'^(\s+)(.*)\?;\s*$', code)
                if m and not s.startswith('let '): add(m.group(1) + 'let _ = ' + m.group(2) + ';', 'ignore-error')
                m = re.match(r'^(\s+)(.*=> )(\{)?\s*return Err', code)
                if m is None and re.match(r'^\s+return Err\(.*\);\s*$', code): add(re.match(r'^\s*', l).group(0) + '{}', 'no-error')
                for m in re.finditer(r'(AttribType|ElementGroup|DataType)::(\w+)', code):
                    pass
    return out
def main():
    setup()
    c = candidates(); rnd = random.Random(seed); rnd.shuffle(c)
    byfile = {}
    for x in c: byfile.setdefault(x[0], []).append(x)
    order = []
    while any(byfile.values()):
        for f in sorted(byfile):
            n = max(1, len(byfile[f]) // 60)
            for _ in range(n):
                if byfile[f]: order.append(byfile[f].pop())
    log = open(W + f'/results.{seed}.jsonl', 'a')
    random.Random(seed + 1).shuffle(order) if False else None
    done = 0
    for (p, i, old, new, kind) in order:
        if done >= count: break
        src = open(p).read(); L = src.split('\n')
        if L[i] != old: continue
        L[i] = new; open(p, 'w').write('\n'.join(L))
        try:
            rc, o = sh('cargo build --offline', R, 200, CARGO_TARGET_DIR=R + '/target')
            if rc: continue
            rc, o = sh('cargo test --workspace --offline -- --test-threads 8', R, 120, CARGO_TARGET_DIR=R + '/target')
            if rc: continue
            done += 1
            caught = None; bad = []; t0 = time.time()
            for prop in ORDER:
                rc, o = sh(f'bash check.sh {prop} quick', V, 600, FOLIA_VERIF=V, FOLIA_SIM_RUNS=str({'C05': 300, 'C19': 4, 'C18': 30, 'C17': 300}.get(prop, int(os.environ.get('RUNS', '1000')))))
                if rc == 1 and 'VIOLATION property=' + prop in o: caught = (prop, o.strip().split('\n')[0][:300]); break
                if rc not in (0, 1): bad.append((prop, rc, o[-300:]))
            r = dict(file=p[len(R) + 1:], line=i + 1, kind=kind, old=old.strip(), new=new.strip(), caught=caught, bad=bad, t=round(time.time() - t0))
            log.write(json.dumps(r) + '\n'); log.flush()
            print(('CAUGHT ' + caught[0] if caught else 'MISSED'), r['file'], r['line'], kind, '|', old.strip()[:120], '|', [b[0] for b in bad], r['t'], flush=True)
        finally:
            open(p, 'w').write(src)
main()
