#!/usr/bin/env python3
"""Development aid (not used by any check): tries planted bugs on /repo and writes /verif/seeded/<id>.
   seed.py <bugs.py> [id ...]      bugs.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, kind='history'|'pure', groups=...)]
For each: edit /repo, build, run the repository's tests, run the property's check, find a shortest history (or call)
on which the changed code differs from the unchanged one, undo, write patch.diff, demo.sh, meta.json."""
import sys, os, time, json, subprocess, shutil, runpy, itertools
V = '/tmp/w/verif'; R = '/tmp/w/repo'; S = '/tmp/s'; SEEDED = '/verif/seeded'   # scratch copies of /verif and /repo
os.makedirs(S, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def undo(): sh('git -C /tmp/w/repo checkout -- .')
def build(which, to):
    r = sh(f'bash {V}/{which}/build.sh')
    if r.returncode: return r.stderr[-1500:]
    shutil.copy(f'{V}/{which}/target/debug/v' + ('harness' if which == 'harness' else 'pure'), to)
PROFS = ['mix', 'swap', 'ticks', 'liq', 'fees', 'nft', 'admin', 'route', 'funds', 'query', 'extreme', 'drain', 'stack', 'ops', 'many', 'wide']
def norm(l):
    try: o = json.loads(l)
    except Exception: return l
    o.pop('err', None); return json.dumps(o, sort_keys=True)
def run(binary, args, timeout=60):
    try:
        r = subprocess.run([binary] + args, capture_output=True, text=True, timeout=timeout)
        return r.stdout.splitlines() + ([f'exit {r.returncode}'] if r.returncode else [])
    except subprocess.TimeoutExpired: return ['timeout']
def first_diff(a, b):
    for i, (x, y) in enumerate(itertools.zip_longest(a, b, fillvalue='')):
        if x != y and norm(x) != norm(y): return i
    return None
def items(lines):
    o0 = json.loads(lines[0]); its = []
    for l in lines[1:]:
        o = json.loads(l)
        if 'q' in o and o.get('for') != 'next': its.append({'q': o['q']})
        elif 'op' in o: its.append(o['op'])
    return dict(pfee=o0['pfee'], rich=o0['rich'], poor=o0['poor'], ops=its)
def replay_differs(h):
    f = f'{S}/r.json'; json.dump(h, open(f, 'w'))
    a = run(f'{S}/good', ['replay', f]); b = run(f'{S}/bad', ['replay', f], 30)
    return first_diff(a, b) is not None
def minimise(h):
    t0 = time.time()
    n = max(1, len(h['ops']) // 2)
    while n >= 1:
        i = len(h['ops']) - 1
        while i >= 0 and time.time() - t0 < 90:
            c = dict(h, ops=h['ops'][:max(0, i - n + 1)] + h['ops'][i + 1:])
            if replay_differs(c): h = c; i = min(i, len(h['ops'])) - 1 if n == 1 else len(h['ops']) - 1 if i > len(h['ops']) else i - n
            else: i -= n
        n //= 2
    return h
def search_history(profs, budget):
    best = None
    for p in profs:
        for h in range(budget):
            a = run(f'{S}/good', ['drive', '77', str(h), str(h + 1), '1', '0', p]); b = run(f'{S}/bad', ['drive', '77', str(h), str(h + 1), '1', '0', p])
            i = first_diff(a, b)
            if i is None: continue
            lines = [a[0]] + a[1:i + 1]
            if json.loads(a[i]).get('for') == 'next' and i + 1 < len(a): lines.append(a[i + 1])
            x = items(lines)
            if best is None or len(x['ops']) < len(best['ops']): best = x
        if best: break
    return best
def search_pure(groups):
    for g in groups:
        for n in (2000, 40000):
            for seed in range(1, 4):
                args = [g, str(seed), '0', '1', str(n)]
                a = run(f'{S}/goodp', args, 300); b = run(f'{S}/badp', args, 300)
                i = first_diff(a, b)
                if i is not None: return args, [i + 1, min(len(a), i + 20)], a[i:i + 20]
    return None
DEMO_H = r'''#!/bin/bash
# builds the driver beside this script against the tree in the current directory, carries out ops.json on
# the contract and compares results, states and answers with what the contract has to do (expected.json)
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
cp -r "$here/driver/." "$t" && sed -i "s#/repo/#$repo/#" "$t/Cargo.toml" || exit 2
export RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
(cd "$t" && cargo build --offline -q) || exit 3
timeout 60 "$t/target/debug/vharness" replay "$here/ops.json" > "$t/got"
python3 - "$t/got" "$here/expected.json" <<'P'
import json, sys
def load(f):
    r = []
    for l in open(f):
        try: o = json.loads(l)
        except ValueError: o = {'line': l}
        o.pop('err', None); r.append(o)
    return r
a, b = load(sys.argv[1]), load(sys.argv[2])
for x, y in zip(a, b):
    if x != y: sys.exit('differs at ' + json.dumps(y.get('op') or y.get('q')) + '\n got      ' + json.dumps(x)[:600] + '\n expected ' + json.dumps(y)[:600])
if len(a) != len(b): sys.exit('the history stops early')
print('as expected')
P
'''
DEMO_P = r'''#!/bin/bash
# builds the caller beside this script against the tree in the current directory and compares some calls with
# what the functions have to give (expected.txt)
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
cp -r "$here/driver/." "$t" && sed -i "s#/repo/#$repo/#" "$t/Cargo.toml" || exit 2
export RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTFLAGS="--cfg verif_hooks"
(cd "$t" && cargo build --offline -q) || exit 3
timeout 200 "$t/target/debug/vpure" @ARGS@ | sed -n '@LINES@p' > "$t/got"
diff "$t/got" "$here/expected.txt" && echo as expected
'''
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']; only = sys.argv[2:]
    undo()
    if not os.path.exists(f'{S}/good') or os.environ.get('FRESH'):
        print(build('harness', f'{S}/good') or '', build('pure', f'{S}/goodp') or '')
    stable = set(json.load(open('/tmp/w/vp/BASELINE.json'))['stable'])
    for bug in bugs:
        if only and bug['id'] not in only: continue
        d = f"{SEEDED}/{bug['id']}"
        if os.path.exists(d + '/meta.json') and not only: continue
        res = []
        try:
            bad = None
            for f, old, new in bug['edits']:
                p = f'{R}/{f}'; s = open(p).read()
                if s.count(old) < 1: bad = 'no match in ' + f; break
                i = s.rfind(old) if bug.get('last') else s.find(old)
                open(p, 'w').write(s[:i] + new + s[i + len(old):])
            if bad: print(bug['id'], 'BAD EDIT', bad); undo(); continue
            patch = sh('git -C /tmp/w/repo diff').stdout
            r = sh('bash /tmp/w/vp/build.sh')
            if r.returncode: print(bug['id'], 'DOES NOT BUILD', r.stderr[-800:]); undo(); continue
            sh(f'bash /tmp/w/vp/test.sh {S}/t.json'); t = json.load(open(f'{S}/t.json'))
            miss = stable - set(t['passed'])
            if miss: print(bug['id'], 'TESTS FAIL', len(miss), sorted(miss)[:4]); undo(); continue
            pure = bug.get('kind') == 'pure'
            e = build('harness', f'{S}/bad') if not pure else build('pure', f'{S}/badp')
            if e: print(bug['id'], 'HARNESS FAILS', e); undo(); continue
            verdicts = {}
            for pr in [bug['prop']] + bug.get('also', []):
                r = sh(f'cd {V} && node tools/check.js {pr}')
                verdicts[pr] = {0: 'missed', 1: 'caught'}.get(r.returncode, 'error ' + str(r.returncode))
                l = [x for x in r.stdout.splitlines() if x.startswith('first')]
                res.append(pr + ' ' + verdicts[pr] + ' ' + (l[0][:160] if l else r.stdout[-200:] if r.returncode == 0 else r.stderr[-300:]))
        finally:
            undo()
        print(bug['id'], ' | '.join(res), flush=True)
        if pure:
            x = search_pure(bug['groups'])
            if not x: print(bug['id'], 'NO DEMO'); continue
            args, (lo, hi), exp = x
        else:
            h = search_history(bug.get('profs', []) + PROFS, bug.get('budget', 12))
            if not h: print(bug['id'], 'NO DEMO'); continue
            h = minimise(h)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/driver')
        open(d + '/patch.diff', 'w').write(patch)
        src = f'{V}/pure' if pure else f'{V}/harness'
        for f in ('Cargo.toml', 'Cargo.lock'): open(f'{d}/driver/{f}', 'w').write(open(f'{src}/{f}').read().replace(R + '/', '/repo/'))
        shutil.copytree(f'{src}/src', d + '/driver/src')
        if pure:
            open(d + '/demo.sh', 'w').write(DEMO_P.replace('@ARGS@', ' '.join(args)).replace('@LINES@', f'{lo},{hi}'))
            open(d + '/expected.txt', 'w').write('\n'.join(exp) + '\n')
        else:
            open(d + '/demo.sh', 'w').write(DEMO_H)
            json.dump(h, open(d + '/ops.json', 'w'), indent=1)
            f = f'{S}/r.json'; json.dump(h, open(f, 'w'))
            open(d + '/expected.json', 'w').write('\n'.join(run(f'{S}/good', ['replay', f])) + '\n')
            print(bug['id'], 'demo of', len(h['ops']), 'operations')
        json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(d + '/meta.json', 'w'), indent=1)
        with open(f'{SEEDED}/verdicts.jsonl', 'a') as o: o.write(json.dumps(dict(id=bug['id'], verdicts=verdicts)) + '\n')
main()
