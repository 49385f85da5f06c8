#!/usr/bin/env python3
"""Check one property of /repo.   check.py C01 [quick|thorough]

1. deductive part (vc/): proof obligations generated from rustc's MIR of /repo's current
   source against the contracts in vc/contracts, discharged by Z3 / cvc5;
2. executable contracts (harness/) on the real crates: replay for failed obligations, and a
   bounded stand-in (labelled so) for what is outside the prover's reach.
"""
import json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(V, '.work')
REPO = '/repo'

def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    # The toolchain and the offline settings the repository is built with.
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
    for kv in out.split(b'\0'):
        k, _, v = kv.partition(b'=')
        k = k.decode()
        if k in ('PATH', 'HOME', 'RUSTFLAGS') or k.startswith(('CARGO', 'RUSTUP')):
            e[k] = v.decode()
    e['CARGO_TARGET_DIR'] = os.path.join(WORK, 'target')
    e['RUST_BACKTRACE'] = '0'
    return e

def build_harness(e):
    """-> {profile: binary} or an error text."""
    ps = {}
    for prof, args in (('debug', []), ('release', ['--release'])):
        e2 = dict(e, CARGO_TARGET_DIR=os.path.join(WORK, 'target-' + prof))
        ps[prof] = (subprocess.Popen(['cargo', 'build', '--offline', '-q'] + args, cwd=os.path.join(V, 'harness'),
                                     env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), e2)
    bins, err = {}, None
    for prof, (p, e2) in ps.items():
        out, _ = p.communicate()
        if p.returncode:
            err = out
        else:
            bins[prof] = os.path.join(e2['CARGO_TARGET_DIR'], prof, 'uvh')
    return (None, err) if err else (bins, None)

def run_harness(bins, prop, seed, budget, e):
    """Starts the executable contracts in both profiles; returns the processes."""
    ps = []
    for prof, b in bins.items():
        out = os.path.join(WORK, f'{prop}-{prof}.case')
        for f in (out, out + '.cur'):
            if os.path.exists(f):
                os.remove(f)
        p = subprocess.Popen([b, 'run', '--prop', prop, '--seed', str(seed), '--budget', str(budget), '--out', out],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=WORK)
        ps.append((prof, p, out))
    return ps

def collect(ps, budget, bins, prop):
    """-> (stats, failure or None);  failure = (profile, message, case text)"""
    stats, fail = {}, None
    for prof, p, out in ps:
        try:
            txt, _ = p.communicate(timeout=budget * 3 + 60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill(); txt, _ = p.communicate(); rc = 'timeout'
        line = (txt or '').strip().split('\n')[0]
        if rc == 0:
            stats[prof] = dict(kv.split('=') for kv in line.split()[1:])
            continue
        if fail:
            continue
        if rc == 1 and line.startswith('FAIL'):
            fail = (prof, line[5:], open(out).read())
        else:
            # Aborted, crashed or hung: the script being executed is on disk.  It counts only if it does so again.
            try:
                cur = open(out + '.cur').read().split('#END')[0]
            except OSError:
                cur = ''
            f = out + '.crash'
            open(f, 'w').write(cur)
            again = None
            if cur.strip():
                try:
                    r = subprocess.run([bins[prof], 'replay', f], capture_output=True, text=True, timeout=60)
                    again = r.returncode
                except subprocess.TimeoutExpired:
                    again = 'timeout'
            if again not in (None, 0, 2):
                fail = (prof, f'process ended with {rc}: {" ".join((txt or "").split())[:300]}', cur)
            else:
                stats[prof] = {'aborted': str(rc)}
    return stats, fail

def known(prop, bins):
    """Entries of known_findings.txt for this property; -> list of (text, still fails)."""
    res = []
    path = os.path.join(V, 'known_findings.txt')
    for l in open(path):
        l = l.strip()
        if not l.startswith('finding:'):
            continue
        d, _, text = l[len('finding:'):].strip().partition(' -- ')
        kv = dict(x.split('=', 1) for x in d.split())
        if prop not in kv['property'].split(','):
            continue
        f = os.path.join(WORK, 'known.case')
        open(f, 'w').write('scenario %s 0 0 0 0\n' % kv['scenario'])
        r = subprocess.run([bins['debug'], 'replay', f], capture_output=True, text=True)
        res.append((text, r.returncode != 0))
    return res

try:
    LEVEL = {c['property']: c['level'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
except (OSError, ValueError, KeyError):
    LEVEL = {}

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
    e = env()
    budget = 20 if tier == 'quick' else 300
    violations = 0
    vc = None
    vcp = None
    if os.path.exists(os.path.join(V, 'vc', 'run.py')):
        vcout = os.path.join(WORK, f'{prop}-vc.json')
        if os.path.exists(vcout):
            os.remove(vcout)
        vcp = subprocess.Popen(['python3-vt', os.path.join(V, 'vc', 'run.py'), '--prop', prop, '--tier', tier, '--out', vcout],
                               env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bins, err = build_harness(e)
    stats, fail, kn = {}, None, []
    if bins:
        ps = run_harness(bins, prop, seed, budget, e)
        stats, fail = collect(ps, budget, bins, prop)
        kn = known(prop, bins)
    else:
        print('note: the executable contracts do not compile against this tree; only the deductive part ran')
        print(err[-1500:])
    if vcp:
        try:
            txt, _ = vcp.communicate(timeout=(600 if tier == 'quick' else 3000))
        except subprocess.TimeoutExpired:
            vcp.kill(); txt, _ = vcp.communicate()
        try:
            vc = json.load(open(vcout))
        except (OSError, ValueError):
            vc = {'error': (txt or '')[-2000:], 'functions': [], 'obligations': 0, 'discharged': 0, 'failed': [], 'undecided': []}
    replay = os.path.join(V, 'replay', f'{prop}.txt')
    if os.path.exists(replay):
        os.remove(replay)
    lines = []
    failed = (vc or {}).get('failed', [])
    if fail:
        prof, msg, case = fail
        with open(replay, 'w') as f:
            f.write(f'# property {prop}: {msg}\n# build profile: {prof}; replay: cd {V}/harness && cargo run --offline {"--release " if prof == "release" else ""}-- replay {replay}\n')
            for o in failed:
                f.write('# failed obligation: %s\n' % json.dumps(o)[:2000])
            f.write('\n'.join(l for l in case.split('\n') if not l.startswith('#')) + '\n')
        print(f'{prop}: {msg}')
        lines.append(f'VIOLATION property={prop} replay={replay}')
    elif failed:
        with open(replay, 'w') as f:
            f.write(f'# property {prop}: obligation(s) not valid; no failing input found by the executable contracts\n')
            for o in failed:
                f.write('# failed obligation: %s\n' % json.dumps(o, indent=1).replace('\n', '\n#   '))
        for o in failed:
            print(f'{prop}: failed obligation {o.get("name")}')
        lines.append(f'VIOLATION property={prop} replay={replay} no-failing-input-found')
    for text, still in kn:
        if still:
            print(f'KNOWN-FINDING: property={prop} {text}')
    violations = len(lines)
    cases = sum(int(s.get('cases', 0)) for s in stats.values())
    steps = sum(int(s.get('steps', 0)) for s in stats.values())
    bounded = {'label': 'bounded stand-in / counterexample replay (never counted as proved)', 'evaluations': cases, 'steps': steps,
               'per_profile': stats, 'bound': f'all scripts of length <= 2 (and one push + 2) over a small alphabet, all scenario grids, then random scripts of <= 21 steps for {budget} s per profile'}
    if vc is not None:
        cov = dict(vc, bounded=bounded)
        if LEVEL.get(prop) != 'proof':
            cov.update(bounded, distinct_nontrivial=cases, rule='every script is different: enumerated or drawn from a seeded generator; a script counts when it ran to its end', samples=[{'replay_format': 'scenario <name> <grid params> | script lines', 'example': 'push i32 7 / insert 0 str / reserve 1 64 16 / pop / drop'}])
        level = LEVEL.get(prop, 'proof')
    else:
        cov = dict(bounded, distinct_nontrivial=cases, rule='every script is different: enumerated or drawn from a seeded generator; a script counts when it ran to its end', samples=[{'replay_format': 'scenario <name> <grid params> | script lines', 'example': 'push i32 7 / insert 0 str / reserve 1 64 16 / pop / drop'}])
        level = 'exploration'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': (vc or {}).get('trusted_base', []), 'wall_s': round(time.time() - t0, 1), 'violations': violations}
    json.dump(ev, open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)
    if vc is not None:
        print(f'{prop}: {vc.get("discharged")}/{vc.get("obligations")} obligations discharged, {len(failed)} failed, {len(vc.get("undecided", []))} undecided; {vc.get("error", "")}')
    print(f'{prop}: bounded: {cases} cases, {steps} steps {"ok" if not fail else "FAILED"}')
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)

main()
