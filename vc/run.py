#!/usr/bin/env python3
"""Verifies the contracts that a property rests on, against rustc's MIR of /repo's current source.

run.py --prop C01 [--tier quick|thorough] [--out FILE] [--only SUBSTRING] [-v]

Every (function, case) is executed symbolically in a process of its own; the obligations it raises are then
discharged by further processes.  At most one process per core runs at a time."""
import os, sys, time, json, glob, subprocess, argparse, signal, multiprocessing, traceback, re, types
import deps
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
WORK = os.environ.get('VC_WORK') or os.path.join(V, '.work')
REPO = os.environ.get('VC_REPO', '/repo')

def emit_mir(probe=False):
    """-> {crate: file}; raises RuntimeError."""
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    if 'RUSTUP_TOOLCHAIN' not in e or True:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.split(b'\0'):
            k, _, v = kv.partition(b'=')
            k = k.decode()
            if k in ('PATH', 'HOME', 'RUSTFLAGS') or k.startswith(('CARGO', 'RUSTUP')):
                e[k] = v.decode()
    tgt = os.path.join(WORK, 'target-mir')
    e['CARGO_TARGET_DIR'] = tgt
    res = {}
    for crate, args in (('unsized_vec', []), ('emplacable', ['-p', 'emplacable'])):
        for f in glob.glob(f'{tgt}/debug/deps/{crate}-*.mir'):
            os.remove(f)
        for root, d, fs in os.walk(f'{tgt}/debug/.fingerprint'):
            # the crate's own unit is always compiled anew
            if os.path.basename(root).startswith(crate.replace('_', '-') + '-'):
                for f in fs:
                    os.remove(os.path.join(root, f))
        r = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '--all-features'] + args +
                           ['--', '-Zmir-opt-level=0', '--emit=mir', '-Coverflow-checks=on', '-Cdebug-assertions=on'],
                           cwd=REPO, env=e, capture_output=True, text=True)
        l = glob.glob(f'{tgt}/debug/deps/{crate}-*.mir')
        if r.returncode or len(l) != 1:
            raise RuntimeError(f'rustc --emit=mir of {crate} failed: {r.stderr[-1500:]}')
        res[crate] = l[0]
    if probe:
        # functions that use the crates' macros (vc/probe/lib.rs), compiled against /repo
        d = os.path.join(WORK, 'probe')
        os.makedirs(d + '/src', exist_ok=True)
        open(d + '/Cargo.toml', 'w').write('[package]\nname = "probe"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                                           f'unsized-vec = {{ path = "{REPO}" }}\nemplacable = {{ path = "{REPO}/emplacable" }}\n')
        open(d + '/src/lib.rs', 'w').write(open(os.path.join(HERE, 'probe', 'lib.rs')).read())
        for f in glob.glob(f'{tgt}/debug/deps/probe-*.mir'):
            os.remove(f)
        r = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '--', '-Zmir-opt-level=0', '--emit=mir', '-Coverflow-checks=on', '-Cdebug-assertions=on'],
                           cwd=d, env=e, capture_output=True, text=True)
        l = glob.glob(f'{tgt}/debug/deps/probe-*.mir')
        if r.returncode == 0 and len(l) == 1:
            res['probe'] = l[0]      # without it, its functions come out as lost anchors: undecided
    return res

def load_specs():
    import vecs, ops
    for m in ('iters', 'drops', 'lemspec', 'sized', 'conv', 'traits', 'wrap', 'meta', 'empl', 'prod', 'arrays', 'macros', 'extra'):
        if os.path.exists(os.path.join(HERE, m + '.py')):
            __import__(m)
    import spec
    return spec.REG.all

class Out:
    """Results come back as one JSON line per record."""
    def __init__(self, path):
        self.path = path
    def put(self, rec):
        data = (json.dumps(rec) + '\n').encode()
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, data)
        finally:
            os.close(fd)

def named_props(spec):
    """The properties named in the text of a contract (single obligations may belong to more of them than the contract as a whole)."""
    out = set(spec.props)
    is_prop = lambda x: isinstance(x, str) and re.fullmatch(r'C\d\d', x)
    def walk(code):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
            elif is_prop(c):
                out.add(c)
            elif isinstance(c, tuple):
                out.update(x for x in c if is_prop(x))
    walk(spec.verify.__code__)
    for cell in spec.verify.__closure__ or ():
        try:
            x = cell.cell_contents
        except ValueError:
            continue
        if isinstance(x, types.FunctionType):
            walk(x.__code__)
        elif isinstance(x, (list, tuple)):
            out.update(y for y in x if is_prop(y))
    return out

def relevant(spec, prop):
    from spec import KIND_PROPS
    kinds = {p for k, x in KIND_PROPS.items() if k in spec.kinds for p in x}
    return prop is None or prop in deps.close(spec.name, named_props(spec) | kinds)

XK = ('cvc5_ok', 'cvc5_none', 'cvc5_time')

def work(prog, spec, part, prop, sem, out, deadline, pi):
    """One case of one function (runs in its own process, holding a token)."""
    import spec as S, logic
    t0 = time.time()
    v, err = S.execute(prog, spec, max(5, deadline - time.time()), part)
    obls = v.ex.obls
    mine, rest = [], 0
    for i, o in enumerate(obls):
        ps = S.obl_props(spec, o)
        if prop is not None and prop not in ps:
            rest += 1
            continue
        mine.append((i, o, ps))
    rec = lambda i, o, ps: dict(t='obl', spec=spec.name, part=pi, i=i, name=f'{spec.name}: {o.name}', kind=o.kind, props=ps, status=o.status, detail=o.detail)
    hard = [x for x in mine if x[1].task is not None]
    for i, o, ps in mine:
        if o.task is None:
            out.put(rec(i, o, ps))
    out.put(dict(t='exec', spec=spec.name, part=pi, error=err, n=len(mine), others=rest, time=time.time() - t0, checks=logic.STAT['checks'], solver=logic.STAT['time'], x=[logic.STAT[k] for k in XK],
                 trusted=sorted(v.ex.trusted), called=sorted(v.ex.called), inlined=sorted(x for x in v.ex.inlined if x)))
    # chunks of obligations for further processes
    size = max(6, (len(hard) + 11) // 12)
    chunks = [hard[j::max(1, len(hard) // size)] for j in range(max(1, len(hard) // size))] if hard else []
    kids = []
    def solve(chunk):
        c0, s0 = logic.STAT['checks'], logic.STAT['time']
        x0 = [logic.STAT[k] for k in XK]
        for i, o, ps in chunk:
            if time.time() < deadline:
                o.solve()
            out.put(rec(i, o, ps))
        out.put(dict(t='stat', checks=logic.STAT['checks'] - c0, solver=logic.STAT['time'] - s0, x=[logic.STAT[k] - y for k, y in zip(XK, x0)]))
    sem.release()
    for c in chunks:
        # a child starts once there is a free token
        sem.acquire()
        pid = os.fork()
        if pid == 0:
            try:
                solve(c)
            finally:
                sem.release()
                os._exit(0)
        kids.append(pid)
    for k in kids:
        os.waitpid(k, 0)

def verify(prog, specs, prop, out, deadline, ncpu):
    sem = multiprocessing.Semaphore(ncpu)
    tasks = [(s, pi, p) for s in specs for pi, p in enumerate(s.parts)]
    HEAVY = ('remove_into_unchecked', 'insert_with_unchecked', 'insert_unchecked', 'push_with', 'realign_up', 'max_align_of_elems', 'len_after_realign_up', 'realign_down', 'shrink_capacity_bytes', 'try_reserve_additional')
    def cost(s):
        return max([s.cost] + [(20 - i) * (2 if 'Unaligned' in s.name else 1) for i, h in enumerate(HEAVY) if h in s.name])
    tasks.sort(key=lambda x: -cost(x[0]))
    pids = {}
    for s, pi, p in tasks:
        while not sem.acquire(timeout=1):
            if time.time() > deadline:
                break
        if time.time() > deadline:
            break
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            try:
                work(prog, s, p, prop, sem, out, deadline, pi)
            except BaseException as e:
                sem.release()
                out.put(dict(t='exec', spec=s.name, part=pi, error=f'{s.name}: {type(e).__name__}: {e}', n=0, others=0, time=0, checks=0, solver=0, trusted=[], called=[], inlined=[]))
                if os.environ.get('VC_TRACE'):
                    traceback.print_exc()
            finally:
                os._exit(0)
        pids[pid] = (s, pi)
    while pids:
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid:
            pids.pop(pid, None)
            continue
        if time.time() > deadline + 10:
            for p in pids:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
            for p in pids:
                try: os.waitpid(p, 0)
                except OSError: pass
            break
        time.sleep(0.02)
    return tasks

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--out'); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--mir'); ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    prop = None if a.prop in (None, 'ALL') else a.prop
    t0 = time.time()
    budget = a.budget or (480 if a.tier == 'quick' else 1500)
    if a.tier != 'quick':
        os.environ.setdefault('VC_TIMEOUT_MS', '30000')
        os.environ.setdefault('VC_CVC5', 'all')
    deadline = t0 + budget
    os.makedirs(WORK, exist_ok=True)
    import program, spec as S, lemmas
    res = dict(obligations=0, discharged=0, failed=[], undecided=[], functions=[], trusted_base=[], error='')
    try:
        if a.mir:
            mirs = {c: glob.glob(f'{a.mir}/{c}-*.mir')[0] for c in ('unsized_vec', 'emplacable')}
        else:
            mirs = emit_mir(probe=prop in (None, 'C15', 'C03'))
        prog = program.Program(mirs, [REPO, REPO + '/emplacable'])
    except Exception as e:
        res['error'] = f'no MIR: {e}'
        json.dump(res, open(a.out, 'w'), indent=1) if a.out else print(res['error'])
        return
    t1 = time.time()
    specs = [s for s in load_specs() if relevant(s, prop) and (not a.only or any(x in s.name for x in a.only.split('|')))]
    outf = os.path.join(WORK, f'vc-{a.prop or "ALL"}-{os.getpid()}.jsonl')
    if os.path.exists(outf):
        os.remove(outf)
    ncpu = os.cpu_count() or 4
    tasks = verify(prog, specs, prop, Out(outf), deadline, ncpu)
    recs = [json.loads(l) for l in open(outf)] if os.path.exists(outf) else []
    if os.path.exists(outf):
        os.remove(outf)
    byspec = {s.name: dict(spec=s.name, parts=len(s.parts), done=0, raw=[], want=0, error=None, cpu=0.0, inlined=set(), called=set()) for s in specs}
    trusted, solver, checks, second = set(), 0.0, 0, [0, 0, 0.0]
    for r in recs:
        second = [a + b for a, b in zip(second, r.get('x', (0, 0, 0)))]
        if r['t'] == 'obl':
            byspec[r['spec']]['raw'].append((r['name'], r['kind'], r['props'], r['status'], r['detail']))
        elif r['t'] == 'stat':
            solver += r['solver']; checks += r['checks']
        else:
            b = byspec[r['spec']]
            b['done'] += 1
            b['want'] += r['n']
            b['cpu'] += r['time']
            b['inlined'] |= set(r['inlined']); b['called'] |= set(r['called'])
            b['error'] = b['error'] or r['error']
            trusted |= set(r['trusted'])
            solver += r['solver']; checks += r['checks']
    with multiprocessing.Pool(ncpu) as p:
        lem = lemmas.prove_all(p, a.tier == 'thorough')
    # arithmetic lemmas are facts of the theory, not of the code: one that is not proved leaves things undecided
    badl = [x for x in lem if x[1] != 'valid']
    for n, st, d in badl:
        res['undecided'].append(f'lemma {n}: {st}')
    for s in specs:
        b = byspec[s.name]
        obls = S.fold(b['raw'])
        bad = [o for o in obls if o['status'] == 'invalid']
        unk = [o for o in obls if o['status'] == 'unknown']
        ok = [o for o in obls if o['status'] == 'valid']
        whole = b['done'] == b['parts'] and b['want'] == len(b['raw']) and not b['error']
        if a.v:
            print(f'{s.name:75s} {len(obls):4d} obls ({len(b["raw"])} paths) {len(bad)} invalid {len(unk)} unknown  exec cpu {b["cpu"]:.1f}s', '' if whole else 'INCOMPLETE', b['error'] or '', flush=True)
            for o in bad + unk:
                print('     ', o['status'], o['name'], o['kind'], o['detail'][:200])
        if not obls and whole:
            continue
        res['obligations'] += len(obls) + (0 if whole else 1)
        res['discharged'] += len(ok) if whole else 0
        for o in bad:
            res['failed'].append(dict(name=o['name'], kind=o['kind'], properties=o['props'], function=s.keys, counterexample=o['detail'], solver='z3'))
        if not whole:
            res['undecided'].append(f'{s.name}: ' + (b['error'] or 'not finished in the time given'))
        for o in unk:
            res['undecided'].append(f'{o["name"]}: solver gave no answer ({o["detail"][:80]})')
        res['functions'].append(dict(function=s.keys[0], status='failed' if bad else ('proved' if whole and not unk else 'undecided'), obligations=len(obls), path_obligations=len(b['raw']),
                                     inlined=sorted(b['inlined'])[:60], contracts_used=sorted(b['called'])[:60]))
    res['path_obligations'] = sum(len(b['raw']) for b in byspec.values())
    res['lemmas'] = dict(proved=len(lem) - len(badl), total=len(lem))
    import z3
    res['backend'] = f'Z3 {z3.get_version_string()}'
    if os.environ.get('VC_CVC5'):
        res['second_backend'] = dict(name='cvc5', confirmed=second[0], no_answer=second[1], seconds=round(second[2], 1))
    res['solver_calls'], res['solver_s'] = checks, round(solver, 1)
    res['mir_s'] = round(t1 - t0, 1)
    res['wall_vc_s'] = round(time.time() - t0, 1)
    res['checker_cmd'] = f'python3-vt vc/run.py --prop {a.prop or "ALL"} --tier {a.tier}'
    tb = sorted(trusted)
    try:
        tb = [l.strip('- \n') for l in open(os.path.join(HERE, 'TRUSTED.md')) if l.startswith('- ')] + ['assumed std contract: ' + x for x in tb]
    except OSError:
        tb = ['assumed std contract: ' + x for x in tb]
    res['trusted_base'] = tb
    if a.out:
        json.dump(res, open(a.out, 'w'), indent=1)
    print(f'{a.prop or "ALL"}: {res["discharged"]}/{res["obligations"]} obligations, {len(res["failed"])} failed, {len(res["undecided"])} undecided, {len(specs)} functions, {res["wall_vc_s"]} s (mir {res["mir_s"]} s), solver cpu {res["solver_s"]} s', res.get('second_backend', ''))
    for u in res['undecided'][:20]:
        print('  undecided', u)

if __name__ == '__main__':
    main()
