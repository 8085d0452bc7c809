#!/usr/bin/env python3
"""run.py PROP TIER WORKDIR BUDGET: compiles the proof harnesses dv/<prop>*.cpp against the current headers, and discharges every obligation. Writes WORKDIR/dv.json."""
import glob, json, multiprocessing as mp, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
REPO = os.environ.get('XT_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin/'
CXX = [LL + 'clang++', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-DNDEBUG', '-DXTYPES_EXCEPTIONS', '-fno-discard-value-names',
       '-w', '-include', HERE + '/assert_shim.hpp', '-I' + REPO + '/include', '-I' + HERE]

def compile_ir(src, out):
    r = subprocess.run(CXX + ['-S', '-emit-llvm', src, '-o', out + '.raw'], capture_output=True, text=True)
    if r.returncode: return r.stderr[-3000:]
    r = subprocess.run([LL + 'opt', '-passes=sroa,simplifycfg', '-S', out + '.raw', '-o', out], capture_output=True, text=True)
    os.remove(out + '.raw')
    return r.stderr[-3000:] if r.returncode else None

NATIVE = ['g++', '-std=c++17', '-O1', '-g1', '-fsanitize=address', '-DNDEBUG', '-DXTYPES_EXCEPTIONS', '-DXT_NATIVE', '-w', '-I' + REPO + '/include', '-I' + HERE]
def native_exe(src, work):
    exe = f'{work}/{os.path.basename(src)}.exe'
    if os.path.exists(exe): return exe
    r = subprocess.run(NATIVE + [src, HERE + '/native.cpp', '-o', exe], capture_output=True, text=True)
    return exe if r.returncode == 0 else None
def replay(exe, harness, model, limit=60):
    """the harness with the real code: first the inputs of the counterexample, then random ones. A failing input or None"""
    try:
        r = subprocess.run([exe, harness, '1', '40000'] + [str(v) for v in model or []], capture_output=True, text=True, timeout=limit, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired: return None
    m = re.search(r'^FAIL (.*)$', r.stdout, re.M)
    return m[1] if m else None

def stated(path, mod):
    """the assertions that each harness states, reached by direct calls"""
    text = open(path).read()
    strs = {m[1]: bytes(re.sub(rb'\\([0-9A-Fa-f]{2})', lambda q: bytes([int(q[1], 16)]), m[2].encode('latin1'))).rstrip(b'\0').decode('latin1') for m in re.finditer(r'^(@\.str[.\w]*) = .*? c"(.*?)"', text, re.M)}
    direct, callees = {}, {}
    for n, f in mod.fns.items():
        t = '\n'.join(f.text)
        direct[n] = {strs[m] for m in re.findall(r'@__xt_assert\([^@\n]*(@\.str[.\w]*)\)', t) if m in strs}
        callees[n] = {mod.aliases.get(c, c) for c in re.findall(r'(?:call|invoke) [^@\n]*(@"[^"]+"|@[\w.$]+)\(', t)}
    def of(fn):
        seen, todo, r = set(), [fn], set()
        while todo:
            n = todo.pop()
            if n in seen or n not in mod.fns: continue
            seen.add(n); r |= direct[n]; todo += callees[n]
        return r
    return of
MODS = {}
def module(path):
    from ir import Mod
    if path not in MODS: MODS[path] = Mod(open(path).read())
    return MODS[path]

def prove(job):
    """one harness: every path, every obligation"""
    path, fn, budget = job
    import z3
    from exec import Exec, State, Frame, Failed, Infeasible, Undecided
    from sym import Solver
    import sym
    t0 = time.time()
    mod = module(path)
    sv = Solver(15000); sv.deadline = t0 + budget
    x = Exec(mod, sv); x.deadline = t0 + budget; x.reached = set()
    st = None
    res = {'harness': fn[1:], 'failed': [], 'undecided': '', 'paths': 0, 'ends': 0, 'obl': {}, 'model': None}
    try:
        work = [start(x, fn)]
        while work:
            st = work.pop()
            try:
                while True:
                    r = x.step(st, 0, None, work)
                    if r is not None: break
                res['paths'] += 1
                if r == 'throw':
                    x.require(st, 0, 'no-unexpected-exception', f'{st.thrown[0]} leaves the harness')
                if x.sat(st): res['ends'] += 1
            except Infeasible: continue
            except Failed as e:
                where = ' < '.join(f.fn.name[1:] for f in reversed(st.frames[-6:]))
                if not any(n == e.name for n, _, _, _ in res['failed']): res['failed'].append((e.name, e.why, where[:900], e.model))
                if len(res['failed']) > 4: break
    except Undecided as e: res['undecided'] = str(e) + ' in ' + (st.frames[-1].fn.name[1:] if st and st.frames else '')
    except RecursionError: res['undecided'] = 'recursion in the verifier'
    except Exception as e:
        import traceback
        res['undecided'] = 'verifier: ' + repr(e)[:300] + ' in ' + (st.frames[-1].fn.name[1:] if 'st' in dir() and st.frames else '')
        if os.environ.get('DV_DEBUG'): traceback.print_exc()
    res['obl'] = {k: v[0] for k, v in x.obl.items()}
    res.update(queries=sv.queries, solver_s=round(sv.time, 2), s=round(time.time() - t0, 2), fns=sorted(x.used), contracts=sorted(x.contracts_used), ins=x.ins, summaries=x.summaries)
    return res

def start(x, fn):
    from exec import State
    st = State()
    # dynamic initialisation of the translation unit
    if '@llvm.global_ctors' in x.m.globals:
        t, v, _ = x.m.global_init('@llvm.global_ctors')
        for _, e in (v[1] if v[0] == 'agg' else []):
            f = e[1][1][1]
            if f[0] != 'glob': continue
            x.call_fn(st, f[1], [], (None, None))
            for r, _s in x.run(st, 0): st = _s; break
            if r != 'ret': raise RuntimeError('initialisation')
    x.base.objs.update({k: o for k, o in st.objs.items()})
    for o in x.base.objs.values(): o.owner = None
    x.call_fn(st, fn, [], (None, None))
    return st

def main():
    prop, tier, work, budget = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    t0 = time.time()
    out = {'obligations': [], 'trusted': [], 'contracts': [], 'functions': [], 'backends': {}, 'solver_s': 0, 'vacuity': {}, 'assumptions': [], 'error': ''}
    import z3
    out['z3'] = z3.get_version_string()
    jobs, errs = [], []
    srcs, models, open_h, expect = {}, {}, {}, {}
    only = os.environ.get('DV_ONLY')
    unreached = set(open(HERE + '/unreached.txt').read().split('\n'))      # excluded by the parameters of the harness
    for src in sorted(glob.glob(f'{HERE}/{prop.lower()}*.cpp')):
        ll = f'{work}/{os.path.basename(src)}.ll'
        e = compile_ir(src, ll)
        if e: errs.append(f'{os.path.basename(src)}: {e}'); continue
        try: mod = module(ll)
        except Exception as e: errs.append(f'{os.path.basename(src)}: {e!r}'); continue
        of = stated(ll, mod)
        for fn in mod.fns:
            if fn.startswith('@h_') and (not only or re.search(only, fn)): jobs.append((ll, fn)); srcs[fn[3:]] = src; expect[fn[3:]] = of(fn)
    per = 300 if tier == 'quick' else 500
    contracts, fns, summ = set(), set(), []
    ncpu = int(os.environ.get('DV_JOBS', '6'))
    if jobs:
        with mp.get_context('fork').Pool(ncpu, maxtasksperchild=40) as pool:
            rs = [(j, pool.apply_async(prove, ((j[0], j[1], per),))) for j in jobs]
            for j, r in rs:
                try: res = r.get(max(1, t0 + budget - time.time()))
                except mp.TimeoutError: res = {'harness': j[1][1:], 'failed': [], 'undecided': 'time budget of the run is used up', 'obl': {}, 'queries': 0, 's': 0, 'solver_s': 0, 'fns': [], 'contracts': [], 'paths': 0, 'ends': 0, 'summaries': []}
                h = res['harness'][2:]
                contracts |= set(res['contracts']); fns |= set(res['fns']); out['solver_s'] += res['solver_s']; summ += res['summaries']
                if os.environ.get('DV_VERBOSE'): print(h, 'paths', res['paths'], 'ends', res['ends'], 's', res['s'], 'q', res['queries'], 'UNDECIDED ' + res['undecided'] if res['undecided'] else '', flush=True)
                bad = {n: (why, where, model) for n, why, where, model in res['failed']}
                for n, (why, where, model) in bad.items():
                    if os.environ.get('DV_VERBOSE'): print('  FAILED', n, why, where, model)
                    out['obligations'].append({'name': f'{h}:{n}', 'status': 'failed', 'why': f'{why}; in {where}; model of the inputs in order: {[v for _, v in model] if model else None}', 'queries': res['obl'].get(n, 0), 's': res['s']})
                for n, q in res['obl'].items():
                    if n in bad: continue
                    ok = not res['undecided'] and not bad and res['ends'] > 0
                    out['obligations'].append({'name': f'{h}:{n}', 'status': 'proved' if ok else 'undecided', 'why': '' if ok else (res['undecided'] or 'another obligation of the harness failed' if bad or res['undecided'] else 'vacuous: no path reaches the end'), 'queries': q, 's': res['s']})
                for n in sorted(expect.get(h, ())):
                    if n not in res['obl'] and n not in bad and not bad and not res['undecided'] and f'{h}:{n}' not in unreached: out['obligations'].append({'name': f'{h}:{n}', 'status': 'undecided', 'why': 'vacuous: no path reaches it', 'queries': 0, 's': res['s']})
                if not res['obl'] and not bad: out['obligations'].append({'name': h, 'status': 'undecided', 'why': res['undecided'] or 'no obligation', 'queries': 0, 's': res['s']})
                if bad or res['undecided']: open_h[h] = next((m for _, _, m in bad.values() if m), None)
                out['vacuity'][h] = res['ends']
    out['error'] = '; '.join(errs)
    # harnesses with an obligation that is not discharged: the same contract on the real code, compiled natively
    out['replays'] = {}
    for h, model in list(open_h.items())[:60]:
        if time.time() - t0 > budget + 30 or sum(bool(v) for v in out['replays'].values()) > 4: break
        exe = native_exe(srcs[h], work)
        if exe is None: out['replays'][h] = None; continue
        r = replay(exe, h, [v for _, v in model] if model else [])
        out['replays'][h] = r
        if r:
            fo = [o for o in out['obligations'] if o['name'].startswith(h + ':') and o['status'] == 'failed']
            if not fo: n = h + ':' + re.search(r'obligation=(.*?) ::', r)[1]; fo = [o for o in out['obligations'] if o['name'] in (h, n)][:1]
            if not fo: fo = [{'name': h + ':native', 'queries': 0, 's': 0}]; out['obligations'] += fo
            for o in fo: o['status'] = 'failed'; o['replayed'] = r; o.setdefault('why', '')
    # an obligation on the representation ("internal: ...") is a lemma, not the property: where it fails, what rests on it is undecided
    lost = [o['name'] for o in out['obligations'] if 'internal: ' in o['name'] and o['status'] == 'failed']
    for o in out['obligations']:
        if o['name'] in lost: o['status'] = 'undecided'; o['why'] = 'the representation does not satisfy the assumed invariant: ' + o['why']; o.pop('replayed', None)
        elif lost and o['status'] == 'proved': o['status'] = 'undecided'; o['why'] = 'relies on an invariant that is not established: ' + lost[0]
        elif lost and o['status'] == 'failed': o['status'] = 'undecided'; o['why'] = 'started from states that the code may not reach (' + lost[0] + '): ' + o['why']; o.pop('replayed', None)
    out['solver_s'] = round(out['solver_s'], 1)
    dem = subprocess.run(['c++filt'], input='\n'.join(sorted(f[1:] for f in fns)), capture_output=True, text=True).stdout.split('\n')
    out['functions'] = sorted({d for d in dem if 'eprosima::xtypes' in d and not d.startswith(('std::', 'void std::', 'bool std::'))})[:400]
    out['contracts'] = sorted(contracts)
    n = [o for o in out['obligations'] if o['status'] == 'proved']
    out['backends'] = {f"z3 {out['z3']} over the verification conditions of dv/exec.py": len(n)}
    out['loops'] = sorted(set(summ))
    json.dump(out, open(f'{work}/dv.json', 'w'), indent=1)
    c = {k: sum(o['status'] == k for o in out['obligations']) for k in ('proved', 'failed', 'undecided')}
    print(c, f"{time.time() - t0:.1f} s", out['error'][:2000])
if __name__ == '__main__': main()
