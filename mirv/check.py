"""Decides one property: dumps the MIR of /repo's current tree, discharges the contracts the property rests on,
and looks for failing inputs of the real program."""
import concurrent.futures, sys, os, json, time, subprocess, threading, multiprocessing, traceback, hashlib, shutil, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = V + '/.cache'
sys.path.insert(0, V); sys.path.insert(0, V + '/replay')
from mirv import props

def dump():
    """MIR of the current tree -> list of files"""
    import fcntl
    os.makedirs(CACHE, exist_ok=True)
    out = f'{CACHE}/dump'
    with open(CACHE + '/dump.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for d in ('/repo/src', V + '/mirdump/src'):
            for r, ds, ns in os.walk(d):
                for n in ns:
                    f = os.path.join(r, n); h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
        for f in ('/repo/Cargo.toml', '/repo/Cargo.lock'):
            if os.path.exists(f): h.update(open(f, 'rb').read())
        key = h.hexdigest(); kf = out + '/key'
        fs = [out + '/krill_sync.lib.json', out + '/krill_sync.bin.json']
        if not (os.path.exists(kf) and open(kf).read() == key and all(map(os.path.exists, fs))):
            shutil.rmtree(out, ignore_errors=True)
            r = subprocess.run([V + '/bin_dump.sh', out], capture_output=True, text=True)
            if r.returncode or not all(map(os.path.exists, fs)): raise RuntimeError('MIR dump failed: ' + r.stderr[-1500:])
            open(kf, 'w').write(key)
    return fs

_eng = {}
def engine(fs, binary):
    k = binary
    if k not in _eng:
        from mirv import run
        _eng[k] = run.load(fs)
    return _eng[k]
def prove_root(job):
    """one function under contract: -> dict"""
    path, fs, budget, ms, retry = job
    t0 = time.time()
    out = dict(root=path, status='', obls=[], wall=0, why='')
    try:
        from mirv import run
        from mirv.engine import LostAnchor, Budget
        from mirv.values import Unsupported
        import z3
        e = engine(fs, True)
        e.obls = []; e.deadline = t0 + budget
        sp = e.specs.all.get(path)
        if sp is None: raise LostAnchor(path)
        if sp.kw.get('trusted'):
            out['status'] = 'assumed'; out['why'] = sp.kw['trusted']
            return out
        out['paths'] = e.verify(sp)
        e.deadline = None
        okpc = collections.defaultdict(list)
        from mirv.discharge import discharge, parts
        discharge(e, e.obls, ms=ms, budget=max(10, t0 + budget * 2 - time.time()), sem=_sem)
        for o in e.obls:
            if o.res == 'ok' and o.kind == 'post': okpc[o.name].append(o.pc)
        # what ran out of time gets more of it before it counts as not provable
        t1 = time.time(); again = 0
        for o in sorted((o for o in e.obls if o.res in ('timeout', 'unknown')), key=lambda o: (not o.tags, bool(o.taint))):
            if not retry or again >= 3 or time.time() - t1 > 120: break
            rs = [e.prove_sliced(o.pc, q, 40000)[0] for q in parts(o.goal)]
            if all(r == 'ok' for r in rs): o.res = 'ok'
            else: again += 1; o.sure = True
        # a contract that holds because nothing can be reached proves nothing
        n = 0
        pcs = {}
        for nm, l in okpc.items():
            for pc in l: pcs[tuple(sorted(f.get_id() for f in pc))] = pc
        live = 0
        for pc in list(pcs.values())[:40]:
            if e.prove(pc, z3.BoolVal(False), 500)[0] != 'ok': live += 1
            if live >= 2: break
        out['live'] = live
        for o in e.obls:
            out['obls'].append((o.fn, o.name, list(o.tags), o.res, str(o.at), sorted(o.taint), o.kind, round(o.time, 3), str(o.model)[:1500] if o.model is not None else '', o.sure or o.res == 'sat'))
        bad = [o for o in e.obls if o.res != 'ok']
        out['status'] = 'failed' if bad else ('vacuous' if not live and pcs else 'proved')
        if not e.obls: out['status'] = 'vacuous'
        out['contracts'] = sorted({b for a, b in e.usedcontracts if a == path})
        out['models'] = sorted(e.usedmodels); out['unmodelled'] = sorted(e.unmod); out['inlined'] = sorted(e.inlined)
    except (Unsupported, LostAnchor, Budget) as x:
        out['status'] = 'undecided'; out['why'] = f'{type(x).__name__}: {x}'
    except Exception as x:
        out['status'] = 'undecided'; out['why'] = 'tool: ' + traceback.format_exc()[-1500:]
    out['wall'] = round(time.time() - t0, 2)
    return out
_sem = None
def prove_all(roots, budget, ms, retry=True):
    global _sem
    _sem = multiprocessing.get_context('fork').BoundedSemaphore(8)
    fs = dump()
    if not roots: return []
    for b in [True]:
        try: engine(fs, b)
        except Exception: return [dict(root=r, status='undecided', obls=[], wall=0, why='tool: ' + traceback.format_exc()[-800:]) for r in roots]
    # the longest ones first
    order = sorted(roots, key=lambda r: -props.COST.get(r, 1))
    fin = concurrent.futures.FIRST_COMPLETED
    asked = set(order); out = {}; todo = order
    for turn in range(3):       # a worker that dies (a crash of the solver) takes the others' work along: what was lost is done again
        lost = []
        with concurrent.futures.ProcessPoolExecutor(8 if turn < 2 else 2, mp_context=multiprocessing.get_context('fork')) as p:
            def put(r):
                try: fu[p.submit(prove_root, (r, fs, budget, ms, retry))] = r
                except concurrent.futures.process.BrokenProcessPool as x: lost.append((r, x))
            fu = {}
            for r in todo: put(r)
            while fu:
                done, _ = concurrent.futures.wait(fu, return_when=fin)
                for f in done:
                    r = fu.pop(f)
                    try: out[r] = f.result()
                    except concurrent.futures.process.BrokenProcessPool as x: lost.append((r, x)); continue
                    except Exception as x: out[r] = dict(root=r, status='undecided', obls=[], wall=0, why=f'tool: {x!r}')
                    # whatever it relies on has to be shown as well
                    for c in out[r].get('contracts', []):
                        if c not in asked: asked.add(c); put(c)
        for r, x in lost: out[r] = dict(root=r, status='undecided', obls=[], wall=0, why=f'tool: {x!r}')
        todo = [r for r, x in lost]
        if not todo: break
        _sem = multiprocessing.get_context('fork').BoundedSemaphore(8)
    return list(out.values())

def main():
    if sys.argv[1] == '--setup':
        import base
        th = threading.Thread(target=dump); th.start(); base.build(); th.join()
        return 0
    prop = sys.argv[1]
    deep = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    P = props.PROPS[prop]
    res = {}
    def rep_build():
        try:
            import base; base.build()
        except Exception as x: res['build'] = x
    th = threading.Thread(target=rep_build); th.start()
    dump(); th.join()
    if 'build' in res: raise res['build']
    roots = list(P['roots'])
    import suite
    rr = suite.run(prop, deep=deep, seed=seed, budget=400 if deep else 200)
    # with a failing input in hand there is no need to make sure of every obligation
    quick = bool(rr['fails'])
    proofs = prove_all(roots, 60 if quick else 300 if deep else 150, 5000 if quick else 60000 if deep else 15000, not quick)
    # what failed
    total = disch = 0
    failed = []; by = collections.Counter()
    for p in proofs:
        for fn, name, tags, r, at, taint, kind, tm, model, sure in p['obls']:
            if not relevant(prop, tags, kind): continue
            total += 1; by[fn] += 1
            if r == 'ok': disch += 1
            else: failed.append(dict(function=fn, obligation=name, tags=tags, result=r, at=at, taint=taint, kind=kind, model=model, decisive=prop in tags and sure and not taint))
        if p['status'] in ('undecided', 'vacuous'): total += 1
    undecided = [dict(function=p['root'], why=p['why'] or p['status']) for p in proofs if p['status'] in ('undecided', 'vacuous')]
    dec = [f for f in failed if f['decisive']]
    viol = None; os.makedirs(V + '/evidence', exist_ok=True)
    known = props.known(prop)
    fails = rr['fails']
    errs = rr['errors']
    if not fails and (dec or failed or undecided) and not deep:
        # the proof does not go through: look harder for a failing input
        more = suite.run(prop, deep=True, seed=seed + 1, budget=120)
        fails = more['fails']; rr['cases'] += more['cases']; errs = errs + more['errors']
        for k, v in more['byname'].items(): rr['byname'][k] = rr['byname'].get(k, 0) + v
    if fails:
        viol = dict(property=prop, case=fails[0], failed_obligations=failed[:10], undecided=undecided, how='python3 /verif/replay/suite.py replay <this file>')
    elif dec:
        viol = dict(property=prop, failed_obligations=dec[:10], verifier='mirv (weakest preconditions over MIR, z3 %s)' % zver(), note='no failing input found for the failed obligation')
    wall = time.time() - t0
    cov = dict(obligations=total, discharged=disch, checker_cmd=f'./check {prop}', trusted_base=props.TRUSTED,
        functions_under_contract=[p['root'] for p in proofs if p['status'] != 'assumed'], assumed_contracts={p['root']: p['why'] for p in proofs if p['status'] == 'assumed'}, contracts_used=sorted({c for p in proofs for c in p.get('contracts', [])}),
        inlined_functions=sorted({c for p in proofs for c in p.get('inlined', [])}),
        external_models=sorted({c for p in proofs for c in p.get('models', [])}), unmodelled_as_uninterpreted=sorted({c for p in proofs for c in p.get('unmodelled', [])}),
        by_function=dict(by), solver=f'z3 {zver()}', solver_s=round(sum(o[7] for p in proofs for o in p['obls']), 2),
        function_status={p['root']: p['status'] + (f" ({p['why'][:200]})" if p['why'] else '') for p in proofs}, failed=failed[:20], undecided=undecided,
        bounded_conformance=dict(cases=rr['cases'], kinds=rr['byname'], what='runs of the real program judged from outside; bounded, never counted as proved', errors=[x['message'][-300:] for x in errs][:3]),
        explanation=P['note'], not_proved=P.get('gap', ''), assumptions=props.ASSUME,
        evaluations=rr['cases'], distinct_nontrivial=rr['cases'], rule='one case is one seeded scenario (a history of runs, or one run interrupted at many points) of the real program; all differ by seed', samples=[dict(kinds=rr['byname'])])
    ev = dict(property=prop, tier='thorough' if deep else 'quick', seed=seed, level=P['level'], coverage=cov, wall_s=round(wall, 2))
    if viol: ev['violations'] = 1
    with open(f'{V}/evidence/{prop}.json', 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k in known: print(f'KNOWN-FINDING: property={prop} {k}')
    for p in proofs: print(f"  {p['root']}: {p['status']} {p['why'][:300]} ({len(p['obls'])} obligations, {p['wall']} s)")
    for f in failed[:10]: print(f"  not discharged: {f['function']}: {f['obligation']} at {f['at']}: {f['result']} {f['taint']}")
    print(f"  {prop}: {disch}/{total} obligations discharged, {rr['cases']} runs or histories of the real program, {wall:.1f} s")
    if errs: print('  scenario error: ' + errs[0]['message'][-1500:])
    if viol:
        path = f'{V}/evidence/{prop}.replay.json'
        with open(path, 'w') as f: json.dump(viol, f, indent=1, default=str)
        if fails: print('  ' + fails[0]['message'][:1500])
        print(f'VIOLATION property={prop} replay={path}' + ('' if fails else ' no-failing-input-found'))
        return 1
    return 0
def relevant(prop, tags, kind):
    # what the property is stated by, and everything the argument rests on
    return prop in tags or not tags or kind in ('inv', 'frame') or 'frame' in tags or 'inv' in tags or '+' in tags
def zver():
    import z3
    return z3.get_version_string()
if __name__ == '__main__': sys.exit(main())
