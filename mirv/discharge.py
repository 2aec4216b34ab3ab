"""Discharges obligations: all that share a path condition at once, single ones where that fails, in parallel."""
import os, pickle, time, collections, struct, mmap
import z3
MAXFAIL = 8     # a function that fails this often is not looked at further

def groups(obls):
    by = collections.OrderedDict()
    for i, o in enumerate(obls):
        if z3.is_true(o.goal): o.res = 'ok'; o.time = 0; continue
        g = z3.simplify(o.goal)
        if z3.is_true(g): o.res = 'ok'; o.time = 0; continue
        k = tuple(sorted({f.get_id() for f in o.pc}))
        by.setdefault(k, collections.OrderedDict()).setdefault(o.goal.get_id(), []).append(i)
    return list(by.values())

def parts(g, pre=(), n=0):
    """the conjuncts of a goal"""
    if z3.is_and(g): return [q for x in g.children() for q in parts(x, pre, n)]
    if z3.is_implies(g): return parts(g.arg(1), pre + (g.arg(0),), n)
    if z3.is_quantifier(g) and g.is_forall() and n < 2:
        vs = [z3.Const(f'sk{n}_{k}_{g.var_name(k)}', g.var_sort(k)) for k in range(g.num_vars())]
        return parts(z3.substitute_vars(g.body(), *reversed(vs)), pre, n + 1)
    return [z3.Implies(z3.And(*pre), g) if pre else g]

def run_group(e, obls, g, ms, left, fails=None):
    """g: {goal: [index]} -> [(index, res, model, time)]"""
    out = []
    ids = [v[0] for v in g.values()]
    def emit(i, r, m, t):
        if r not in ('ok', 'skipped') and fails is not None:
            with fails.get_lock(): fails.value += 1
        for j in g[obls[i].goal.get_id()]: out.append((j, r, m, t)); t = 0
    def one(i):
        t = time.time()
        if left() <= 0 or (fails is not None and fails.value >= MAXFAIL): return emit(i, 'skipped', None, 0)
        r, m = e.prove_sliced(obls[i].pc, obls[i].goal, int(min(ms / 2, left() * 1000 + 100)), True)
        if r != 'ok':
            # conjunct by conjunct
            ps = parts(obls[i].goal)
            if len(ps) > 1 or r == 'timeout':
                rs = []
                for p in ps:
                    q, pm = e.prove_sliced(obls[i].pc, p, int(min(ms, left() * 1000 + 100)), True) if left() > 0 else ('timeout', None)
                    rs.append(q)
                    if q != 'ok':
                        r, m = q, pm
                        if os.environ.get('MIRV_PARTS'): print('PART', q, obls[i].name, str(p).replace('\n', ' ')[:1500], flush=True)
                        break
                else: r, m = 'ok', None
        emit(i, r, str(m)[:1500] if m is not None else None, time.time() - t)
    def many(ids):
        if len(ids) == 1: return one(ids[0])
        t = time.time()
        r = 'timeout'
        if left() > 0 and not (fails is not None and fails.value >= MAXFAIL): r, _ = e.prove(obls[ids[0]].pc, z3.And(*[obls[i].goal for i in ids]), int(min(ms, 2500, left() * 1000 + 100)), ematch=True)
        if r == 'ok':
            d = (time.time() - t) / len(ids)
            for i in ids: emit(i, 'ok', None, d)
        elif len(ids) > 6:
            h = len(ids) // 2; many(ids[:h]); many(ids[h:])
        else:
            for i in ids: one(i)
    many(ids)
    return out

def discharge(e, obls, ms=15000, budget=600, jobs=8, sem=None):
    t0 = time.time()
    left = lambda: budget - (time.time() - t0)
    import multiprocessing
    fails = multiprocessing.Value('i', 0)
    gs = groups(obls)
    if len(gs) <= 3: jobs = 1
    def apply(l):
        for i, r, m, t in l: o = obls[i]; o.res, o.model, o.time = r, m, t
    def work(g):
        if sem: sem.acquire()
        try: return run_group(e, obls, g, ms, left, fails)
        finally:
            if sem: sem.release()
    if jobs == 1:
        for g in gs: apply(work(g))
        return
    import multiprocessing
    ctr = multiprocessing.Value('i', 0)
    kids = []
    for k in range(min(jobs, len(gs))):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r); res = []
                while True:
                    with ctr.get_lock(): n = ctr.value; ctr.value += 1
                    if n >= len(gs): break
                    res += work(gs[n])
                d = pickle.dumps(res)
                with os.fdopen(w, 'wb') as f: f.write(d)
            except BaseException:
                import traceback, sys; traceback.print_exc(); sys.stderr.flush()
            finally: os._exit(0)
        os.close(w); kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f: d = f.read()
        os.waitpid(pid, 0)
        if d: apply(pickle.loads(d))
    for o in obls:
        if not o.res: o.res = 'skipped'
