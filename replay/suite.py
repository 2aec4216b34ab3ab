"""Which scenarios look for a failing input of which property; runs them in parallel against the current tree."""
import sys, os, random, time, traceback, json
from multiprocessing import Pool
from base import *
import scen, scen2

ALLP = [f'C{i:02d}' for i in range(1, 21)]
HIST = set(ALLP[:12]) | {'C20'}
def t_history(b, sd): scen.history(b, random.Random(sd))
def t_calm(b, sd): scen.history(b, random.Random(sd), steps=14, crash=False, bad=False)
def t_intr(b, sd): rng = random.Random(sd); scen.interruptions(b, rng, every=rng.choice([2, 3]) if sd % 2 else 1, rsync=rng.random() < .9, cleanup=rng.choice([0, 300, 300]), maxd=rng.choice([None, 2]), delay=rng.choice([0, 5]))
def t_faults(b, sd): rng = random.Random(sd); scen.interruptions(b, rng, every=rng.choice([1, 2]), faults=True, rsync=rng.random() < .9, cleanup=rng.choice([0, 300]))
def t_moves(b, sd): scen.interruptions(b, random.Random(sd), every=2, moves=True)
def t_ret(b, sd): scen.returning(b, random.Random(sd), every=2 if sd % 2 else 1)
def simple(f): return lambda b, sd: f(b, random.Random(sd))
TASKS = {
    'history': (t_history, HIST), 'calm': (t_calm, {'C04', 'C05', 'C10', 'C01', 'C12'}), 'interruptions': (t_intr, {'C03', 'C09', 'C10', 'C12', 'C05', 'C07', 'C06', 'C20'}),
    'faults': (t_faults, {'C03', 'C07', 'C09', 'C12', 'C10', 'C05', 'C06', 'C20'}), 'moves': (t_moves, {'C09', 'C10', 'C03'}),
    'returning': (t_ret, {'C03', 'C05', 'C12'}),
    'scripts': (simple(scen.scripts), {'C08', 'C07'}), 'lock': (simple(scen.lock), {'C11'}), 'https': (simple(scen2.https), {'C13', 'C01', 'C02', 'C07'}),
    'mapping': (simple(scen2.mapping_files), {'C13'}), 'dirs': (simple(scen2.dirs), {'C19'}), 'hostile': (simple(scen2.hostile), {'C06', 'C20', 'C03', 'C09'}),
    'times': (simple(scen2.times), {'C18', 'C09'}),
}
FAST = {'history': 240, 'calm': 60, 'interruptions': 6, 'faults': 6, 'moves': 2, 'returning': 4, 'scripts': 1, 'lock': 2, 'https': 1, 'mapping': 1, 'dirs': 1, 'hostile': 1, 'times': 1}
DEEP = {'history': 12000, 'calm': 3000, 'interruptions': 120, 'faults': 120, 'moves': 20, 'returning': 60, 'scripts': 5, 'lock': 30, 'https': 5, 'mapping': 3, 'dirs': 8, 'hostile': 8, 'times': 4}
try:
    import rpkiscen
    for k, (f, ps, a, d) in rpkiscen.TASKS.items(): TASKS[k] = (f, ps); FAST[k] = a; DEEP[k] = d
except ImportError: pass
_b = None
def one(job):
    nm, sd = job
    t = time.time()
    try: TASKS[nm][0](_b, sd); return nm, sd, None, time.time() - t
    except Fail as x: return nm, sd, ('fail', sorted(x.props), x.msg, getattr(x, 'trace', [])), time.time() - t
    except Exception: return nm, sd, ('error', [], traceback.format_exc(), []), time.time() - t
def run(prop, deep=False, seed=1, budget=240, stop=True):
    """-> dict(cases, byname, fails of this property, other fails, errors)"""
    global _b
    _b = publish_bin(build())
    n = DEEP if deep else FAST
    jobs = []
    for k, (f, ps) in TASKS.items():
        if prop in ps:
            m = n[k]
            jobs += [(k, seed * 1000003 + i if k not in ('dirs',) else i) for i in range(m)]
    # spread the kinds
    jobs.sort(key=lambda j: (j[1] % 1000003) / max(1, n[j[0]]))
    out = dict(cases=0, byname={}, fails=[], others=[], errors=[], skipped=0)
    t0 = time.time()
    with Pool(8) as p:
        for nm, sd, r, dt in p.imap_unordered(one, jobs):
            out['cases'] += 1; out['byname'][nm] = out['byname'].get(nm, 0) + 1
            if r:
                d = dict(scenario=nm, seed=sd, props=r[1], message=r[2], trace=r[3])
                if r[0] == 'error': out['errors'].append(d)
                elif prop in r[1]:
                    out['fails'].append(d)
                    if stop: break
                else: out['others'].append(d)
            if time.time() - t0 > budget: out['skipped'] = len(jobs) - out['cases']; break
        p.terminate()
    out['wall'] = time.time() - t0
    return out
def again(d):
    """one recorded case once more; true if it fails again"""
    global _b
    if _b is None: _b = publish_bin(build())
    return one((d['scenario'], d['seed']))[2]
if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        r = again(d['case']) if 'case' in d else None
        print(json.dumps(r, indent=1, default=str)); sys.exit(1 if r else 0)
    for p in sys.argv[1].split(','):
        o = run(p, deep='-d' in sys.argv, stop=False)
        print(p, o['cases'], o['byname'], f"{o['wall']:.1f}s")
        for k in ('fails', 'others', 'errors'):
            for d in o[k]: print('  ', k, d['scenario'], d['seed'], d['props'], d['message'][:700])
