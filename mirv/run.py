import sys, json, time, collections
from .engine import *
from . import models, world, rpkim, procm, specs, specs2, specs3, specs4, specs5, specs6, specs7
def load(paths, prefix_bin=None):
    ds = []
    for p in paths:
        t = open(p).read()
        if p.endswith('.bin.json'): t = t.replace('krill_sync::', '')
        ds.append(json.loads(t))
    e = Engine(ds)
    models.install(e); world.install_world(e); rpkim.install(e); procm.install(e); specs.install(e)
    e.specs = specs7.build(e, specs6.build(e, specs5.build(e, specs4.build(e, specs3.build(e, specs2.build(e, specs.build(e)))))))
    e.contracts = dict(e.specs.all)
    e.globguards = [specs.guard_paths, specs.guard_public]
    e.globinvs = [('frame ', specs.inv_frame), ('', specs.inv_now)]
    return e
def solve(e, ms=10000, only=None):
    cache = {}
    for o in e.obls:
        if o.res: continue
        if z3.is_true(o.goal): o.res = 'ok'; continue
        k = (tuple(sorted(f.get_id() for f in o.pc)), o.goal.get_id())
        if k in cache: o.res = cache[k]; continue
        t = time.time()
        o.res, o.model = e.prove(o.pc, o.goal, ms, True)
        o.time = time.time() - t
        cache[k] = o.res
def show(e):
    by = collections.defaultdict(list)
    for o in e.obls: by[(o.fn, o.name)].append(o)
    for k, os in by.items():
        c = collections.Counter(o.res for o in os)
        print(f'  {k[1][:90]:90s} {dict(c)} {sum(o.time for o in os):.2f}s', sorted({o.at for o in os if o.res != 'ok'})[:3], sorted(set().union(*[o.taint for o in os if o.res != 'ok']))[:3] if any(o.res != 'ok' for o in os) else '')
