"""The lock of a run (the program, src/main.rs)."""
import z3
from .values import *
from .engine import *
from .models import sel, M, model, as_path
from . import world
from .world import event, getfs, setfs, set_ex, named
from .specs import *
from .specs3 import *

LF = 'fslock::LockFile'
def lockpath(e, z): return z3.Function('lock_path', z.sort(), e.K.Path)(z)
@model('fslock::LockFile::open')
def lf_open(c):
    p = as_path(c, 0); e = c.e; K = e.K
    event(c, c.st, 'lockfile', path=p)
    fs = getfs(c.st)
    def ok(n):
        nd = K.Node.file(c.T.fresh_sort(K.Bytes, 'lockfile')); n.assume(z3.Implies(K.isfile(sel(fs, p)), sel(fs, p) == nd)); world.put(c, n, p, nd); set_ex(c, n, p)     # made if it is not there, left as it is otherwise
        v = c.T.fresh(LF, 'lock'); n.assume(lockpath(e, v) == p)
        return v
    return c.okerr(ok)
def take(c, n, v, got):
    e = c.e
    e.setw(n, 'locked', z3.simplify(z3.Or(n.cells['w.locked'], z3.And(got, lockpath(e, v) == e.G.lockfile))))
    e.setw(n, 'hadlock', z3.simplify(z3.Or(n.cells['w.hadlock'], n.cells['w.locked'])))
def release(e, n, v):
    e.setw(n, 'locked', FALSE if v is None else z3.simplify(z3.And(n.cells['w.locked'], lockpath(e, v) != e.G.lockfile)))
@model('fslock::LockFile::try_lock', 'fslock::LockFile::try_lock_with_pid')
def lf_try(c):
    v = c.z(0)
    def ok(n):
        b = c.T.fresh('bool', 'got'); take(c, n, v, b)
        return b
    return c.okerr(ok)
@model('fslock::LockFile::lock', 'fslock::LockFile::lock_with_pid')
def lf_lock(c):
    v = c.z(0)
    def ok(n): take(c, n, v, TRUE); return UNIT
    return c.okerr(ok)
@model('fslock::LockFile::unlock')
def lf_unlock(c):
    v = c.z(0)
    def ok(n): release(c.e, n, v); return UNIT
    return c.okerr(ok)
@model('fslock::LockFile::owns_lock')
def lf_owns(c):
    b = c.T.fresh('bool', 'owns'); c.st.assume(z3.Implies(c.st.cells['w.locked'], z3.Implies(lockpath(c.e, c.z(0)) == c.e.G.lockfile, b)))
    return c.ret(b)
def dropped(e, st, v):
    """the end of a handle releases the lock"""
    if 'w.locked' not in st.cells: return
    release(e, st, v if isinstance(v, z3.ExprRef) else None)
M['drop:LockFile'] = dropped
def build(e, S):
    g = e.G; K = g.K
    for n in ('locked', 'hadlock'): e.world[n] = (lambda n: lambda e: z3.Const('w_' + n, B))(n)
    e.skipframe.add('hadlock')
    def tm_req(x):
        yield 'configuration', (), z3.And(cfgreq(x), x.of(CFG).tal_files.z == g.tals)
        yield 'no lock yet', (), z3.And(z3.Not(x.w('locked')), z3.Not(x.w('hadlock')))
        yield from g.runreq(x)
    def tm_ens(x):
        f1, f2 = x.w('fs'), x.w2('fs')
        yield 'succeeds only with the lock', ('C11',), z3.Implies(isok(x), x.w2('hadlock'))
        yield 'nothing is done without the lock', ('C11',), z3.Implies(z3.Not(x.w2('hadlock')), frame(g, f1, f2, eq=[g.lockfile]))
    def tm_guard(e, st, kind, kw):
        if kind in ('mkdir', 'lockfile'): return
        yield 'with the lock only', ('C11',), st.cells['w.locked']
    if 'fslock::LockFile' in e.T.t:
        S.add('try_main', [CFG], tm_req, tm_ens, mods=S.all['process::process'].mods_ + ('locked', 'hadlock') if isinstance(S.all['process::process'].mods_, tuple) else tuple(S.all['process::process'].mods_) + ('locked', 'hadlock'), guards=[tm_guard])
    return S
