"""ProcessSnapshot::process of the rpki crate: calls `publish` for every element of a snapshot, in order.
The loop lies in the dependency, so its invariant is given here per implementing type (e.procinvs)."""
import z3
from .values import *
from .engine import *
from .models import *
from .models import lenfact
from .world import fpath, getfs

class Snap:
    """vocabulary: what parsing gives for the bytes of a snapshot"""
    def __init__(s, e): s.e = e
    def ok(s, b): return s.e.uf('snap_ok', [b], 'bool')
    def len(s, b): return s.e.uf('snap_len', [b], 'usize')
    def uri(s, b, i): return s.e.uf('snap_uri', [b, i], 'rpki::uri::Rsync')
    def data(s, b, i): return s.e.uf('snap_data', [b, i], 'std::vec::Vec<u8>')
    def session(s, b): return s.e.uf('snap_session', [b], 'uuid::Uuid')
    def serial(s, b): return s.e.uf('snap_serial', [b], 'u64')
class PC:
    """what the invariant of `process` sees"""
    def __init__(s, e, b, k, me0, me, st0, st, ty): s.e, s.b, s.k, s.me0, s.me, s.st0, s.st, s.ty = e, b, k, me0, me, st0, st, ty
    def w0(s, n): return s.st0.cells['w.' + n]
    def w(s, n): return s.st.cells['w.' + n]
@model('rpki::rrdp::ProcessSnapshot::process')
def process(c):
    e, T, st = c.e, c.T, c.st
    me = c.args[0]
    if not isinstance(me, Ref): raise Unsupported('process of a value')
    ty = T.strip(T.info(c.atys[0])['t'] if T.info(c.atys[0])['k'] == 'ref' else c.atys[0])
    r = c.z(1)
    b = r if r.sort() == e.K.Bytes else e.K.content(sel(getfs(st), fpath(c, r)))
    ids = {m: e.bypath.get(f'<{ty} as rpki::rrdp::ProcessSnapshot>::{m}') for m in ('meta', 'publish')}
    if not all(ids.values()): raise Unsupported('no implementation of ProcessSnapshot for ' + ty)
    S = e.snap; inv = e.procinvs.get(ty)
    n = S.len(b); lenfact(st, n)
    okty, errty = T.info(T.strip(c.dty))['args'][:2]
    def call(s, m, args, atys):
        fid = ids[m][0]
        return e.call(s, dict(k='fndef', base='rpki::rrdp::ProcessSnapshot::' + m, res=e.fns[fid]['path'], id=fid), args, atys, f'std::result::Result<(), {errty}>', None)
    rty = T.strip(f'std::result::Result<(), {errty}>')
    def split(s, v):
        """(states of success, states of failure)"""
        isok = T.is_variant(v, rty, 0)
        a, q = s, s.copy(); a.assume(isok); q.assume(z3.Not(isok))
        return ([a] if e.feasible(a) else []), ([q] if e.feasible(q) else [])
    out = []
    def fail(s): out.append((s, c.mk(c.dty, 'Err', e.fresh_value(s, errty, 'err'))))
    def elem(s, k):
        rd = T.fresh('rpki::rrdp::ObjectReader', 'reader') if T.zable('rpki::rrdp::ObjectReader') else T.fresh_sort(z3.DeclareSort('ObjectReader'), 'reader')
        s.assume(e.uf('reader_data', [rd], 'std::vec::Vec<u8>') == S.data(b, k))
        return [me, S.uri(b, k), Ref(e.newcell(s, rd, 'rd'), (), 'rpki::rrdp::ObjectReader')]
    at = [f'&mut {ty}', 'rpki::uri::Rsync', '&mut rpki::rrdp::ObjectReader']
    # unreadable or unparsable from the start
    bad = st.copy(); fail(bad)
    for st0, v in call(st, 'meta', [me, S.session(b), S.serial(b)], [f'&mut {ty}', 'uuid::Uuid', 'u64']):
        goods, bads = split(st0, v)
        for q in bads: fail(q)
        for st0 in goods:
            # what publishing changes
            q = st0.copy(); old = e.quiet; e.quiet = old + 1
            try: ch = {k for s2, _ in call(q, 'publish', elem(q, z3.IntVal(0)), at) for k in s2.cells if k in st0.cells and not veq(st0.cells[k], s2.cells[k])}
            finally: e.quiet = old
            ch = {k for k in ch if k.startswith('w.') or k == me.cell} | {me.cell}
            def state(k):
                s = st0.copy()
                for cl in ch:
                    if cl == me.cell: e.write(s, me.cell, me.path, me.ty, e.havoc_value(s, e.deref(s, me)))
                    else: s.cells[cl] = e.havoc_value(s, s.cells[cl])
                return s
            def facts(s, k):
                if not inv: return []
                return list(inv(PC(e, b, k, V(e, e.z(e.deref(st0, me), ty), ty), V(e, e.z(e.deref(s, me), ty), ty), st0, s, ty)))
            if inv:
                for nm, tags, f in facts(st0, z3.IntVal(0)): e.oblige(st0, f'process {T.strip(ty)}: {nm} at the start', f, tags, 'inv')
            T.nfresh += 1; k = z3.Int(f'pk!{T.nfresh}')
            s1 = state(k); s1.assume(0 <= k, k < n, S.ok(b), *[f for _, _, f in facts(s1, k)])
            for s2, v2 in call(s1, 'publish', elem(s1, k), at):
                gs, bs = split(s2, v2)
                for q in bs: fail(q)
                for q in gs:
                    for nm, tags, f in facts(q, k + 1): e.oblige(q, f'process {T.strip(ty)}: {nm} kept', f, tags, 'inv')
            s3 = state(None); T.nfresh += 1; k3 = z3.Int(f'pk!{T.nfresh}'); s3.assume(0 <= k3, k3 <= n, *[f for _, _, f in facts(s3, k3)]); fail(s3)
            s4 = state(None); s4.assume(S.ok(b), *[f for _, _, f in facts(s4, n)])
            out.append((s4, c.mk(c.dty, 'Ok', UNIT)))
    return out
def install(e):
    e.models.update(M)
    e.snap = Snap(e); e.procinvs = {}
