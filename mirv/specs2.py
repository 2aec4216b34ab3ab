"""Contracts of the steps that publish: removing, applying, cleaning, persisting, validating, and the run as a whole."""
import z3
from .values import *
from .engine import *
from .models import sel, qv
from .specs import *

VD, VP, VDP = 'std::vec::Vec<rrdp::DeltaState>', 'std::vec::Vec<std::path::PathBuf>', 'std::vec::Vec<rrdp::DeprecatedFile>'
def build(e, S):
    g = e.G; K = g.K; R = g.R; T = e.T
    isf, con = g.isf, g.con
    Z = z3.IntVal(0)
    fsreq = lambda x: [('public notification describes files which are there', ('C03',), g.pubinv(x.w('fs')))]
    inside = lambda p: z3.Or(K.under(p, g.sd), K.under(p, g.rd), K.under(p, g.yd))
    noanc = lambda fs, p, nm='ap': (lambda q: z3.ForAll([q], z3.Implies(K.under(p, q), z3.Not(isf(fs, q))), patterns=[K.under(p, q)]))(z3.Const(nm, K.Path))

    # ---- replacing a file at once
    jok = lambda ty, b: e.uf('json_ok:' + ty, [b], 'bool')
    def wa_req(x):
        p, b = x.of('Path').z, x.of('Bytes').z; t = K.withext(p, e.lit('tmp')); fs = x.w('fs')
        yield 'inside the configured directories', ('C06',), z3.And(*[z3.Or(inside(q), q == g.sd, q == g.rd, q == g.yd) for q in (K.parent(p), K.parent(t))], inside(p), inside(t))
        yield 'neither the public notification nor a file it lists', ('C03',), z3.And(g.notref(fs, p), g.notref(fs, t))
        yield 'a state file is replaced by a complete state only', ('C12',), z3.And(z3.Implies(p == g.statefile, jok(RS, b)), z3.Implies(p == g.rsyncfile, jok(YS, b)), t != g.statefile, t != g.rsyncfile, t != p)
        yield from fsreq(x)
    def wa_ens(x):
        p, b = x.of('Path').z, x.of('Bytes').z; t = K.withext(p, e.lit('tmp')); f1, f2 = x.w('fs'), x.w2('fs')
        yield 'written', ('C12',), z3.Implies(isok(x), sel(f2, p) == K.Node.file(b))
        yield 'old content otherwise', ('C12', 'C07'), z3.Implies(z3.Not(isok(x)), sel(f2, p) == sel(f1, p))
        yield 'nothing else changes', ('C06', 'C07', 'C03'), frame(g, f1, f2, eq=[p, t])
        yield 'public notification', ('C03',), g.pubinv(f2)
    S.add('file_ops::write_buf_atomic', ['Path', 'Bytes'], wa_req, wa_ens, mods=('fs', 'ex'))

    # ---- removing a file, and directories left empty
    def rm_req(x):
        p = x.of('Path').z; fs = x.w('fs')
        yield 'a file in the RRDP directory which is not published', ('C03', 'C05', 'C06'), z3.Implies(isf(fs, p), z3.And(g.notref(fs, p), K.under(p, g.rd)))
        yield 'no file where a directory is expected', ('C05', 'C06'), noanc(fs, p)
        yield from fsreq(x)
    def rm_ens(x):
        p = x.of('Path').z; f1, f2 = x.w('fs'), x.w2('fs')
        yield 'removed', ('C05',), z3.Implies(isok(x), z3.Not(isf(f2, p)))
        yield 'nothing else is removed', ('C05', 'C06', 'C03'), frame(g, f1, f2, eq=[p])
        yield 'removed or unchanged', ('C05',), z3.Or(sel(f2, p) == sel(f1, p), z3.Not(isf(f2, p)))
        yield 'public notification', ('C03',), g.pubinv(f2)
    S.add('file_ops::remove_file_and_empty_parent_dirs', ['Path'], rm_req, rm_ens, mods=('fs', 'ex'), event=lambda x: ('removeup', dict(path=x.of('Path').z)))

    # ---- clean
    def sameother(s, s2, *skip):
        return z3.And(*[getattr(s, f).z == getattr(s2, f).z for f in ('notification_source', 'mappings', 'snapshot', 'deltas', 'deprecated_files', 'validator') if f not in skip])
    def due(d, now): return d.since.f('0').z <= clamp(now - g.cleanup)
    def isdep(S0, S2, j, w):
        pass
    def cl_req(x):
        s = x.of('&mut ' + RS) if False else x.a(x.ix(RS)); fs = x.w('fs')
        yield 'configuration', (), cfgreq(x)
        yield 'state', (), g.scfg(s)
        yield 'files to clean up are not published', ('C05', 'C03'), g.depsok(s, fs)
        yield from fsreq(x)
    def kept(s, s2, f, nm='kd'):
        """f(old entry, entry is kept)"""
        d, d2 = s.deprecated_files, s2.deprecated_files; j = z3.Int(nm + 'j')
        return g.deps(s, lambda i, x: f(x, z3.Exists([j], z3.And(0 <= j, j < d2.len, d2.at(j).z == x.z))), nm)
    def cl_ens(x):
        i = x.ix(RS); s, s2 = x.a(i), x.a2(i); f1, f2 = x.w('fs'), x.w2('fs'); d, d2 = s.deprecated_files, s2.deprecated_files
        yield 'what is due is removed and forgotten, the rest kept', ('C05',), z3.Implies(isok(x), kept(s, s2, lambda q, k: z3.Or(k, z3.And(due(q, x.w2('now')), z3.Not(isf(f2, q.path.z))))))
        yield 'nothing that is due is remembered', ('C05',), z3.Implies(isok(x), g.deps(s2, lambda i, q: z3.Not(due(q, x.w('now'))), 'cq'))
        jj = z3.Int('cj')
        yield 'nothing new is to be cleaned up', ('C05',), z3.And(d2.len >= 0, g.deps(s2, lambda i, q: z3.Exists([jj], z3.And(0 <= jj, jj < d.len, d.at(jj).z == q.z)), 'cr'))
        yield 'nothing else in the state changes', ('C12', 'C04', 'C05'), sameother(s, s2, 'deprecated_files')
        yield 'changes in the RRDP directory only', ('C06', 'C05'), frame(g, f1, f2, g.rd)
        yield 'current files stay', ('C05', 'C03', 'C02'), z3.Implies(g.filesheld(s, f1), g.filesheld(s, f2))
        pp = z3.Const('np', K.Path)
        yield 'files only disappear', ('C05', 'C03', 'C02'), z3.ForAll([pp], z3.Or(sel(f2, pp) == sel(f1, pp), z3.Not(isf(f2, pp))), patterns=[sel(f2, pp)])
        yield 'public notification', ('C03',), z3.And(g.pubinv(f2), sel(f1, g.NP) == sel(f2, g.NP))
        yield 'time', (), mono(x)
    def cl_guard(e, st, kind, kw):
        if kind not in ('remove', 'removeup', 'rmtree', 'rename'): return
        x = e.rootctx; s = x.a(x.ix(RS)); p = kw['path']; d = s.deprecated_files; j = z3.Int('gj')
        now = st.cells['w.now']
        yield 'only what is due is removed', ('C05',), z3.Implies(isf(st.cells['w.fs'], p), z3.Exists([j], z3.And(0 <= j, j < d.len, d.at(j).path.z == p, due(d.at(j), now))))
        yield 'no current file is removed', ('C05',), z3.Implies(isf(st.cells['w.fs'], p), g.notcurrent(s, p))
    def depseq(it):
        return it.seq is not None and it.seq.sort() == T.sort(VDP)
    def cl_inv(lc):
        x = e.rootctx; s = x.a(x.ix(RS)); fs0, fs = lc.w0('fs'), lc.w('fs'); now = lc.w0('now')
        for c, v, o in lc.iters:
            it = lc.flat(v)
            if not depseq(it): continue
            d = V(e, it.seq, VDP); i = z3.Int('vi'); q = d.at(i)
            yield 'removed so far', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.idx, due(q, now)), z3.Not(isf(fs, q.path.z))), patterns=[q.z])
            yield 'visited are gone', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.idx), z3.Not(isf(fs, q.path.z))), patterns=[q.z])
        yield 'current files', z3.Implies(g.filesheld(s, lc.w0('fs')), g.filesheld(s, fs))
        p = z3.Const('np', K.Path)
        yield 'files only disappear', z3.ForAll([p], z3.Or(sel(fs, p) == sel(fs0, p), z3.Not(isf(fs, p))), patterns=[sel(fs, p)])
        yield 'public notification ok', g.pubinv(fs)
    S.add('rrdp::RrdpState::clean', ['&mut ' + RS, CFG], cl_req, cl_ens, mods=('fs', 'ex', 'now'), invs=[('', cl_inv)], guards=[cl_guard])

    # ---- apply
    def scriptsran(x, w):
        v = V(e, g.scripts, VP); i = z3.Int('sx')
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.len), sel(w, v.at(i).z)), patterns=[v.at(i).z])
    g.scriptsran = scriptsran
    def ap_req(x):
        i = x.ix(RS); s = x.a(i); st = x.of(SC); fs = x.w('fs')
        yield 'configuration', (), cfgreq(x)
        yield 'state', (), g.scfg(s)
        yield 'delta list in order', ('C04',), g.order(s)
        yield 'current files are there', ('C02', 'C03'), g.filesheld(s, fs)
        yield 'files to clean up', ('C05',), z3.And(g.depsgood(s), g.deps(s, lambda i, d: g.notcurrent(s, d.path.z), 'pk'))
        yield 'staged files', ('C02', 'C03', 'C06'), g.stagedok(st, fs)
        yield 'staged changes continue the list', ('C04',), g.stagedfits(s, st)
        yield 'changes were fetched first', ('C07',), x.w('staged')
        yield 'validation passed or is not required', ('C07', 'C08'), x.w('valok')
        yield 'scripts were run and passed, or are not required to', ('C07', 'C08'), z3.And(scriptsran(x, x.w('ran')), z3.Implies(g.reject, z3.Not(x.w('bad'))))
        yield from fsreq(x)
    def newdelta(s, st, i):
        """the delta the list must have at position i"""
        o, d = s.deltas, st.deltas
        return z3.If(i < d.len, d.at(d.len - 1 - i).z, o.at(i - d.len).z)
    def keepold(s, st):
        """how many old deltas stay"""
        o = s.deltas
        return o, st.cutoff.z
    def ap_ens(x):
        i = x.ix(RS); s, s2, st = x.a(i), x.a2(i), x.of(SC); f1, f2 = x.w('fs'), x.w2('fs'); ok = isok(x)
        o, d, n = s.deltas, st.deltas, s2.deltas; k = z3.Int('ak')
        lv = V(e, g.limit, 'std::option::Option<usize>')
        yield 'snapshot is the staged one', ('C04', 'C01', 'C12'), z3.Implies(ok, z3.And(s2.snapshot.is_('Some'), s2.snapshot.some.z == st.snapshot.z))
        yield 'new deltas first, highest serial first', ('C04', '+'), z3.Implies(ok, z3.And(n.len >= d.len, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d.len), n.at(k).z == d.at(d.len - 1 - k).z), patterns=[n.at(k).z])))
        keep = n.len - d.len
        yield 'then the old ones', ('C04', '+'), z3.Implies(ok, z3.And(keep <= o.len, z3.ForAll([k], z3.Implies(z3.And(d.len <= k, k < n.len), n.at(k).z == o.at(k - d.len).z), patterns=[n.at(k).z])))
        yield 'old ones are kept exactly if the source still has them', ('C04', 'C05', '+'), z3.Implies(ok, z3.And(z3.Implies(st.session_reset.z, keep == 0),
            z3.Implies(z3.Not(st.session_reset.z), g.deltas(s, lambda j, q: (q.serial.z >= st.cutoff.z) == (j < keep), 'aj'))))
        yield 'delta list in order', ('C04', '+'), z3.Implies(ok, g.order(s2))
        yield 'not more deltas than configured', ('C04',), z3.Implies(z3.And(ok, lv.is_('Some')), n.len <= lv.some.z)
        yield 'current files are there', ('C02', 'C03'), z3.Implies(ok, g.filesheld(s2, f2))
        yield 'no current file is to be cleaned up', ('C05', 'C03'), z3.Implies(ok, z3.And(g.depsgood(s2), g.deps(s2, lambda i, q: g.notcurrent(s2, q.path.z), 'pk')))
        dep, dep2 = s.deprecated_files, s2.deprecated_files; j = z3.Int('aq')
        sched = lambda p, nm: z3.Or(g.current(s2, p), z3.Exists([j], z3.And(0 <= j, j < dep2.len, dep2.at(j).path.z == p, dep2.at(j).since.f('0').z >= clampnow(x.w('now')))))
        yield 'old snapshot is published still or to be cleaned up', ('C05',), z3.Implies(z3.And(ok, s.snapshot.is_('Some')), sched(g.pub(s.snapshot.some.rel_path.z), 's'))
        yield 'old deltas are published still or to be cleaned up', ('C05',), z3.Implies(ok, g.deltas(s, lambda i, q: sched(g.pub(q.rel_path.z), 'd'), 'ad'))
        yield 'what is to be cleaned up stays so unless published', ('C05',), z3.Implies(ok, kept(s, s2, lambda q, k: z3.Or(k, g.current(s2, q.path.z)), 'ae'))
        yield 'only what was published is to be cleaned up', ('C05',), z3.Implies(ok, g.deps(s2, lambda i, q: z3.Or(
            z3.Exists([j], z3.And(0 <= j, j < dep.len, dep.at(j).z == q.z)), z3.And(q.since.f('0').z >= clampnow(x.w('now')), g.current(s, q.path.z))), 'af'))
        yield 'nothing else in the state changes', ('C12', 'C13'), sameother(s, s2, 'snapshot', 'deltas', 'deprecated_files')
        yield 'changes in the staging area and RRDP directory only', ('C06',), frame(g, f1, f2, g.staging(), g.rd)
        yield 'public notification', ('C03',), z3.And(g.pubinv(f2), sel(f1, g.NP) == sel(f2, g.NP))
        yield 'listed files keep their content', ('C03',), keeps(g, f1, f2)
        yield 'time', (), mono(x)
    def clampnow(v): return v
    def ap_inv(lc):
        x = e.rootctx; i = x.ix(RS); s, st = x.a(i), x.of(SC); fs0, fs = lc.w0('fs'), lc.w('fs')
        for c, v, o in lc.iters:
            it = lc.flat(v)
            if it.seq is None or it.seq.sort() != T.sort(VD): continue
            d = V(e, it.seq, VD); k = z3.Int('mi'); q = d.at(k)
            if any(c == 'w.fs' for c, _ in lc.mods):
                yield 'moved so far', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it.idx), g.at(fs, g.pub(q.rel_path.z), q.rel_path.z)), patterns=[q.z])
                yield 'to be moved', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d.len), z3.Or(g.at(fs, g.stg(q.rel_path.z), q.rel_path.z), z3.And(z3.Not(isf(fs, g.stg(q.rel_path.z))), z3.Not(sel(lc.w('ex'), g.stg(q.rel_path.z)))))), patterns=[q.z])
                yield 'snapshot is there', g.at(fs, g.pub(st.snapshot.rel_path.z), st.snapshot.rel_path.z)
                yield 'public notification ok', g.pubinv(fs)
            for kk, c2, v2, o2 in lc.locals_of(lambda v, o: isinstance(v, z3.ExprRef) and v.sort() == T.sort(VDP)):
                a, b = V(e, v2, VDP), V(e, o2, VDP); j = z3.Int('mj'); m = a.at(j)
                yield f'deprecated {kk}', z3.And(a.len == b.len + it.idx, b.len >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < b.len), m.z == b.at(j).z), patterns=[m.z, b.at(j).z]))
                y = d.at(j - b.len)
                f = lambda: z3.And(m.path.z == g.pub(y.rel_path.z), m.since.f('0').z >= lc.w0('now'), m.since.f('0').z <= lc.w('now'))
                yield f'new deprecated {kk}', z3.ForAll([j], z3.Implies(z3.And(b.len <= j, j < a.len), f()), patterns=[m.z])
                m2 = a.at(j + b.len); y2 = d.at(j)
                yield f'new deprecated back {kk}', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.idx), z3.And(m2.path.z == g.pub(y2.rel_path.z), m2.since.f('0').z >= lc.w0('now'), m2.since.f('0').z <= lc.w('now'))), patterns=[y2.z])
            for kk, c2, v2, o2 in lc.locals_of(lambda v, o: isinstance(v, z3.ExprRef) and v.sort() == T.sort(VP)):
                a, b = V(e, v2, VP), V(e, o2, VP); j = z3.Int('mj'); m = a.at(j); y = d.at(j - b.len); m2 = a.at(j + b.len); y2 = d.at(j)
                yield f'paths {kk}', z3.And(a.len == b.len + it.idx, b.len >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < b.len), m.z == b.at(j).z), patterns=[m.z, b.at(j).z]))
                yield f'new paths {kk}', z3.ForAll([j], z3.Implies(z3.And(b.len <= j, j < a.len), m.z == g.pub(y.rel_path.z)), patterns=[m.z])
                yield f'new paths back {kk}', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.idx), m2.z == g.pub(y2.rel_path.z)), patterns=[y2.z])
    S.add('rrdp::RrdpState::apply_staged_changed', ['&mut ' + RS, SC, CFG], ap_req, ap_ens, mods=('fs', 'ex', 'now', 'applied'), invs=[('', ap_inv)],
          ghost=lambda x: {'applied': TRUE}, frameskip=('applied',), midway=True)
    return S
YS = 'rsync::RsyncDirState'
