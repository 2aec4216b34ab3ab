"""Contracts of the rsync step: the tree written from a snapshot, modification times, switching, clean-up."""
import z3
from .values import *
from .engine import *
from .models import sel, qv
from .specs import *
from .specs2 import YS

FT, XT, CERT, CRL, SOB = 'filetime::FileTime', 'rpki::repository::x509::Time', 'rpki::repository::Cert', 'rpki::repository::Crl', 'rpki::repository::sigobj::SignedObject'
REV, DREV, WR = 'rsync::RsyncRevision', 'rsync::DeprecatedRsyncRevision', 'rsync::RsyncFromSnapshotWriter'
VO = 'std::vec::Vec<rsync::DeprecatedRsyncRevision>'
def setup(e):
    """ghost state of the rsync directory: links, modification times"""
    g = e.G; K = e.K; T = e.T
    g.host, g.moves = z3.Bools('g_rsync_include_host g_rsync_force_moves')
    g.cur, g.curtmp = K.join(g.yd, e.lit('current')), K.join(g.yd, e.lit('current.tmp'))
    ft = T.sort(FT)
    for n, srt in (('link', z3.ArraySort(K.Path, K.Path)), ('haslink', K.EX), ('mt', z3.ArraySort(K.Path, ft)), ('hasmt', K.EX), ('ioerr', B)):
        e.world[n] = (lambda n, srt: lambda e: z3.Const('w_' + n, srt))(n, srt)
    e.skipframe.add('ioerr')
    gi = e.ghostinit; e.ghostinit = lambda st: gi(st) + [z3.Not(st.cells['w.ioerr'])]
    def hook(c, st, kind, kw):
        if kind == 'readerr': c.e.setw(st, 'ioerr', TRUE)
        if kind == 'mtime' and kw['time'].sort() == ft:
            c.e.setw(st, 'mt', z3.Store(st.cells['w.mt'], kw['path'], kw['time'])); c.e.setw(st, 'hasmt', z3.Store(st.cells['w.hasmt'], kw['path'], TRUE))
    e.hooks.append(hook)
    # trees of the rsync directory: one component below it
    one = g.one = z3.Function('onecomponent', K.Str, B); comp = z3.Function('component', K.Path, K.Path, K.Str)
    p, q, d = z3.Consts('p q d', K.Path); a, b = z3.Consts('a b', K.Str)
    A = e.axiom
    A(z3.ForAll([d, a], z3.Implies(one(a), z3.And(K.relok(a), comp(K.pjoin(d, K.path_of(a)), d) == a, K.parent(K.pjoin(d, K.path_of(a))) == d)), patterns=[z3.MultiPattern(one(a), K.pjoin(d, K.path_of(a)))]), ['onecomponent'])
    A(z3.ForAll([p, d, a], z3.Implies(z3.And(one(a), K.under(p, K.pjoin(d, K.path_of(a)))), comp(p, d) == a), patterns=[z3.MultiPattern(one(a), K.under(p, K.pjoin(d, K.path_of(a))))]), ['onecomponent', 'under'])
    e.litfacts.append(lambda e, lits, have: [one(v) for t, v in lits if t in ('current', 'current.tmp', 'current.old')] if 'onecomponent' in have else [])
    for t in ('current', 'current.tmp', 'session_', '_serial_'): e.lit(t)
    U = T.sort('uuid::Uuid'); u, v = z3.Consts('u v', U); n, m = z3.Ints('n m')
    dn = lambda u, n: K.cat(e.lit('session_'), K.cat(e.uf('disp', [u], 'str'), K.cat(e.lit('_serial_'), e.uf('disp', [n], 'str'))))
    # the name of a tree is one component, one to one in session and serial, and starts with session_
    ru, rn = z3.Function('name_session', K.Str, U), z3.Function('name_serial', K.Str, I)
    A(z3.ForAll([u, n], z3.And(one(dn(u, n)), ru(dn(u, n)) == u, rn(dn(u, n)) == n, dn(u, n) != e.lit('current'), dn(u, n) != e.lit('current.tmp')), patterns=[dn(u, n)]), ['"_serial_"'])
    def links(hl):
        p = z3.Const('lp', K.Path)
        return z3.ForAll([p], z3.Implies(sel(hl, p), z3.And(z3.Not(g.moves), z3.Or(p == g.cur, p == g.curtmp))), patterns=[sel(hl, p)])
    g.links = links
    g.dirn = dn
    g.revname = lambda r: dn(r.session_id.z, r.serial.z)
    g.revdir = lambda r: K.join(g.yd, g.revname(r))
def build(e, S):
    g = e.G; K = g.K; R = g.R; T = e.T; P = e.snap
    try: setup(e)
    except Unsupported: return S
    isf, con = g.isf, g.con
    Z = z3.IntVal(0)
    fsreq = lambda x: [('public notification describes files which are there', ('C03',), g.pubinv(x.w('fs')))]
    # ---- modification times
    dt = lambda t: e.uf('from_unix_time:' + T.canon(FT)[-12:], [e.uf('timestamp', [e.uf('as_datetime', [t], 'chrono::DateTime<chrono::Utc>')], 'i64'), Z], FT)
    ends = lambda s, t: e.uf('ends_with', [s, e.lit(t)], 'bool')
    U = lambda n, x, ty: e.uf(n, [x], ty)
    TBS, VAL = 'rpki::repository::cert::TbsCert', 'rpki::repository::x509::Validity'
    nb = lambda c: U('rpki::repository::x509::Validity::not_before', U('rpki::repository::cert::TbsCert::validity', U('tbs_of', c, TBS), VAL), XT)
    def expected(p, b):
        """(the object determines a time, the time)"""
        s = K.pathstr(p)
        cer, crl, sob = e.uf('decoded_Cert', [b], CERT), e.uf('decoded_Crl', [b], CRL), e.uf('decoded_SignedObject', [b], SOB)
        cty = 'rpki::repository::crl::TbsCertList<rpki::repository::crl::RevokedCertificates>'
        tu = U('rpki::repository::crl::TbsCertList::<C>::this_update', U('std::ops::Deref::deref', crl, cty), XT)
        st = V(e, U('rpki::repository::sigobj::SignedObject::signing_time', sob, f'std::option::Option<{XT}>'), f'std::option::Option<{XT}>')
        see = z3.If(st.is_('Some'), st.some.z, nb(U('rpki::repository::sigobj::SignedObject::cert', sob, CERT)))
        has = z3.If(ends(s, '.cer'), e.uf('decodes_Cert', [b], 'bool'), z3.If(ends(s, '.crl'), e.uf('decodes_Crl', [b], 'bool'), e.uf('decodes_SignedObject', [b], 'bool')))
        return has, z3.If(ends(s, '.cer'), dt(nb(cer)), z3.If(ends(s, '.crl'), dt(tu), dt(see)))
    # one name for what an object determines
    hasT, atT = z3.Function('has_time', K.Path, K.Bytes, B), z3.Function('time_of', K.Path, K.Bytes, T.sort(FT))
    p_, b_ = z3.Const('p', K.Path), z3.Const('b', K.Bytes)
    h, t = expected(p_, b_)
    e.axiom(z3.ForAll([p_, b_], z3.And(hasT(p_, b_) == h, atT(p_, b_) == t), patterns=[hasT(p_, b_)]), ['has_time'])
    timed = lambda w, p, b: z3.Implies(hasT(p, b), z3.And(sel(w('hasmt'), p), sel(w('mt'), p) == atT(p, b)))
    def fx_req(x):
        p, b, fs = x.of('Path').z, x.of('Bytes').z, x.w('fs')
        yield 'the object was written before', ('C18',), z3.And(isf(fs, p), con(fs, p) == b)
        yield 'inside the rsync directory', ('C06',), K.under(p, g.yd)
    def mtframe(x, *ps):
        q = z3.Const('mq', K.Path)
        c = z3.And(*[q != p for p in ps])
        return z3.And(*[z3.ForAll([q], z3.Implies(c, sel(x.w2(n), q) == sel(x.w(n), q)), patterns=[sel(x.w2(n), q)]) for n in ('mt', 'hasmt')])
    def fx_ens(x):
        p, b = x.of('Path').z, x.of('Bytes').z
        yield 'gets the time the object determines', ('C18',), timed(x.w2, p, b)
        yield 'other times stay', ('C18',), mtframe(x, p)
    S.add('rsync::fix_since', ['Path', 'Bytes'], fx_req, fx_ens, mods=('mt', 'hasmt'))
    # ---- writing a tree
    RU = 'rpki::uri::Rsync'
    def relof(u, host):
        path = e.uf('rpki::uri::Rsync::path', [u], 'str'); sl = e.lit('/')
        au, mo = e.uf('rpki::uri::Rsync::authority', [u], 'str'), e.uf('rpki::uri::Rsync::module_name', [u], 'str')
        return K.cat(au, K.cat(sl, K.cat(mo, K.cat(sl, path)))) if host else path
    # a name of its own for the place of an object, so that it can be matched
    rel = z3.Function('rsync_rel', T.sort(RU), K.Str)
    u_ = z3.Const('u', T.sort(RU))
    e.axiom(z3.ForAll([u_], z3.And(z3.Implies(g.host, rel(u_) == relof(u_, True)), z3.Implies(z3.Not(g.host), rel(u_) == relof(u_, False))), patterns=[z3.MultiPattern(rel(u_), e.uf('rpki::uri::Rsync::path', [u_], 'str'))]), ['rsync_rel'])
    relp = lambda u, host: rel(u)
    place = lambda d, u, host: K.join(d, relp(u, host))
    def indir(w): return z3.And(K.under(w.out_path.z, g.yd), w.include_host_and_module.z == g.host)
    def pb_req(x):
        w = x.a(x.ix(WR))
        yield 'into a tree of the rsync directory', ('C09', 'C06'), z3.And(indir(w), g.cur != w.out_path.z, z3.Not(K.under(w.out_path.z, g.cur)))
        yield from fsreq(x)
    def pb_ens(x):
        i = x.ix(WR); w, w2 = x.a(i), x.a2(i); u = x.of(RU).z; b = e.uf('reader_data', [x.of('rpki::rrdp::ObjectReader').z], 'std::vec::Vec<u8>')
        p = place(w.out_path.z, u, g.host); f1, f2 = x.w('fs'), x.w2('fs'); ok = isok(x)
        yield 'the object is there with its content', ('C09',), z3.Implies(ok, z3.And(isf(f2, p), con(f2, p) == b))
        yield 'inside the tree', ('C06', 'C09'), z3.Implies(ok, z3.And(K.relok(relp(u, g.host)), K.under(p, w.out_path.z)))
        yield 'with the time it determines', ('C18',), z3.Implies(ok, timed(x.w2, p, b))
        yield 'nothing else is touched', ('C09', 'C06'), frame(g, f1, f2, eq=[p])
        yield 'other times stay', ('C18',), mtframe(x, p)
        yield 'changes in the tree only', ('C06', 'C09', 'C03'), frame(g, f1, f2, w.out_path.z)
        yield 'writer', ('C09',), w2.z == w.z
        yield 'public notification', ('C03',), g.pubinv(f2)
    def pb_guard(e, st, kind, kw):
        if kind not in ('write', 'rename', 'remove', 'rmtree', 'symlink', 'rmdir'): return
        x = e.rootctx; w = x.a(x.ix(WR)); u = x.of(RU).z; b = e.uf('reader_data', [x.of('rpki::rrdp::ObjectReader').z], 'std::vec::Vec<u8>'); p = kw['path']
        yield 'an object which is complete is left alone', ('C09',), z3.Or(st.cells['w.ioerr'], z3.Not(z3.And(isf(st.cells['w.fs'], p), con(st.cells['w.fs'], p) == b)))
        yield 'after its time was set the object is left alone', ('C18',), z3.And(st.cells['w.mt'] == x.w('mt'), st.cells['w.hasmt'] == x.w('hasmt'))
    S.add(f'<{WR} as rpki::rrdp::ProcessSnapshot>::publish', ['&mut ' + WR, RU, None], pb_req, pb_ens, mods=('fs', 'ex', 'mt', 'hasmt'), guards=[pb_guard])
    def tree(fs, d, b, n=None, w=None, nm='ti'):
        """the first n objects of the snapshot are in the tree, with the times they determine"""
        i = z3.Int(nm); u = P.uri(b, i); p = place(d, u, g.host); c = P.data(b, i)
        n = P.len(b) if n is None else n
        f = [K.relok(relp(u, g.host)), isf(fs, p), con(fs, p) == c]
        if w: f.append(timed(w, p, c))
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(*f)), patterns=[u])
    g.tree = tree
    def collide(d, b):
        """assumption: two objects of a snapshot never map to the same file"""
        i, j = z3.Ints('ui uj')
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < P.len(b)), place(d, P.uri(b, i), g.host) != place(d, P.uri(b, j), g.host)), patterns=[z3.MultiPattern(P.uri(b, i), P.uri(b, j))])
    def proc(c):
        w0, w = c.me0, c.me; d = w0.out_path.z
        yield 'writer', ('C09',), w.z == w0.z
        if c.st is not c.st0 and not c.e.quiet: c.st.assume(collide(d, c.b))
        yield 'objects written so far', ('C09',), tree(c.w('fs'), d, c.b, c.k)
        yield 'objects with their times so far', ('C18',), tree(c.w('fs'), d, c.b, c.k, c.w, 'tj')
        yield 'changes in the tree only', ('C06', 'C09', 'C03'), frame(g, c.w0('fs'), c.w('fs'), d)
        yield 'public notification', ('C03',), g.pubinv(c.w('fs'))
        q = z3.Const('mq', K.Path)
        yield 'times outside stay', ('C18',), z3.And(*[z3.ForAll([q], z3.Implies(z3.Not(K.under(q, d)), sel(c.w(n), q) == sel(c.w0(n), q)), patterns=[sel(c.w(n), q)]) for n in ('mt', 'hasmt')])
    e.procinvs[WR] = proc
    def fp_req(x):
        w = x.a(x.ix(WR))
        yield 'into a tree of the rsync directory', ('C09', 'C06'), z3.And(indir(w), g.cur != w.out_path.z, z3.Not(K.under(w.out_path.z, g.cur)))
        yield from fsreq(x)
    def fp_ens(x):
        i = x.ix(WR); w, w2 = x.a(i), x.a2(i); f1, f2 = x.w('fs'), x.w2('fs'); b = con(f1, x.of('Path').z); ok = isok(x)
        yield 'every object of the snapshot is there', ('C09',), z3.Implies(ok, tree(f2, w.out_path.z, b))
        yield 'every object has the time it determines', ('C18',), z3.Implies(ok, tree(f2, w.out_path.z, b, None, x.w2))
        yield 'changes in the tree only', ('C06', 'C09', 'C03'), frame(g, f1, f2, w.out_path.z)
        yield 'writer', ('C09',), w2.z == w.z
        yield 'public notification', ('C03',), g.pubinv(f2)
    # ---- the record of trees
    revdir = g.revdir
    olds = lambda s, f, nm='oi': (lambda d, i: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), f(i, d.at(i))), patterns=[d.at(i).z]))(s.old, z3.Int(nm))
    has = lambda s, z, nm='oj': (lambda d, j: z3.Exists([j], z3.And(0 <= j, j < d.len, d.at(j).z == z)))(s.old, z3.Int(nm))
    since = lambda d: d.since.f('0').z
    due = lambda d, now: since(d) <= clamp(now - g.cleanup)
    g.rdue = due
    def uc_ens(x):
        i = x.ix(YS); s, s2 = x.a(i), x.a2(i); r = x.of(REV)
        yield 'current is the given tree', ('C09', 'C10', 'C12'), z3.And(s2.current.is_('Some'), s2.current.some.z == r.z)
        yield 'replaced trees stay on record', ('C10',), olds(s, lambda i, d: z3.Implies(d.revision.z != r.z, has(s2, d.z)))
        j = z3.Int('ok')
        yield 'the tree which was current is on record', ('C10',), z3.Implies(z3.And(s.current.is_('Some'), s.current.some.z != r.z),
            z3.Exists([j], z3.And(0 <= j, j < s2.old.len, s2.old.at(j).revision.z == s.current.some.z, since(s2.old.at(j)) >= x.w('now'), since(s2.old.at(j)) <= x.w2('now'))))
        yield 'the current tree is not among the replaced ones', ('C10',), olds(s2, lambda i, d: d.revision.z != r.z)
        yield 'only replaced trees are on record', ('C10',), olds(s2, lambda i, d: z3.Or(has(s, d.z), z3.And(s.current.is_('Some'), d.revision.z == s.current.some.z, since(d) >= x.w('now'))))
        yield 'time', (), mono(x)
    S.add('rsync::RsyncDirState::update_current', ['&mut ' + YS, REV], None, uc_ens, mods=('now',))
    def co_req(x):
        s = x.a(x.ix(YS)); fs = x.w('fs')
        yield 'configuration', (), cfgreq(x)
        yield 'the current tree is not among the replaced ones', ('C10',), z3.Implies(s.current.is_('Some'), olds(s, lambda i, d: d.revision.z != s.current.some.z))
        yield from fsreq(x)
    def co_ens(x):
        i = x.ix(YS); s, s2 = x.a(i), x.a2(i); f1, f2 = x.w('fs'), x.w2('fs'); ok = isok(x); p = z3.Const('yp', K.Path)
        yield 'what is due is removed and forgotten, the rest kept', ('C10',), z3.Implies(ok, olds(s, lambda i, d: z3.Or(has(s2, d.z), z3.And(due(d, x.w2('now')), z3.Not(sel(x.w2('ex'), revdir(d.revision)))))))
        yield 'nothing that is due is remembered', ('C10',), z3.Implies(ok, olds(s2, lambda i, d: z3.Not(due(d, x.w('now')))))
        yield 'nothing new is on record', ('C10',), olds(s2, lambda i, d: has(s, d.z))
        yield 'the current tree', ('C10', 'C09', 'C12'), s2.current.z == s.current.z
        yield 'changes in the rsync directory only', ('C06',), frame(g, f1, f2, g.yd)
        same = lambda p: sel(f2, p) == sel(f1, p)
        yield 'the tree in use stays', ('C10', 'C09'), z3.Implies(s.current.is_('Some'), z3.ForAll([p], z3.Implies(K.under(p, revdir(s.current.some)), same(p)), patterns=[sel(f2, p)]))
        yield 'no new links', ('C09',), z3.ForAll([p], z3.Implies(sel(x.w2('haslink'), p), sel(x.w('haslink'), p)), patterns=[sel(x.w2('haslink'), p)])
        yield 'current stays', ('C10', 'C09'), z3.And(sel(x.w2('haslink'), g.cur) == sel(x.w('haslink'), g.cur), sel(x.w2('link'), g.cur) == sel(x.w('link'), g.cur), z3.ForAll([p], z3.Implies(K.under(p, g.cur), same(p)), patterns=[sel(f2, p)]))
        yield 'public notification', ('C03',), g.pubinv(f2)
        yield 'time', (), mono(x)
    def co_guard(e, st, kind, kw):
        if kind not in ('remove', 'removeup', 'rmtree', 'rename', 'rmdir', 'write', 'symlink'): return
        x = e.rootctx; s = x.a(x.ix(YS)); p = kw['path']; d = s.old; j = z3.Int('gj'); now = st.cells['w.now']
        yield 'only a tree which is due is removed', ('C10',), z3.And(z3.BoolVal(kind in ('rmtree', 'remove', 'rmdir')), z3.Exists([j], z3.And(0 <= j, j < d.len, p == revdir(d.at(j).revision), due(d.at(j), now))))
        yield 'the tree in use is not removed', ('C10',), z3.And(p != g.cur, z3.Implies(s.current.is_('Some'), p != revdir(s.current.some)))
    def co_inv(lc):
        x = e.rootctx; s = x.a(x.ix(YS)); fs0, fs = lc.w0('fs'), lc.w('fs'); now = lc.w0('now')
        for c, v, o in lc.iters:
            it = lc.flat(v)
            if it.seq is None or it.seq.sort() != T.sort(VO): continue
            d = V(e, it.seq, VO); i = z3.Int('vi'); q = d.at(i)
            yield 'removed so far', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.idx, due(q, now)), z3.Not(sel(lc.w('ex'), revdir(q.revision)))), patterns=[q.z])
            yield 'visited are gone', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.idx), z3.Not(sel(lc.w('ex'), revdir(q.revision)))), patterns=[q.z])
        p = z3.Const('np', K.Path); same = lambda p: sel(fs, p) == sel(fs0, p)
        if any(c == 'w.fs' for c, _ in lc.mods):
            yield 'tree in use', z3.Implies(s.current.is_('Some'), z3.ForAll([p], z3.Implies(K.under(p, revdir(s.current.some)), same(p)), patterns=[sel(fs, p)]))
            yield 'current', z3.And(sel(lc.w('haslink'), g.cur) == sel(lc.w0('haslink'), g.cur), sel(lc.w('link'), g.cur) == sel(lc.w0('link'), g.cur), z3.ForAll([p], z3.Implies(K.under(p, g.cur), same(p)), patterns=[sel(fs, p)]))
            yield 'no new links', z3.ForAll([p], z3.Implies(sel(lc.w('haslink'), p), sel(lc.w0('haslink'), p)), patterns=[sel(lc.w('haslink'), p)])
            yield 'rsync directory only', frame(g, fs0, fs, g.yd)
            yield 'public notification ok', g.pubinv(fs)
    S.add('rsync::RsyncDirState::clean_old', ['&mut ' + YS, CFG], co_req, co_ens, mods=('fs', 'ex', 'now', 'haslink', 'link'), invs=[('', co_inv)], guards=[co_guard])
    S.add('rsync::RsyncFromSnapshotWriter::for_snapshot_path', ['&mut ' + WR, 'Path'], fp_req, fp_ens, mods=('fs', 'ex', 'mt', 'hasmt'))
    # ---- the step as a whole
    def switched(w, r, b):
        """`current` is a complete tree for the revision r with the snapshot b"""
        fs = w('fs')
        return z3.And(z3.Implies(g.moves, tree(fs, g.cur, b)), z3.Implies(z3.Not(g.moves), z3.And(sel(w('haslink'), g.cur), sel(w('link'), g.cur) == K.path_of(g.revname(r)), tree(fs, revdir(r), b))))
    g.switched = switched
    rstate = lambda fs: V(e, e.uf('json_parse', [con(fs, g.rsyncfile)], YS), YS)
    def rsaved(fs):
        """the record, if any, does not list the current tree as a replaced one"""
        s = rstate(fs)
        return z3.Implies(z3.And(isf(fs, g.rsyncfile), s.current.is_('Some')), olds(s, lambda i, d: d.revision.z != s.current.some.z, 'rsi'))
    snapb = lambda s, fs: con(fs, g.pub(s.snapshot.some.rel_path.z))
    def ry_req(x):
        yield 'only current is a link', ('C09',), g.links(x.w('haslink'))
        s = x.of(RS); fs = x.w('fs')
        yield 'configuration', (), cfgreq(x)
        yield 'the new content was applied', ('C09', 'C07', 'C08'), x.w('applied')
        yield 'its snapshot is there', ('C09',), g.filesheld(s, fs)
        yield 'state', (), g.scfg(s)
        yield from fsreq(x)
    def ry_ens(x):
        s = x.of(RS); f1, f2 = x.w('fs'), x.w2('fs'); ok = z3.And(isok(x), s.snapshot.is_('Some')); r = s.snapshot.some
        yield 'changes in the rsync directory and its state file only', ('C06', 'C12', 'C03'), frame(g, f1, f2, g.yd, eq=[g.rsyncfile, g.rsynctmp])
        yield 'public notification', ('C03',), z3.And(g.pubinv(f2), sel(f1, g.NP) == sel(f2, g.NP))
        yield 'only current is a link', ('C09',), g.links(x.w2('haslink'))
        yield 'current is a complete tree of what is published', ('C09',), z3.Implies(ok, switched(x.w2, r, snapb(s, f1)))
        yield 'objects have the times they determine', ('C18',), z3.Implies(z3.And(ok, z3.Not(g.moves)), tree(f2, revdir(r), snapb(s, f1), None, x.w2))
        s1, s2 = rstate(f1), rstate(f2); had = isf(f1, g.rsyncfile); j = z3.Int('rj')
        yield 'the record names the current tree', ('C12', 'C10', 'C09'), z3.Implies(ok, z3.And(isf(f2, g.rsyncfile), s2.current.is_('Some'), s2.current.some.session_id.z == r.session_id.z, s2.current.some.serial.z == r.serial.z))
        isr = lambda q: z3.And(q.session_id.z == r.session_id.z, q.serial.z == r.serial.z)
        kept = lambda z: z3.Exists([j], z3.And(0 <= j, j < s2.old.len, s2.old.at(j).z == z))
        yield 'replaced trees stay on record until they are removed', ('C10',), z3.Implies(z3.And(ok, had), olds(s1, lambda i, d: z3.Or(isr(d.revision), kept(d.z), due(d, x.w2('now'))), 'ri'))
        yield 'the tree which was current is on record', ('C10',), z3.Implies(z3.And(ok, had, s1.current.is_('Some'), z3.Not(isr(s1.current.some)), clamp(x.w2('now') - g.cleanup) < x.w('now')),
            z3.Exists([j], z3.And(0 <= j, j < s2.old.len, s2.old.at(j).revision.z == s1.current.some.z, since(s2.old.at(j)) >= x.w('now'))))
        yield 'only replaced trees are on record', ('C10',), z3.Implies(ok, olds(s2, lambda i, d: z3.And(had, z3.Or(has(s1, d.z), z3.And(s1.current.is_('Some'), d.revision.z == s1.current.some.z, since(d) >= x.w('now')))), 'rk'))
        yield 'the current tree is not among the replaced ones', ('C10',), z3.Implies(ok, rsaved(f2))
        yield 'the record is complete, old or new', ('C12',), z3.Or(sel(f2, g.rsyncfile) == sel(f1, g.rsyncfile), isf(f2, g.rsyncfile))
    def ry_guard(e, st, kind, kw):
        if kind not in ('write', 'rename', 'remove', 'rmtree', 'symlink', 'rmdir', 'mkdir'): return
        x = e.rootctx; s = x.of(RS); f0, fs = x.w('fs'), st.cells['w.fs']; p = kw['path']; r = s.snapshot.some; b = snapb(s, f0)
        done = tree(fs, revdir(r), b)
        if kind == 'rename':
            src = kw['src']; hl, l = sel(st.cells['w.haslink'], src), sel(st.cells['w.link'], src)
            yield 'current is switched to the complete new tree', ('C09',), z3.Implies(p == g.cur, z3.And(s.snapshot.is_('Some'), done, z3.Or(z3.And(z3.Not(g.moves), hl, l == K.path_of(g.revname(r))), z3.And(g.moves, src == revdir(r)))))
            yield 'the previous tree is moved away once the new one is complete', ('C09',), z3.Implies(z3.Or(src == g.cur, K.under(src, g.cur)), z3.And(src == g.cur, g.moves, done))
            yield 'not into the tree in use', ('C09',), z3.Not(K.under(p, g.cur))
        elif kind != 'mkdir':
            yield 'the tree in use is left alone', ('C09',), z3.And(p != g.cur, z3.Not(K.under(p, g.cur)), p != g.yd)
    def ry_lemma(e, st, kind, kw):
        if kind != 'rename': return
        x = e.rootctx; s = x.of(RS); b = snapb(s, x.w('fs'))
        yield 'the new tree is in place', ('C09',), z3.Implies(z3.And(s.snapshot.is_('Some'), kw['path'] == g.cur, g.moves), tree(st.cells['w.fs'], g.cur, b))
    S.add('rsync::update_from_rrdp_state', [RS, CFG], ry_req, ry_ens, mods=('fs', 'ex', 'now', 'rsynced', 'link', 'haslink', 'mt', 'hasmt'), ghost=lambda x: {'rsynced': z3.Or(x.w('rsynced'), isok(x))}, frameskip=('rsynced',), guards=[ry_guard], lemmas=[ry_lemma], midway=True)
    return S
