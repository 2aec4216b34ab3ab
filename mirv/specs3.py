"""Contracts of the persisted state, of validation as a step of a run, of the rsync step, and of the run as a whole."""
import z3
from .values import *
from .engine import *
from .models import sel, qv
from .specs import *
from .specs2 import YS

VP = 'std::vec::Vec<std::path::PathBuf>'
REP = 'validation::report::ValidationReport'
def build(e, S):
    g = e.G; K = g.K; R = g.R; T = e.T
    isf, con = g.isf, g.con
    Z = z3.IntVal(0)
    fsreq = lambda x: [('public notification describes files which are there', ('C03',), g.pubinv(x.w('fs')))]
    js = lambda v, ty: K.bytes_of(e.uf('json', [v], 'str'))
    jp = lambda b, ty: e.uf('json_parse', [b], ty)
    # what serde writes it reads back (trusted)
    for ty in (RS, YS):
        try: srt = T.sort(ty)
        except Exception: continue
        v = z3.Const('v', srt); j = e.uf('json', [v], 'str')
        e.axiom(z3.ForAll([v], jp(K.bytes_of(j), ty) == v, patterns=[j]), [j.decl().name()])
    state = lambda fs: V(e, jp(con(fs, g.statefile), RS), RS)
    g.state = state
    def stateinv(s, fs):
        return z3.And(g.scfg(s), g.order(s), g.filesheld(s, fs), g.depsgood(s), g.deps(s, lambda i, d: g.notcurrent(s, d.path.z), 'pk'))
    def saved(fs):
        """the state file, if any, holds a state a run can go on from"""
        return z3.Implies(isf(fs, g.statefile), stateinv(state(fs), fs))
    g.stateinv, g.saved = stateinv, saved
    def pubmatch(s, fs):
        """the public notification says what the state says"""
        n = g.published(fs); sn = s.snapshot; ln, arr = T.vec_ops(R.deltas(n)); i = z3.Int('wi'); d = s.deltas
        return z3.And(isf(fs, g.NP), e.uf('nf_parse_ok', [con(fs, g.NP)], 'bool'), sn.is_('Some'), R.session(n) == sn.some.session_id.z, R.serial(n) == sn.some.serial.z,
            R.uh_hash(R.snapshot(n)) == sn.some.hash.z, g.rel(R.uh_uri(R.snapshot(n))) == sn.some.rel_path.z,
            ln == d.len, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.And(
                R.d_serial(sel(arr, i)) == d.at(i).serial.z, R.d_hash(sel(arr, i)) == d.at(i).hash.z, g.rel(R.d_uri(sel(arr, i))) == d.at(i).rel_path.z)), patterns=[sel(arr, i)]))
    g.pubmatch = pubmatch

    # ---- persisted state
    def pe_req(x):
        s, p = x.of(RS), x.of('Path').z; fs = x.w('fs')
        yield 'to the state file', ('C12', 'C06', 'C19'), p == g.statefile
        yield 'what is saved is what is published', ('C12',), pubmatch(s, fs)
        yield 'what is saved can be worked with', ('C12',), stateinv(s, fs)
        yield from fsreq(x)
    def pe_ens(x):
        s, p = x.of(RS), x.of('Path').z; f1, f2 = x.w('fs'), x.w2('fs')
        yield 'saved', ('C12',), z3.Implies(isok(x), sel(f2, p) == K.Node.file(js(s.z, RS)))
        yield 'loading it gives the same state', ('C12',), z3.Implies(isok(x), z3.And(isf(f2, p), jp(con(f2, p), RS) == s.z))
        yield 'old content otherwise', ('C12', 'C07'), z3.Implies(z3.Not(isok(x)), sel(f2, p) == sel(f1, p))
        yield 'nothing else changes', ('C06', 'C07', 'C03'), frame(g, f1, f2, eq=[g.statefile, g.statetmp])
        yield 'public notification', ('C03',), g.pubinv(f2)
    S.add('rrdp::RrdpState::persist', [RS, 'Path'], pe_req, pe_ens, mods=('fs', 'ex'))
    def rc_ens(x):
        p = x.of('Path').z; fs = x.w('fs')
        yield 'state as saved', ('C12', 'C01'), z3.Implies(isok(x), z3.And(isf(fs, p), x.ret.ok.z == jp(con(fs, p), RS)))
    S.add('rrdp::RrdpState::recover', ['Path'], None, rc_ens)
    def cr_ens(x):
        s = x.ret.ok; ok = isok(x)
        yield 'empty state for the configured source', ('C01', 'C04', 'C12', 'C19'), z3.Implies(ok, z3.And(g.scfg(s), s.snapshot.is_('None'), s.deltas.len == 0, s.deprecated_files.len == 0))
    def cr_req(x):
        yield 'configuration', (), cfgreq(x)
    S.add('rrdp::RrdpState::create', [CFG], cr_req, cr_ens)

    # ---- trust anchors
    X = e.X; TAL = 'validation::tal::Tal'; WH = 'rpki::repository::x509::Time'; FSO = 'std::option::Option<fetch::FetchSource>'
    VU = 'std::vec::Vec<rpki::repository::tal::TalUri>'
    def tp_ens(x):
        t = x.ret.ok; ok = isok(x); b = x.of('Bytes').z; so = x.of(FSO)
        real = e.uf('tal_read', [b], 'rpki::repository::Tal')
        us = V(e, e.uf('tal_uris', [real], VU), VU); i, j = z3.Ints('ti tj')
        yield 'a TAL which parses', ('C14',), z3.Implies(ok, e.uf('tal_read_ok', [b], 'bool'))
        yield 'its key', ('C14',), z3.Implies(ok, t.public_key.z == e.uf('rpki::repository::Tal::key_info', [real], 'rpki::crypto::PublicKey'))
        yield 'fetched from the given place', ('C14',), z3.Implies(z3.And(ok, so.is_('Some')), t.source.z == so.some.z)
        u = us.at(i); v = us.at(j)
        yield 'fetched from its first HTTPS URI', ('C14',), z3.Implies(z3.And(ok, so.is_('None')), z3.And(t.source.is_('Uri'), z3.Exists([i], z3.And(0 <= i, i < us.len, u.is_('Https'), u.pay('Https', 0).z == t.source.pay('Uri', 0).z,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(v.is_('Https'))), patterns=[v.z])))))
    def tp_inv(lc):
        OH = 'std::option::Option<rpki::uri::Https>'
        for c, v, o in lc.iters:
            it = lc.flat(v)
            if it.seq is None or it.seq.sort() != T.sort(VU): continue
            us = V(e, it.seq, VU); i, j = z3.Ints('ti tj'); u = us.at(i); w = us.at(j)
            none = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.idx), z3.Not(w.is_('Https'))), patterns=[w.z])
            for kk, c2, v2, o2 in lc.locals_of(lambda v, o: (isinstance(v, z3.ExprRef) and v.sort() == T.sort(OH)) or (isinstance(v, Agg) and T.strip(v.ty) == OH)):
                a = V(e, v2, OH)
                yield f'none so far {kk}', z3.Implies(a.is_('None'), none)
                if isinstance(v2, Agg) and v2.v == 0:
                    yield f'first one {kk}', z3.BoolVal(True); continue
                yield f'first one {kk}', z3.Implies(a.is_('Some'), z3.Exists([i], z3.And(0 <= i, i < it.idx, u.is_('Https'), u.pay('Https', 0).z == a.some.z,
                    z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(w.is_('Https'))), patterns=[w.z])), patterns=[u.z]))
    S.add('validation::tal::Tal::parse', ['Str', 'Bytes', FSO], None, tp_ens, invs=[('', tp_inv)])
    def anchored(rc, tal, when): return z3.And(X.isanchor(rc, when), X.key(X.cert(rc)) == tal.public_key.z)
    def tv_ens(x):
        t, when = x.of(TAL), x.of(WH).z; rc = x.ret.ok.z
        yield 'valid as a self-signed trust anchor at the time of validation', ('C14', 'C15'), z3.Implies(isok(x), X.isanchor(rc, when))
        yield 'has the key of the TAL', ('C14',), z3.Implies(isok(x), X.key(X.cert(rc)) == t.public_key.z)
        if not x.proving: yield 'may be used to validate', (), z3.Implies(isok(x), X.good(rc, when))
    def tv_guard(e, st, kind, kw):
        if kind == 'fetch': yield 'fetched from the place of the TAL', ('C14',), kw['src'].z == e.rootctx.of(TAL).source.z
    S.add('validation::tal::Tal::validate_at', [TAL, WH], fsreq, tv_ens, guards=[tv_guard])

    # ---- validation as a step of a run
    g.tals = z3.Const('g_tals', T.sort(VP))
    tals = V(e, g.tals, VP)
    e.axiom(tals.len >= 0, ['g_tals'])
    VAL = 'validation::validator::Validator'
    def sameother(s, s2, *skip):
        return z3.And(*[getattr(s, f).z == getattr(s2, f).z for f in ('notification_source', 'mappings', 'snapshot', 'deltas', 'deprecated_files', 'validator') if f not in skip])
    def va_ens(x):
        yield 'report', (), z3.BoolVal(True)
    if 'rep' in e.world:
        S.add('validation::validator::Validator::validate', None, None, va_ens, mods=('now', 'didval', 'rep'), trusted='reported as by the checks of C15 to C17; fetches only',
            ghost=lambda x: {'didval': z3.Or(x.w('didval'), isok(x)), 'rep': z3.If(isok(x), x.ret.ok.z, x.w('rep'))})
        S.add('validation::validator::Validator::initialise_staging_data', None, None, va_ens, mods=('now',), trusted='reads the staging area only')
    def pv_req(x):
        yield 'configuration', (), z3.And(cfgreq(x), x.of(CFG).tal_files.z == g.tals)
        yield 'validated before anything is published', ('C08', 'C07'), z3.Not(x.w('applied'))
    def issues(rep):
        """(the repository was seen, it has no issues)"""
        m = V(e, rep, REP).rrdp_repositories
        return m
    def pv_ens(x):
        i = x.ix(RS); s, s2 = x.a(i), x.a2(i); ok = isok(x); did = x.w2('didval')
        yield 'nothing but the validator data changes', ('C12', 'C08', 'C04', 'C05'), sameother(s, s2, 'validator')
        yield 'no validator without TALs', ('C08', 'C12'), z3.Implies(z3.And(ok, tals.len == 0), s2.validator.is_('None'))
        if x.proving:
            m = V(e, x.w2('rep'), REP).rrdp_repositories
            key = us_of(m, g.nuri)
            seen = m.has(key); clean = m.get(key).issues.len == 0
            yield 'validated if TALs are configured', ('C08',), z3.Implies(z3.And(ok, tals.len > 0), did)
            yield 'passes only if the repository was seen', ('C08',), z3.Implies(z3.And(ok, tals.len > 0, g.reject), seen)
            yield 'passes only if the repository has no issues', ('C08',), z3.Implies(z3.And(ok, tals.len > 0, g.reject), clean)
            yield 'issues do not prevent publication unless rejected', ('C08',), z3.Implies(z3.And(did, z3.Not(g.reject)), ok)
            yield 'without issues publication is not prevented', ('C08',), z3.Implies(z3.And(did, seen, clean), ok)
        else:
            yield 'validated if TALs are configured', ('C08',), z3.Implies(z3.And(ok, tals.len > 0), did)
    def us_of(m, uri):
        ks = m.z.sort().accessor(0, 0).range().domain()
        return ks.constructor(0)(g.uristr(uri))
    g.us_of = us_of
    S.add('rrdp::RrdpState::pre_validate', ['&mut ' + RS, CFG], pv_req, pv_ens, mods=('now', 'didval', 'rep', 'valok') , ghost=lambda x: {'valok': isok(x)}, frameskip=('valok',))

    # ---- a run
    def runreq(x):
        fs = x.w('fs')
        yield 'persisted state', ('C12',), saved(fs)
        if hasattr(g, 'links'): yield 'only current is a link', ('C09',), g.links(x.w('haslink'))
        yield from fsreq(x)
    g.runreq = runreq
    def pr_req(x):
        yield 'configuration', (), z3.And(cfgreq(x), x.of(CFG).tal_files.z == g.tals)
        yield 'the lock is held', ('C11',), x.w('locked')
        yield from runreq(x)
    def pr_ens(x):
        f1, f2 = x.w('fs'), x.w2('fs'); ok = isok(x); st = x.w2('staged'); ap = x.w2('applied')
        yield 'nothing public changes unless new content was applied', ('C07', 'C01'), z3.Implies(z3.Not(ap), frame(g, f1, f2, g.staging()))
        yield 'success means everything was done', ('C07', 'C12', 'C09'), z3.Implies(z3.And(ok, st), z3.And(ap, z3.Or(g.rsyncoff, x.w2('rsynced')), isf(f2, g.statefile), pubmatch(state(f2), f2)))
        yield 'no change means nothing was done', ('C01', 'C07'), z3.Implies(z3.And(ok, z3.Not(st)), z3.Not(ap))
        yield 'the state file can be worked with', ('C12',), saved(f2)
        yield 'state and publication still agree', ('C12',), z3.Implies(z3.And(ok, isf(f1, g.statefile), pubmatch(state(f1), f1)), z3.And(isf(f2, g.statefile), pubmatch(state(f2), f2)))
        n = x.w2('off')
        s1 = state(f1).snapshot; s2 = state(f2)
        same = z3.And(isf(f1, g.statefile), s1.is_('Some'), s1.some.session_id.z == R.session(n))
        yield 'published is what the source had', ('C01', 'C04', 'C12'), z3.Implies(z3.And(ok, st), z3.And(x.w2('hasoff'), s2.snapshot.some.session_id.z == R.session(n), s2.snapshot.some.serial.z == R.serial(n)))
        yield 'applied only if the source moved forward', ('C01',), z3.Implies(ap, z3.And(x.w2('hasoff'), z3.Or(z3.Not(same), R.serial(n) > s1.some.serial.z)))
        yield 'public notification describes files which are there', ('C03',), g.pubinv(f2)
        if hasattr(g, 'switched'):
            yield 'only current is a link', ('C09',), g.links(x.w2('haslink'))
            sn = s2.snapshot.some
            yield 'current is a complete tree of what was published', ('C09',), z3.Implies(z3.And(ok, st, z3.Not(g.rsyncoff)), g.switched(x.w2, sn, con(f2, g.pub(sn.rel_path.z))))
            yield 'rsync is left alone otherwise', ('C07', 'C09'), z3.Implies(z3.Or(g.rsyncoff, z3.Not(ap)), z3.And(frame(g, f1, f2, g.staging(), g.rd, eq=[g.statefile, g.statetmp]), sel(x.w2('haslink'), g.cur) == sel(x.w('haslink'), g.cur)))
    def pr_guard(e, st, kind, kw):
        w = lambda n: st.cells['w.' + n]
        if kind == 'spawn':
            yield 'scripts run on the fetched content, before it is published', ('C08',), z3.And(w('staged'), z3.Not(w('applied')))
    def pr_inv(lc):
        for c, v, o in lc.iters:
            it = lc.flat(v)
            if it.seq is None or it.seq.sort() != T.sort(VP): continue
            d = V(e, it.seq, VP); k = z3.Int('mi')
            yield 'scripts run so far', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it.idx), sel(lc.w('ran'), d.at(k).z)), patterns=[d.at(k).z])
            for kk, c2, v2, o2 in lc.locals_of(lambda v, o: isinstance(v, z3.BoolRef)):
                yield f'result of the scripts {kk}', v2 == lc.w('bad')
                yield f'failure is remembered {kk}', z3.Implies(lc.w('bad'), v2)
                yield f'success is remembered {kk}', z3.Implies(lc.w('bad'), z3.Not(v2))
    S.add('process::process', [CFG], pr_req, pr_ens, mods=('fs', 'ex', 'now', 'slept', 'hasoff', 'off', 'srt', 'hassrt', 'staged', 'valok', 'applied', 'rsynced', 'ran', 'bad', 'didval', 'repok', 'rep', 'link', 'haslink', 'mt', 'hasmt'), invs=[('', pr_inv)], guards=[pr_guard])
    return S
