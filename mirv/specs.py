"""The contracts: what each function under contract must do, written against MIR signatures."""
import z3
from .values import *
from .engine import *
from .models import sel, qv

N = 'rpki::rrdp::NotificationFile'
I = z3.IntSort(); B = z3.BoolSort()

class G:
    """constants of a run and the vocabulary of the contracts"""
    def __init__(s, e):
        s.e, s.K, s.R, T = e, e.K, e.R, e.T
        K = s.K
        s.sd, s.rd, s.yd = (z3.Const('g_' + n, K.Path) for n in ('state_dir', 'rrdp_dir', 'rsync_dir'))
        s.name = z3.Const('g_name', K.Str)
        s.Https = T.sort('rpki::uri::Https')
        s.base, s.nuri = z3.Const('g_base', s.Https), z3.Const('g_nuri', s.Https)
        s.Hash = T.sort('rpki::rrdp::Hash')
        s.srch = z3.Function('listed_hash', K.Str, s.Hash)
        s.NP = K.join(s.rd, s.name)
        s.tmpname = K.cat(s.name, e.lit('.tmp'))
        s.uristr = lambda u: e.uf('uristr', [u], 'str')
        s.within = lambda p, d: z3.Or(p == d, K.under(p, d))
        e.G = s
        s.Nsort = T.sort(N)
        # every name is fixed by the configuration
        pre = [K.relok(s.name), z3.Not(e.uf('hasslash', [s.name], 'bool')), K.relok(s.tmpname), s.tmpname != s.name,
               s.uristr(s.nuri) == K.cat(s.uristr(s.base), s.name), e.uf('https_hasparent', [s.nuri], 'bool'),
               e.uf('https_parent', [s.nuri], 'rpki::uri::Https') == s.base, e.uf('https_isdir', [s.base], 'bool')]
        s.facts = pre
        s.delay, s.cleanup = z3.Ints('g_delay g_cleanup')
        s.limit = z3.Const('g_limit', T.sort('std::option::Option<usize>'))
        s.scripts = z3.Const('g_scripts', T.sort('std::vec::Vec<std::path::PathBuf>'))
        s.reject, s.rsyncoff = z3.Bools('g_reject g_rsync_disabled')
        s.host, s.moves = z3.Bools('g_rsync_include_host g_rsync_force_moves')
    # paths computed by the code itself from the configuration
    def cfgpath(s, fn, c, *more):
        """value of a path getter of Config on this configuration"""
        e = s.e
        ids = e.bypath.get('config::Config::' + fn)
        if not ids: raise LostAnchor('config::Config::' + fn)
        st = St(); q = e.quiet; e.quiet += 1
        try: rs = e.run_fn(ids[0], st, [c] + list(more))
        finally: e.quiet = q
        if len(rs) != 1: raise Unsupported(fn)
        return e.z(rs[0][1])
    def staging(s):
        # staging area: child of the state directory, the same term as in the code
        if not hasattr(s, '_stg'): s._stg = s.K.join(s.sd, s.e.lit('pre-validate-staging'))
        return s._stg
    def stg(s, rel): return s.K.join(s.staging(), rel)
    def pub(s, rel): return s.K.join(s.rd, rel)
    def rel(s, uri): return s.K.suffix(s.uristr(s.base), s.uristr(uri))
    def isf(s, fs, p): return s.K.isfile(sel(fs, p))
    def con(s, fs, p): return s.K.content(sel(fs, p))
    def relgood(s, r): return z3.And(s.K.relok(r), r != s.name, r != s.tmpname)
    def at(s, fs, p, r):
        """the file at p has the content the source lists for r"""
        return z3.And(s.isf(fs, p), s.R.matches(s.srch(r), s.con(fs, p)))
    def held(s, fs, h, r): return z3.And(s.relgood(r), h == s.srch(r), s.at(fs, s.pub(r), r))
    def refok(s, n, uh):
        """a reference of a notification: below the base, listed hash"""
        u = s.R.uh_uri(uh); r = s.rel(u)
        return z3.And(s.K.isprefix(s.uristr(s.base), s.uristr(u)), s.R.uh_hash(uh) == s.srch(r))
    def refs(s, n):
        """[(guard, index var or None, rel)] of a notification"""
        d = s.R.deltas(n); ln, arr = s.e.T.vec_ops(d)
        return s.R.snapshot(n), ln, arr
    def allrefs(s, n, f):
        """f(rel, hash) for every reference of n"""
        sn, ln, arr = s.refs(n)
        i = z3.Int('ri')
        x = sel(arr, i)
        return z3.And(f(s.rel(s.R.uh_uri(sn)), s.R.uh_hash(sn)),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), f(s.rel(s.R.d_uri(x)), s.R.d_hash(x))), patterns=[x]))
    def published(s, fs): return s.R.parsed(s.con(fs, s.NP))
    def heldall(s, fs, n):
        return s.allrefs(n, lambda r, h: s.held(fs, h, r))
    def pubinv(s, fs):
        """the public notification, if any, describes files which are there"""
        return z3.Implies(s.isf(fs, s.NP), s.heldall(fs, s.published(fs)))
    def notref(s, fs, p):
        """p is not the public notification nor a file it refers to"""
        return z3.And(p != s.NP, z3.Implies(s.isf(fs, s.NP), s.allrefs(s.published(fs), lambda r, h: p != s.pub(r))))
    def srcok(s, n):
        """one listed hash per URI"""
        return s.allrefs(n, lambda r, h: h == s.srch(r))
    # ---- state
    def scfg(s, S):
        return z3.And(S.mappings.rrdp_dir.z == s.rd, S.mappings.base_uri.z == s.base, S.notification_source.name.z == s.name, S.notification_source.uri.z == s.nuri)
    def deltas(s, S, f, nm='di'):
        d = S.deltas; i = z3.Int(nm); x = d.at(i)
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), f(i, x)), patterns=[x.z])
    def deps(s, S, f, nm='pi'):
        d = S.deprecated_files; i = z3.Int(nm); x = d.at(i)
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), f(i, x)), patterns=[x.z])
    def filesheld(s, S, fs):
        sn = S.snapshot
        return z3.And(z3.Implies(sn.is_('Some'), s.held(fs, sn.some.hash.z, sn.some.rel_path.z)),
                      s.deltas(S, lambda i, d: s.held(fs, d.hash.z, d.rel_path.z)))
    def order(s, S):
        d = S.deltas
        sn = S.snapshot
        return z3.And(s.deltas(S, lambda i, x: z3.And(x.serial.z == d.at(z3.IntVal(0)).serial.z - i, x.serial.z >= 0)), d.len >= 0,
                      z3.Implies(z3.Not(sn.is_('Some')), d.len == 0), z3.Implies(z3.And(sn.is_('Some'), d.len > 0), d.at(z3.IntVal(0)).serial.z <= sn.some.serial.z))
    def deprel(s, p): return s.K.unjoin(p, s.rd)
    def depsok(s, S, fs):
        return z3.And(s.depsgood(S), s.deps(S, lambda i, d: s.notref(fs, d.path.z), 'pj'), s.deps(S, lambda i, d: s.notcurrent(S, d.path.z), 'pk'))
    def depsgood(s, S):
        return s.deps(S, lambda i, d: z3.And(d.path.z == s.pub(s.deprel(d.path.z)), s.relgood(s.deprel(d.path.z))))
    def current(s, S, p):
        """p is the path of a current file"""
        sn = S.snapshot; d = S.deltas; i = z3.Int('ci')
        return z3.Or(z3.And(sn.is_('Some'), p == s.pub(sn.some.rel_path.z)), z3.Exists([i], z3.And(0 <= i, i < d.len, p == s.pub(d.at(i).rel_path.z))))
    def notcurrent(s, S, p):
        sn = S.snapshot
        return z3.And(z3.Implies(sn.is_('Some'), p != s.pub(sn.some.rel_path.z)), s.deltas(S, lambda i, d: p != s.pub(d.rel_path.z)))

SOURCE_ROOTS = {'fetch::Fetcher::read_notification_file', 'rrdp::RrdpState::update_staged', 'process::process'}
def srcassume(g, n):
    """assumptions on what a source serves: one content per URI, and a delta for its own serial if it lists any"""
    R = g.R; ln, arr = g.e.T.vec_ops(R.deltas(n)); i = z3.Int('si'); x = sel(arr, i)
    w = z3.Function('owndelta', g.Nsort, I)(n)
    return [g.srcok(n), z3.Implies(ln > 0, z3.And(0 <= w, w < ln, R.d_serial(sel(arr, w)) == R.serial(n))),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.And(R.d_serial(x) <= R.serial(n), R.d_serial(x) >= 0)), patterns=[x])]
def install(e):
    g = G(e); K = e.K
    A = e.axiom
    a, b = z3.Consts('a b', K.Str); p, q, r = z3.Consts('p q r', K.Path)
    # the three trees are disjoint (assumption on the configuration)
    stg = g.staging()
    for x, y, nx, ny in ((stg, g.rd, 'g_state_dir', 'g_rrdp_dir'), (stg, g.yd, 'g_state_dir', 'g_rsync_dir'), (g.rd, g.yd, 'g_rrdp_dir', 'g_rsync_dir')):
        A(z3.And(z3.Not(K.under(x, y)), z3.Not(K.under(y, x)), x != y), [nx, ny])
        A(z3.ForAll([p], z3.Not(z3.And(g.within(p, x), g.within(p, y))), patterns=[z3.MultiPattern(K.under(p, x), K.under(p, y))]), [nx, ny, 'under'])
    # state files and their temporaries lie directly in the state directory, in none of the trees
    lv = V(e, g.limit, 'std::option::Option<usize>'); A(z3.Implies(lv.is_('Some'), lv.some.z >= 0), ['g_limit'])
    A(z3.And(g.delay >= 0, g.cleanup >= 0), ['g_delay', 'g_cleanup']); A(g.delay >= 0, ['g_delay']); A(g.cleanup >= 0, ['g_cleanup'])
    for f in g.facts: A(f, sorted(e.symbols(f) & {'g_name', 'g_base', 'g_nuri'}))
    hs = e.uf('hasslash', [a], 'bool')
    # text facts of plain relative names
    dot = e.lit('.tmp')
    # relok is what splitting shows
    sp = e.T.uf('split', [K.Str, I], e.T.sort('std::vec::Vec<&str>'))
    ln, arr = e.T.vec_ops(sp(a, z3.IntVal(47)))
    bad = z3.Function('badcomp', K.Str, I)
    x = sel(arr, bad(a))
    A(z3.ForAll([a], z3.Or(K.relok(a), z3.And(0 <= bad(a), bad(a) < ln, z3.Or(*[x == e.lit(t) for t in ('', '.', '..')]))), patterns=[sp(a, z3.IntVal(47))]), [sp.name()])
    i = z3.Int('i')
    A(z3.ForAll([a, i], z3.Implies(z3.And(K.relok(a), 0 <= i, i < ln), z3.And(*[sel(arr, i) != e.lit(t) for t in ('', '.', '..')])), patterns=[z3.MultiPattern(K.relok(a), sel(arr, i))]), [sp.name(), 'relok'])
    lf = z3.Function('unlisted', g.Hash, K.Bytes)
    e.litfacts.append(lambda e, lits, have: [K.relok(v) if all(c not in ('', '.', '..') for c in t.split('/')) else z3.Not(K.relok(v)) for t, v in lits] if 'relok' in have else [])
    # ghost state: what the source listed, and how far a run has come
    for n, srt in (('hasoff', B), ('off', g.Nsort), ('srt', g.Nsort), ('hassrt', B), ('staged', B), ('valok', B), ('applied', B), ('rsynced', B), ('ran', K.EX), ('bad', B), ('didval', B), ('repok', B)):
        e.world[n] = (lambda n, srt: lambda e: z3.Const('w_' + n, srt))(n, srt)
    try:
        rep = e.T.sort('validation::report::ValidationReport')
        e.world['rep'] = lambda e: z3.Const('w_rep', rep)
    except Exception: pass
    pp = z3.Const('p', K.Path)
    e.ghostinit = lambda st: [z3.Not(st.cells['w.' + n]) for n in ('hasoff', 'hassrt', 'staged', 'valok', 'applied', 'rsynced', 'bad', 'didval', 'repok')] + [z3.ForAll([pp], z3.Not(sel(st.cells['w.ran'], pp)), patterns=[sel(st.cells['w.ran'], pp)])]
    def hook(c, st, kind, kw):
        if kind == 'parsed' and e.root in SOURCE_ROOTS:
            n = kw['n']
            c.e.setw(st, 'hasoff', TRUE); c.e.setw(st, 'off', n)
            st.assume(*srcassume(g, n))
        elif kind == 'sorted':
            c.e.setw(st, 'srt', kw['n']); c.e.setw(st, 'hassrt', TRUE)
        elif kind == 'spawned':
            ran = st.cells['w.ran']
            c.e.setw(st, 'ran', z3.Store(ran, kw['path'], TRUE))
            o = V(e, kw['out'], 'std::process::Output')
            okv = e.uf('exit_success', [o.status.z], 'bool')
            c.e.setw(st, 'bad', z3.Or(st.cells['w.bad'], z3.Not(okv)))
        elif kind == 'spawnfail':
            c.e.setw(st, 'bad', TRUE)
    e.hooks.append(hook)
    g.statefile = K.join(g.sd, e.lit('rrdp-state.json')); g.statetmp = K.join(g.sd, e.lit('rrdp-state.tmp'))
    g.rsyncfile = K.join(g.sd, e.lit('rsync-state.json')); g.rsynctmp = K.join(g.sd, e.lit('rsync-state.tmp'))
    # state files lie in none of the trees (follows from these being disjoint)
    g.lockfile = K.join(g.sd, e.lit('krill-sync.lock'))
    for f in (g.statefile, g.statetmp, g.rsyncfile, g.rsynctmp, g.lockfile):
        for d, n in ((g.rd, 'g_rrdp_dir'), (g.yd, 'g_rsync_dir'), (g.staging(), 'pjoin')):
            A(z3.Not(g.within(f, d)), ['g_state_dir', n])
    d = z3.Const('d', K.Path)
    def ext(e, lits, have):
        out = []
        if 'withext' not in have: return out
        nm = dict(lits)
        for t, v in lits:
            if '/' in t or t in ('', '.', '..', 'tmp', 'old') or t.startswith('.'): continue
            for x in ('tmp', 'old'):
                if x in nm:
                    r = e.lit((t.rsplit('.', 1)[0] if '.' in t else t) + '.' + x)
                    out.append(z3.ForAll([d], K.withext(K.pjoin(d, K.path_of(v)), nm[x]) == K.pjoin(d, K.path_of(r)), patterns=[K.withext(K.pjoin(d, K.path_of(v)), nm[x])]))
        return out
    e.litfacts.append(ext)
    for t_ in ('tmp', 'old'): e.lit(t_)
    return g

# ------------------------------------------------------------------ helpers
def frame(g, a, b, *dirs, nm='fp', eq=()):
    """fs unchanged outside the given directories and paths"""
    p = z3.Const(nm, g.K.Path)
    return z3.ForAll([p], z3.Implies(z3.And(*[z3.Not(g.K.under(p, d)) for d in dirs], *[p != q for q in eq]), sel(b, p) == sel(a, p)), patterns=[sel(b, p)])
CFG = 'config::Config'
def cfgreq(x):
    g = x.e.G
    c = x.of(CFG)
    return z3.And(c.state_dir.z == g.sd, c.rrdp_dir.z == g.rd, c.rsync_dir.z == g.yd, c.notification_uri.z == g.nuri, c.rrdp_notify_delay.z == g.delay, c.cleanup_after.z == g.cleanup,
                 c.rrdp_max_deltas.z == g.limit, c.pre_validation_scripts.z == g.scripts, c.tal_reject_invalid.z == g.reject, c.rsync_disable.z == g.rsyncoff, c.rsync_include_host.z == g.host, c.rsync_dir_force_moves.z == g.moves)
def isok(x): return x.ret.is_('Ok')
def isnew(g, S, reset, ser):
    d = S.deltas
    return z3.Or(reset, d.len == 0, d.at(z3.IntVal(0)).serial.z < ser)

# ------------------------------------------------------------------ guards
def guard_paths(e, st, kind, kw):
    g = e.G; K = g.K
    ins = lambda p: z3.Or(K.under(p, g.sd), K.under(p, g.rd), K.under(p, g.yd))
    p = kw.get('path')
    if kind in ('write', 'remove', 'rmtree', 'symlink', 'mtime', 'rename'):
        yield 'inside the configured directories', ('C06',), ins(p)
        if kind == 'rename': yield 'source inside the configured directories', ('C06',), ins(kw['src'])
    elif kind == 'mkdir':
        yield 'inside the configured directories', ('C06',), z3.Or(ins(p), p == g.sd, p == g.rd, p == g.yd)
def guard_public(e, st, kind, kw):
    """the public notification and what it refers to stay as they are, unless replaced properly"""
    g = e.G; K = g.K
    fs = st.cells['w.fs']; p = kw.get('path')
    if kind in ('write', 'remove'):
        yield 'neither the public notification nor a file it lists', ('C03',), g.notref(fs, p)
    elif kind == 'rename':
        s = kw['src']
        yield 'source is neither the public notification nor a file it lists', ('C03',), g.notref(fs, s)
        n = g.R.parsed(g.con(fs, s))
        yield 'public notification replaced by a complete one with all files in place', ('C03',), z3.Implies(p == g.NP, z3.And(g.isf(fs, s), g.e.uf('nf_parse_ok', [g.con(fs, s)], 'bool'), g.heldall(fs, n)))
        r = K.suffix(K.pathstr(g.rd), K.pathstr(p))
        yield 'listed file replaced by one with the same content hash only', ('C03',), z3.Implies(p != g.NP, z3.Or(g.notref(fs, p), z3.And(p == g.pub(K.unjoin(p, g.rd)), g.at(fs, s, K.unjoin(p, g.rd)))))
    elif kind in ('rmtree', 'symlink'):
        yield 'not the RRDP directory', ('C03',), z3.And(z3.Not(g.within(p, g.rd)), z3.Not(K.under(g.rd, p)))


# ------------------------------------------------------------------ loop invariants used everywhere
def inv_frame(lc):
    """the file system outside the usual places is as it was before the loop"""
    g = lc.e.G
    if not any(c == 'w.fs' for c, _ in lc.mods): return
    a, b = lc.w0('fs'), lc.w('fs')
    yield 'staging', frame(g, a, b, g.staging())
    yield 'staging and rrdp', frame(g, a, b, g.staging(), g.rd)
    yield 'rrdp', frame(g, a, b, g.rd)
    yield 'rsync', frame(g, a, b, g.yd)
    yield 'public notification', sel(a, g.NP) == sel(b, g.NP)
    yield 'listed files kept', keeps(g, a, b)
    for nm in ('staged', 'statefile'): pass
def inv_now(lc):
    if any(c == 'w.now' for c, _ in lc.mods): yield 'time', lc.w('now') >= lc.w0('now')

def keeps(g, a, b, nm='kp', dir=None):
    """files with the listed content keep it"""
    d = g.rd if dir is None else dir
    K = g.K; p = z3.Const(nm, K.Path); r = K.unjoin(p, d)
    return z3.ForAll([p], z3.Implies(z3.And(K.under(p, d), g.at(a, p, r)), g.at(b, p, r)), patterns=[sel(b, p)])
def mono(x): return x.w2('now') >= x.w('now')
def clamp(v): return z3.If(v > 2**63 - 1, 2**63 - 1, z3.If(v < -2**63, z3.IntVal(-2**63), v))

# ------------------------------------------------------------------ the contracts
RS, SC = 'rrdp::RrdpState', 'rrdp::StagedChanges'
class Specs:
    def __init__(s, e): s.e, s.g, s.all = e, e.G, {}
    def add(s, path, *a, **k):
        sp = Spec(path, *a, **k); s.all[path] = sp
        return sp

def build(e):
    S = Specs(e); g = e.G; K = g.K; R = g.R
    isf, con = g.isf, g.con
    fsreq = lambda x: [('public notification describes files which are there', ('C03',), g.pubinv(x.w('fs')))]

    # ---- writing a file
    def inside(p): return z3.Or(K.under(p, g.sd), K.under(p, g.rd), K.under(p, g.yd))
    def wb_req(x):
        p = x.a(0).z; q = K.parent(p)
        yield 'inside the configured directories', ('C06',), z3.And(inside(p), z3.Or(inside(q), q == g.sd, q == g.rd, q == g.yd))
        yield 'neither the public notification nor a file it lists', ('C03',), g.notref(x.w('fs'), p)
        yield from fsreq(x)
    def wb_ens(x):
        p, b = x.a(0).z, x.a(1).z; f1, f2 = x.w('fs'), x.w2('fs'); q = z3.Const('wq', K.Path)
        yield 'written', ('C02', 'C09', 'C12'), z3.Implies(isok(x), sel(f2, p) == K.Node.file(b))
        yield 'nothing else changes', ('C06', 'C07', 'C03'), frame(g, f1, f2, eq=[p])
        yield 'public notification', ('C03',), g.pubinv(f2)
        yield 'existence', (), z3.ForAll([q], z3.And(z3.Implies(z3.And(sel(x.w('ex'), q), q != p), sel(x.w2('ex'), q)), z3.Implies(sel(x.w2('ex'), q), z3.Or(sel(x.w('ex'), q), q == p, K.under(p, q)))), patterns=[sel(x.w2('ex'), q)])
    S.add('file_ops::write_buf', ['Path', 'Bytes'], wb_req, wb_ens, mods=('fs', 'ex'), event=lambda x: [('write', dict(path=x.a(0).z)), ('mkdir', dict(path=K.parent(x.a(0).z)))])

    # ---- move_file
    def mv(x):
        a, b, r = x.a(0).z, x.a(1).z, x.a(2).z
        return K.join(a, r), K.join(b, r), r
    def move_req(x):
        a, b, r = mv(x); fs = x.w('fs')
        yield 'from the staging area into the RRDP directory, to the place the name maps to', ('C06', 'C02'), z3.And(x.a(0).z == g.staging(), x.a(1).z == g.rd, g.relgood(r))
        yield 'the staged file has the listed content', ('C02', 'C03'), z3.Or(g.at(fs, a, r), z3.And(z3.Not(isf(fs, a)), z3.Not(sel(x.w('ex'), a))))
        yield from fsreq(x)
    def move_ens(x):
        a, b, r = mv(x); f1, f2 = x.w('fs'), x.w2('fs')
        p = z3.Const('mp', K.Path)
        yield 'moved', ('C02', 'C03'), z3.Implies(isok(x), z3.And(isf(f1, a), g.at(f2, b, r)))
        yield 'source is gone', (), z3.Implies(isok(x), z3.And(z3.Not(isf(f2, a)), z3.Not(sel(x.w2('ex'), a))))
        yield 'only the two files change', ('C06', 'C03'), frame(g, f1, f2, eq=[a, b])
        yield 'listed files keep their content', ('C03',), keeps(g, f1, f2)
        yield 'the staged file is still there otherwise', (), z3.Or(sel(f2, a) == sel(f1, a), z3.Not(isf(f2, a)))
        yield 'existence', (), z3.ForAll([p], z3.Implies(sel(x.w2('ex'), p), z3.Or(sel(x.w('ex'), p), p == b, K.under(b, p))), patterns=[sel(x.w2('ex'), p)])
        yield 'existence of the source', (), z3.Implies(z3.Not(isok(x)), z3.Or(sel(f2, a) == sel(f1, a), z3.And(z3.Not(isf(f2, a)), z3.Not(sel(x.w2('ex'), a)))))
    S.add('file_ops::move_file', ['Path', 'Path', 'Str'], move_req, move_ens, mods=('fs', 'ex'))

    # ---- write_notification
    def wn_req(x):
        s = x.of(RS); fs = x.w('fs')
        yield 'configured state', ('C06',), g.scfg(s)
        yield 'delta list in order', ('C04',), g.order(s)
        yield 'files are in place', ('C03', 'C02'), g.filesheld(s, fs)
        yield 'delay as configured', ('C03',), x.of('u64').z == g.delay
        yield from fsreq(x)
    def wn_ens(x):
        s = x.of(RS); f1, f2 = x.w('fs'), x.w2('fs'); n = g.published(f2)
        yield 'published notification is complete', ('C03', 'C12'), z3.Implies(isok(x), z3.And(isf(f2, g.NP), e.uf('nf_parse_ok', [con(f2, g.NP)], 'bool')))
        sn = s.snapshot
        yield 'session, serial and snapshot', ('C04', 'C12'), z3.Implies(isok(x), z3.And(sn.is_('Some'), R.session(n) == sn.some.session_id.z, R.serial(n) == sn.some.serial.z,
            R.uh_hash(R.snapshot(n)) == sn.some.hash.z, g.rel(R.uh_uri(R.snapshot(n))) == sn.some.rel_path.z))
        ln, arr = e.T.vec_ops(R.deltas(n)); i = z3.Int('wi'); d = s.deltas
        yield 'list of deltas', ('C04', 'C12'), z3.Implies(isok(x), z3.And(ln == d.len, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.And(
            R.d_serial(sel(arr, i)) == d.at(i).serial.z, R.d_hash(sel(arr, i)) == d.at(i).hash.z, g.rel(R.d_uri(sel(arr, i))) == d.at(i).rel_path.z)), patterns=[sel(arr, i)])))
        yield 'public notification describes files which are there', ('C03',), g.pubinv(f2)
        yield 'nothing else changes', ('C06', 'C07'), frame(g, f1, f2, eq=[g.NP, g.pub(g.tmpname)])
        yield 'unchanged unless successful', ('C03', 'C07'), z3.Implies(z3.Not(isok(x)), sel(f2, g.NP) == sel(f1, g.NP))
    def wn_guard(e, st, kind, kw):
        if kind == 'rename':
            yield 'notification replaced after the configured delay', ('C03',), z3.Implies(kw['path'] == g.NP, z3.Or(g.delay == 0, st.cells['w.slept'] >= g.delay))
    def wn_inv(lc):
        # deltas gathered so far
        its = [(lc.flat(v)) for c, v, o in lc.iters if lc.flat(v).seq is not None]
        for it in its:
            for k, c, v, o in lc.locals_of(lambda v, o: isinstance(v, z3.ExprRef) and v.sort() == e.T.sort('std::vec::Vec<rpki::rrdp::DeltaInfo>')):
                try: sq = V(e, it.seq, 'std::vec::Vec<rrdp::DeltaState>'); sq.at(z3.IntVal(0)).serial
                except (LostAnchor, Unsupported): continue
                ln, arr = e.T.vec_ops(v); i = z3.Int('gi')
                yield f'gathered {k}', z3.And(ln == it.idx, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.And(
                    R.d_serial(sel(arr, i)) == sq.at(i).serial.z, R.d_hash(sel(arr, i)) == sq.at(i).hash.z,
                    g.uristr(R.d_uri(sel(arr, i))) == K.cat(g.uristr(g.base), sq.at(i).rel_path.z))), patterns=[sel(arr, i)]))
    S.add('rrdp::RrdpState::write_notification', [RS, 'u64'], wn_req, wn_ens, mods=('fs', 'ex', 'slept', 'now'), invs=[('', wn_inv)], guards=[wn_guard])

    # ---- fetching
    FS, FR = 'fetch::FetchSource', 'fetch::Fetcher'
    def ismapped(F, uri, src):
        """src is where the mapping of fetcher F places uri"""
        m = F.fetch_map; mm = m.some; b = mm.base_fetch
        rel = K.suffix(g.uristr(mm.base_uri.z), g.uristr(uri))
        return z3.And(z3.Implies(m.is_('None'), z3.And(src.is_('Uri'), src.pay('Uri', 0).z == uri, src.pay('Uri', 1).z == F.mode.z)),
            z3.Implies(m.is_('Some'), z3.And(K.isprefix(g.uristr(mm.base_uri.z), g.uristr(uri)),
                z3.Implies(b.is_('File'), z3.And(src.is_('File'), src.pay('File', 0).z == K.join(b.pay('File', 0).z, rel))),
                z3.Implies(b.is_('Uri'), z3.And(src.is_('Uri'), src.pay('Uri', 1).z == b.pay('Uri', 1).z, z3.Implies(e.uf('https_isdir', [b.pay('Uri', 0).z], 'bool'), g.uristr(src.pay('Uri', 0).z) == K.cat(g.uristr(b.pay('Uri', 0).z), rel)))))))
    g.ismapped = ismapped
    def geturl(kw):
        u = kw['url']
        return u if u.sort() == K.Str else g.uristr(u)
    def fetch_guard(e, st, kind, kw):
        x = e.rootctx; src = x.a(0)
        if kind == 'get':
            yield 'request goes to the configured source', ('C13',), z3.And(src.is_('Uri'), geturl(kw) == g.uristr(src.pay('Uri', 0).z))
            yield 'certificate checks disabled in insecure mode only', ('C13',), z3.Implies(z3.Or(kw['insecure_certs'], kw['insecure_names']), src.pay('Uri', 1).is_('Insecure'))
            et = x.a(2)
            yield 'request is conditional on the given ETag only', ('C01', 'C13'), z3.BoolVal(kw['etag'] is None) if kw['etag'] is None else z3.And(et.is_('Some'), e.z(kw['etag'], 'std::string::String') == et.some.z)
        elif kind in ('write', 'remove', 'rename', 'rmtree', 'symlink'):
            yield 'writes the target file only', ('C06',), z3.And(x.a(3).is_('Some'), kw['path'] == x.a(3).some.z)
    def fetch_req(x):
        t = x.a(3)
        yield 'target lies in the staging area', ('C06', 'C07', 'C03'), z3.Implies(t.is_('Some'), K.under(t.some.z, g.staging()))
        yield from fsreq(x)
    def fetch_ens(x):
        src, h, t = x.a(0), x.a(1), x.a(3); f1, f2 = x.w('fs'), x.w2('fs')
        r = x.ret.ok; ok = isok(x)
        data = z3.And(ok, r.is_('Data'))
        b = r.pay('Data', 0).z
        yield 'data has the requested hash', ('C02', 'C16'), z3.Implies(z3.And(data, h.is_('Some')), R.matches(h.some.z, b))
        yield 'data is the content of the file', ('C13',), z3.Implies(z3.And(data, src.is_('File')), z3.And(isf(f1, src.pay('File', 0).z), b == con(f1, src.pay('File', 0).z)))
        yield 'saved file has the requested hash', ('C02',), z3.Implies(z3.And(ok, r.is_('Saved')), z3.And(t.is_('Some'), isf(f2, t.some.z), z3.Implies(h.is_('Some'), R.matches(h.some.z, con(f2, t.some.z)))))
        yield 'files are not conditional', ('C13', 'C01'), z3.Implies(z3.And(ok, r.is_('UnModified')), src.is_('Uri'))
        yield 'nothing but the target changes', ('C06', 'C07'), z3.If(t.is_('Some'), frame(g, f1, f2, eq=[t.some.z]), f1 == f2)
        yield 'nothing is created without a target', ('C06', 'C07'), z3.Implies(t.is_('None'), x.w2('ex') == x.w('ex'))
    S.add('fetch::FetchSource::fetch', [FS, 'std::option::Option<rpki::rrdp::Hash>', 'std::option::Option<Str>', 'std::option::Option<Path>'], fetch_req, fetch_ens, mods=('fs', 'ex'), guards=[fetch_guard],
          event=lambda x: ('fetch', dict(src=x.a(0), etag=x.a(2))))
    def fetcher_guard(uri):
        def f(e, st, kind, kw):
            x = e.rootctx; F = x.of(FR)
            u = uri(x)
            if kind == 'fetch': yield 'fetched from where the mapping places it', ('C13',), ismapped(F, u, kw['src'])
            elif kind == 'get':
                fm = F.fetch_map
                yield 'request goes to where the mapping places it', ('C13',), z3.If(fm.is_('None'), geturl(kw) == g.uristr(u), geturl(kw) == K.cat(g.uristr(fm.some.base_fetch.pay('Uri', 0).z), K.suffix(g.uristr(fm.some.base_uri.z), g.uristr(u))))
        return f
    def ret_req(x):
        yield 'target lies in the staging area', ('C06', 'C07', 'C03'), K.under(x.of('Path').z, g.staging())
        yield from fsreq(x)
    def ret_ens(x):
        t, h = x.of('Path').z, x.of('rpki::rrdp::Hash').z; f1, f2 = x.w('fs'), x.w2('fs')
        yield 'file has the listed hash', ('C02',), z3.Implies(isok(x), z3.And(isf(f2, t), R.matches(h, con(f2, t))))
        yield 'nothing but the target changes', ('C06', 'C07'), frame(g, f1, f2, eq=[t])
    S.add('fetch::Fetcher::retrieve_file', [FR, 'rpki::uri::Https', 'rpki::rrdp::Hash', 'Path'], ret_req, ret_ens, mods=('fs', 'ex'), guards=[fetcher_guard(lambda x: x.of('rpki::uri::Https').z)])
    def rnf_ens(x):
        r = x.ret.ok; n = r.pay('Data', 0).z
        data = z3.And(isok(x), r.is_('Data'))
        yield 'notification as served', ('C01', 'C04'), z3.Implies(data, z3.And(x.w2('hasoff'), x.w2('off') == n))
        if not x.proving:
            for i, f in enumerate(srcassume(g, n)): yield f'assumption on the source {i}', (), z3.Implies(data, f)
        yield 'unmodified', ('C01',), z3.Implies(z3.And(isok(x), z3.Not(r.is_('Data'))), x.w2('hasoff') == x.w('hasoff'))
    def rnf_guard(e, st, kind, kw):
        yield from fetcher_guard(lambda x: x.of(FR).notification_uri.z)(e, st, kind, kw) or ()
        if kind == 'fetch':
            et = e.rootctx.a(1)
            yield 'conditional on the given ETag only', ('C01',), kw['etag'].z == et.z
    S.add('fetch::Fetcher::read_notification_file', [FR, 'std::option::Option<Str>'], fsreq, rnf_ens, mods=('hasoff', 'off'), guards=[rnf_guard])
    def rs_ens(x):
        yield 'as the mapping says', ('C13',), z3.Implies(isok(x), ismapped(x.of(FR), x.of('rpki::uri::Https').z, x.ret.ok))
    S.add('fetch::Fetcher::resolve_source', [FR, 'rpki::uri::Https'], None, rs_ens, inline=True)

    # ---- update_staged
    def stagedok(st, fs):
        sn, d = st.snapshot, st.deltas
        f = lambda v: z3.And(g.relgood(v.rel_path.z), v.hash.z == g.srch(v.rel_path.z), g.at(fs, g.stg(v.rel_path.z), v.rel_path.z))
        i = z3.Int('sd'); x = d.at(i)
        return z3.And(f(sn), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), f(x)), patterns=[x.z]))
    Z = z3.IntVal(0)
    def stagedfits(S0, st):
        """the new deltas continue the list which is kept"""
        o, d = S0.deltas, st.deltas; i = z3.Int('sf'); x = d.at(i)
        own = o.at(Z).serial.z
        lm = g.limit; lv = V(e, lm, 'std::option::Option<usize>')
        top = z3.If(d.len > 0, d.at(d.len - 1).serial.z, own)
        return z3.And(d.len >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), z3.And(x.serial.z == d.at(Z).serial.z + i, x.serial.z <= st.snapshot.serial.z, x.serial.z >= st.cutoff.z)), patterns=[x.z]),
            z3.Implies(z3.And(z3.Not(st.session_reset.z), o.len > 0, d.len > 0), z3.And(own < d.at(Z).serial.z, z3.Implies(own >= st.cutoff.z, d.at(Z).serial.z == own + 1))),
            z3.Implies(z3.And(z3.Not(st.session_reset.z), S0.snapshot.is_('Some')), z3.And(S0.snapshot.some.session_id.z == st.snapshot.session_id.z, S0.snapshot.some.serial.z < st.snapshot.serial.z)),
            z3.Implies(z3.And(d.len == 0, o.len > 0, z3.Not(st.session_reset.z)), own < st.cutoff.z),
            z3.Implies(z3.And(lv.is_('Some'), d.len > 0), z3.And(lv.some.z > 0, d.at(d.len - 1).serial.z - st.cutoff.z < lv.some.z)),
            z3.Implies(z3.And(st.session_reset.z), S0.snapshot.is_('Some')), z3.Implies(st.session_reset.z, S0.snapshot.some.session_id.z != st.snapshot.session_id.z), st.cutoff.z >= 0)
    g.stagedok, g.stagedfits = stagedok, stagedfits
    def us_req(x):
        s = x.of(RS)
        yield 'configuration', (), cfgreq(x)
        yield 'state', (), g.scfg(s)
        yield 'delta list in order', ('C04',), g.order(s)
        yield from fsreq(x)
    def us_ens(x):
        s = x.of(RS); f1, f2 = x.w('fs'), x.w2('fs'); n = x.w2('off'); has = x.w2('hasoff')
        sn = s.snapshot; same = z3.And(sn.is_('Some'), sn.some.session_id.z == R.session(n))
        r = x.ret.ok; new = z3.And(isok(x), r.is_('Some')); none = z3.And(isok(x), r.is_('None')); st = r.some
        T = e.T
        yield 'changes only if the source moved forward', ('C01',), z3.Implies(new, z3.And(has, z3.Or(z3.Not(same), R.serial(n) > sn.some.serial.z)))
        yield 'no changes only if the source has not moved', ('C01',), z3.Implies(none, z3.Or(z3.Not(has), z3.And(same, R.serial(n) == sn.some.serial.z)))
        yield 'an older serial is an error', ('C01',), z3.Implies(z3.And(has, same, R.serial(n) < sn.some.serial.z), z3.Not(isok(x)))
        yield 'session and serial of the source', ('C01', 'C04'), z3.Implies(new, z3.And(st.snapshot.session_id.z == R.session(n), st.snapshot.serial.z == R.serial(n)))
        yield 'snapshot of the source', ('C04', 'C02'), z3.Implies(new, z3.And(st.snapshot.hash.z == R.uh_hash(R.snapshot(n)), st.snapshot.rel_path.z == g.rel(R.uh_uri(R.snapshot(n)))))
        yield 'staged files have the listed content', ('C02', 'C06'), z3.Implies(new, stagedok(st, f2))
        yield 'session reset', ('C04', 'C05'), z3.Implies(new, st.session_reset.z == z3.And(sn.is_('Some'), sn.some.session_id.z != R.session(n)))
        m = x.w2('srt'); ld, ad = T.vec_ops(R.deltas(n)); lm, am = T.vec_ops(R.deltas(m)); d = st.deltas
        lv = V(e, g.limit, 'std::option::Option<usize>')
        first = R.d_serial(sel(am, Z))
        if x.proving:
            i = z3.Int('ui'); j = z3.Int('uj'); k = lm - d.len
            if isinstance(x.retv, Agg) and x.retv.v == 0: x.hint(sel(am, k - 1), sel(am, k))
            hs = x.w2('hassrt')
            isn = lambda v: isnew(g, s, st.session_reset.z, v)
            # (with a limit of zero the notification is replaced by one without deltas)
            z0 = z3.And(lv.is_('Some'), lv.some.z == 0)
            yield 'sorted list comes from the source', ('C04',), z3.Implies(new, z3.And(hs, z3.Implies(z3.Not(z0), z3.And(R.serial(m) == R.serial(n), lm == z3.If(z3.And(lv.is_('Some'), lv.some.z < ld), lv.some.z, ld)))))
            yield 'lowest serial kept', ('C04', 'C05'), z3.Implies(new, st.cutoff.z == z3.If(z3.And(z3.Not(z0), ld > 0), first, R.serial(n)))
            for nm, tags, f in ds_rel(x, s, am, lm, d, st.session_reset.z): yield nm, tags, z3.Implies(z3.And(new, z3.Not(z0)), f)
            yield 'nothing listed is left out unless limited', ('C04',), z3.Implies(z3.And(new, z3.Not(z0)), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ld), z3.Or(z3.Exists([j], z3.And(0 <= j, j < lm, sel(am, j) == sel(ad, i))), R.d_serial(sel(ad, i)) <= first)), patterns=[sel(ad, i)]))
            yield 'no deltas if limited to none', ('C04',), z3.Implies(z3.And(new, z0), d.len == 0)
        yield 'new deltas continue the list kept', ('C04',), z3.Implies(new, stagedfits(s, st))
        yield 'nothing changes outside the staging area', ('C07',), frame(g, f1, f2, g.staging())
        yield 'public notification', ('C03', 'C07'), g.pubinv(f2)
    # ---- staging of the files of a notification
    def stage_req(x):
        s, n = x.of(RS), x.of(N).z
        yield 'configuration', (), cfgreq(x)
        yield 'state', (), g.scfg(s)
        yield 'source names one content per URI', (), g.srcok(n)
        yield from fsreq(x)
    def stage_fs(x):
        f1, f2 = x.w('fs'), x.w2('fs'); r = z3.Const('sr', K.Str)
        yield 'nothing changes outside the staging area', ('C07', 'C06'), frame(g, f1, f2, g.staging())
        yield 'what was staged with the listed content stays', ('C02',), z3.Implies(isok(x), keeps(g, f1, f2, dir=g.staging()))
        yield 'public notification', ('C03', 'C07'), g.pubinv(f2)
    def ss_ens(x):
        n = x.of(N).z; r = x.ret.ok; ok = isok(x); sn = R.snapshot(n)
        yield 'snapshot of the source', ('C04', 'C02', 'C01'), z3.Implies(ok, z3.And(r.session_id.z == R.session(n), r.serial.z == R.serial(n), r.hash.z == R.uh_hash(sn), r.rel_path.z == g.rel(R.uh_uri(sn))))
        yield 'staged with the listed content', ('C02', 'C06'), z3.Implies(ok, z3.And(g.relgood(r.rel_path.z), r.hash.z == g.srch(r.rel_path.z), g.at(x.w2('fs'), g.stg(r.rel_path.z), r.rel_path.z)))
        yield from stage_fs(x)
    S.add('rrdp::RrdpState::snapshot_stage', [RS, N, 'fetch::Fetcher', CFG], stage_req, ss_ens, mods=('fs', 'ex', 'now'))
    def ascending(n):
        ln, arr = e.T.vec_ops(R.deltas(n)); i = z3.Int('ai')
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), R.d_serial(sel(arr, i)) == R.d_serial(sel(arr, Z)) + i), patterns=[sel(arr, i)])
    def ds_req(x):
        yield from stage_req(x)
        yield 'deltas in order', ('C04',), ascending(x.of(N).z)
    def ds_rel(x, s, am, lm, d, rs):
        i = z3.Int('ui'); k = lm - d.len
        isn = lambda v: isnew(g, s, rs, v)
        y = sel(am, k + i); dx = d.at(i)
        yield 'new deltas are those of the source', ('C04', 'C02'), z3.And(d.len >= 0, d.len <= lm, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), z3.And(dx.serial.z == R.d_serial(y), dx.hash.z == R.d_hash(y), dx.rel_path.z == g.rel(R.d_uri(y)), isn(dx.serial.z))), patterns=[dx.z]))
        yield 'every new delta is taken', ('C04',), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.Not(isn(R.d_serial(sel(am, i))))), patterns=[sel(am, i)])
    def ds_ens(x):
        s, n, rs = x.of(RS), x.of(N).z, x.of('bool').z
        ln, arr = e.T.vec_ops(R.deltas(n)); d = x.ret.ok; ok = isok(x); f2 = x.w2('fs')
        for nm, tags, f in ds_rel(x, s, arr, ln, d, rs): yield nm, tags, z3.Implies(ok, f)
        i = z3.Int('sd'); y = d.at(i)
        yield 'staged with the listed content', ('C02', 'C06'), z3.Implies(ok, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), z3.And(g.relgood(y.rel_path.z), y.hash.z == g.srch(y.rel_path.z), g.at(f2, g.stg(y.rel_path.z), y.rel_path.z))), patterns=[y.z]))
        yield from stage_fs(x)
    def us_inv(lc):
        for c, v, o in lc.iters:
            it = lc.flat(v)
            if it.seq is None or it.seq.sort() != e.T.sort('std::vec::Vec<rpki::rrdp::DeltaInfo>'): continue
            ln, arr = e.T.vec_ops(it.seq); s = e.rootctx.of(RS); fs = lc.w('fs')
            rs_ = [('', e.rootctx.of('bool').z)] if e.rootctx.has('bool') else [('same ', FALSE), ('reset ', TRUE)]
            for k, c, v, o in lc.locals_of(lambda v, o: isinstance(v, z3.ExprRef) and v.sort() == e.T.sort('std::vec::Vec<rrdp::DeltaState>')):
                d = V(e, v, 'std::vec::Vec<rrdp::DeltaState>'); i = z3.Int('li'); x = d.at(i)
                y = sel(arr, it.idx - d.len + i)
                yield f'count {k}', z3.And(d.len >= 0, d.len <= it.idx)
                yield f'taken {k}', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), z3.And(x.serial.z == R.d_serial(y), x.hash.z == R.d_hash(y), x.rel_path.z == g.rel(R.d_uri(y)))), patterns=[x.z])
                yield f'staged {k}', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), z3.And(g.relgood(x.rel_path.z), x.hash.z == g.srch(x.rel_path.z), g.at(fs, g.stg(x.rel_path.z), x.rel_path.z))), patterns=[x.z])
                for nm, rs in rs_:
                    isn = lambda v: isnew(g, s, rs, v)
                    yield f'new {nm}{k}', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.len), isn(x.serial.z)), patterns=[x.z])
                    yield f'passed {nm}{k}', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.idx - d.len), z3.Not(isn(R.d_serial(sel(arr, i))))), patterns=[sel(arr, i)])
    def us_staged(lc):
        # what was staged before stays
        fs = lc.w('fs'); r = z3.Const('sr', K.Str)
        a = lc.w0('fs')
        if any(c == 'w.fs' for c, _ in lc.mods):
            yield 'staged files kept', keeps(g, a, fs, dir=g.staging())
    S.add('rrdp::RrdpState::deltas_stage', [RS, N, 'bool', 'fetch::Fetcher', CFG], ds_req, ds_ens, mods=('fs', 'ex', 'now'), invs=[('', us_inv), ('', us_staged)])
    S.add('rrdp::RrdpState::update_staged', [RS, CFG], us_req, us_ens, mods=('fs', 'ex', 'hasoff', 'off', 'srt', 'hassrt', 'now', 'staged'), invs=[('', us_inv), ('', us_staged)],
          ghost=lambda x: {} if x.proving else {'staged': z3.And(isok(x), x.ret.ok.is_('Some'))}, frameskip=('staged',))
    return S
