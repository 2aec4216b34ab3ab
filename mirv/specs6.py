"""The configuration (src/config.rs)."""
import z3
from .values import *
from .engine import *
from .models import sel, qv, model, as_path
from .specs import *

D = '/var/lib/krill-sync'
FSO = 'std::option::Option<fetch::FetchSource>'
@model('std::path::Path::starts_with')
def path_starts(c):
    p, b = as_path(c, 0), as_path(c, 1)
    return c.ret(z3.Or(p == b, c.e.K.under(p, b)))
@model('std::path::Path::strip_prefix')
def path_strip(c):
    K = c.e.K; p, b = as_path(c, 0), as_path(c, 1)
    ok = z3.Or(p == b, K.under(p, b))
    return c.okerr(lambda n: z3.Function('pstrip', K.Path, K.Path, K.Path)(p, b), okcond=ok)
@model('core::str::<impl str>::replace', 'std::str::<impl str>::replace', 'alloc::str::<impl str>::replace', 'core::str::<impl str>::replacen')
def str_replace(c):
    K = c.e.K
    if not (isinstance(c.a(1), z3.ExprRef) and c.a(1).sort() == K.Str): return NotImplemented
    return c.ret(z3.Function('str_replace', K.Str, K.Str, K.Str, K.Str)(c.z(0), c.z(1), c.z(2)))
def build(e, S):
    g = e.G; K = g.K; T = e.T
    L = e.lit; P = lambda t: K.path_of(L(t))
    g.dstate, g.drrdp, g.drsync = P(D), P(D + '/rrdp'), P(D + '/rsync')
    p = z3.Const('p', K.Path); t = z3.Const('t', K.Str)
    pstrip = z3.Function('pstrip', K.Path, K.Path, K.Path); rep = z3.Function('str_replace', K.Str, K.Str, K.Str, K.Str)
    nm = lambda t: L(t).decl().name()
    for sub in ('rrdp', 'rsync'):
        f = D + '/' + sub
        e.axiom(z3.And(K.under(P(f), P(D)), pstrip(P(f), P(D)) == P(sub), K.pjoin(P(D), P(sub)) == P(f), P(f) != P(D)), [nm(f), nm(D)])
        e.axiom(z3.ForAll([t], rep(L(f), L(D), t) == K.cat(t, L('/' + sub)), patterns=[rep(L(f), L(D), t)]), [nm(f), nm(D), 'str_replace'])
        # text and components agree, except for an empty directory
        e.axiom(z3.ForAll([p], z3.Implies(K.pathstr(p) != L(''), K.path_of(K.cat(K.pathstr(p), L('/' + sub))) == K.pjoin(p, P(sub))), patterns=[K.path_of(K.cat(K.pathstr(p), L('/' + sub)))]), [nm('/' + sub), 'pathstr', 'path_of'])
    e.axiom(P(D + '/rrdp') != P(D + '/rsync'), [nm(D + '/rrdp'), nm(D + '/rsync')])
    OWN = 'config::Config'
    def pc_ens(x):
        i = x.ix(OWN); c, r, ok = x.a(i), x.ret.ok, isok(x)
        moved = c.state_dir.z != g.dstate
        yield 'the state directory is the given one', ('C19',), z3.Implies(ok, r.state_dir.z == c.state_dir.z)
        for f, d, sub in (('rrdp_dir', g.drrdp, 'rrdp'), ('rsync_dir', g.drsync, 'rsync')):
            was, now = getattr(c, f).z, getattr(r, f).z
            yield f'a default {f} follows the state directory', ('C19',), z3.Implies(z3.And(ok, moved, was == d), now == K.pjoin(c.state_dir.z, P(sub)))
            yield f'a {f} that was set is used as given', ('C19',), z3.Implies(z3.And(ok, was != d), now == was)
            yield f'a default {f} stays with a default state directory', ('C19',), z3.Implies(z3.And(ok, z3.Not(moved)), now == was)
        for f in ('notification_uri', 'insecure', 'cleanup_after', 'rrdp_notify_delay', 'rrdp_max_deltas', 'rsync_disable', 'rsync_include_host', 'tal_files', 'pre_validation_scripts', 'tal_reject_invalid', 'offline_validation', 'rsync_dir_force_moves'):
            try: a, b = getattr(c, f).z, getattr(r, f).z
            except Exception: continue
            yield f'{f} is the given one', ('C19', 'C13', 'C05', 'C04', 'C08', 'C09', 'C10') if f != 'notification_uri' else ('C19', 'C13', 'C01'), z3.Implies(ok, a == b)
        # the mapping of source URIs
        b, m, r2 = c.source_uri_base, r.fetch_map, r.source_uri_base
        FSv = lambda v: V(e, v, 'fetch::FetchSource')
        uri = c.notification_uri.z
        par = e.uf('https_parent', [uri], 'rpki::uri::Https')
        yield 'without a mapping none is made', ('C13',), z3.Implies(z3.And(ok, b.is_('None')), m.z == c.fetch_map.z)
        some = z3.And(ok, b.is_('Some')); bs = b.some; mf = m.some
        yield 'a mapping is used if there is one', ('C13',), z3.Implies(some, m.is_('Some'))
        yield 'it maps the directory of the notification', ('C13',), z3.Implies(some, mf.base_uri.z == par)
        t = mf.base_fetch
        yield 'to the given directory', ('C13',), z3.Implies(z3.And(some, bs.is_('File')), z3.And(t.is_('File'), t.pay('File', 0).z == bs.pay('File', 0).z))
        yield 'to the given URI', ('C13',), z3.Implies(z3.And(some, bs.is_('Uri')), z3.And(t.is_('Uri'), t.pay('Uri', 0).z == bs.pay('Uri', 0).z))
        mode = t.pay('Uri', 1); given = bs.pay('Uri', 1)
        yield 'with the checks asked for', ('C13',), z3.Implies(z3.And(some, bs.is_('Uri')), z3.And(z3.Implies(c.insecure.z, mode.is_('Insecure')), z3.Implies(z3.Not(c.insecure.z), mode.z == given.z)))
        yield 'a base URI ends in a slash', ('C13',), z3.Implies(z3.And(some, bs.is_('Uri')), e.uf('ends_with', [g.uristr(bs.pay('Uri', 0).z), z3.IntVal(47)], 'bool'))
    S.add('config::post_configure', [OWN], None, pc_ens)
    FE = 'fetch::Fetcher'
    def cf_ens(x):
        c, f = x.of(OWN), x.ret
        yield 'fetches the configured notification', ('C13', 'C01'), f.notification_uri.z == c.notification_uri.z
        yield 'with the configured mapping', ('C13',), f.fetch_map.z == c.fetch_map.z
        yield 'with certificate checks unless --insecure', ('C13',), z3.Implies(z3.Not(c.insecure.z), f.mode.is_('Strict'))
        yield 'without certificate checks with --insecure', ('C13',), z3.Implies(c.insecure.z, f.mode.is_('Insecure'))
    S.add('config::Config::fetcher', [OWN], None, cf_ens, inline=True)
    def fs_ens(x):
        yield 'a URI is fetched with certificate checks', ('C13',), z3.Implies(z3.And(isok(x), x.ret.ok.is_('Uri')), x.ret.ok.pay('Uri', 1).is_('Strict'))
    S.add('<fetch::FetchSource as std::str::FromStr>::from_str', ['Str'], None, fs_ens, inline=True)
    for fn in ('rrdp_state_path', 'rsync_state_path', 'lock_file', 'staging_dir'):
        def in_ens(x): yield 'in the state directory', ('C19',), K.under(x.ret.z, x.of(OWN).state_dir.z)
        S.add('config::Config::' + fn, [OWN], None, in_ens, inline=True)
    def sp_ens(x): yield 'in the state directory', ('C19', 'C06'), z3.Implies(K.relok(x.of('Str').z), K.under(x.ret.z, x.of(OWN).state_dir.z))
    S.add('config::Config::staging_path', [OWN, 'Str'], None, sp_ens, inline=True)
    def ns_ens(x):
        ok, r, u = isok(x), x.ret.ok, x.of('rpki::uri::Https').z
        par = e.uf('https_parent', [u], 'rpki::uri::Https')
        yield 'the URI is the given one', ('C19', 'C01'), z3.Implies(ok, r.uri.z == u)
        yield 'the name is the file name of the URI', ('C19',), z3.Implies(ok, g.uristr(u) == K.cat(g.uristr(par), r.name.z))
        yield 'not conditional yet', ('C01',), z3.Implies(ok, r.etag.is_('None'))
    S.add('rrdp::NotificationSource::build', ['rpki::uri::Https'], None, ns_ens, inline=True)
    def sm_ens(x):
        ok, r, c = isok(x), x.ret.ok, x.of(OWN)
        yield 'files go to the configured directory', ('C19',), z3.Implies(ok, r.rrdp_dir.z == c.rrdp_dir.z)
    S.add('rrdp::SourceMappings::build', [OWN], None, sm_ens, inline=True)
    return S
