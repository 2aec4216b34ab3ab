"""The outside world: file system, network, child processes. Effects are reported to guards."""
import z3
from .values import *
from .engine import *
from .models import *

def event(c, st, kind, **kw):
    """reports an effect; guards turn it into obligations"""
    e = c.e
    if e.quiet: return
    for g in e.guards:
        for name, tags, f in g(e, st, kind, kw) or ():
            e.oblige(st, f'{kind}: {name}', f, tags, 'guard')

def getfs(st): return st.cells['w.fs']
def named(c, st, v, nm):
    if v.num_args() == 0: return v
    r = c.T.fresh_sort(v.sort(), nm)
    st.assume(r == v)
    return r
def setfs(c, st, v): c.e.setw(st, 'fs', named(c, st, v, 'fs'))
def forget_ex(c, st, **kw):
    c.e.setw(st, 'ex', c.T.fresh_sort(c.e.K.EX, 'ex'))
    for p in kw.get('there', ()): st.assume(sel(st.cells['w.ex'], p))
def node(c, b): return c.e.K.Node.file(b)
def absent(c): return c.e.K.Node.absent
def set_ex(c, st, p, there=True): c.e.setw(st, 'ex', named(c, st, z3.Store(st.cells['w.ex'], p, TRUE if there else FALSE), 'ex'))
def mayhave(c, st, p, nd):
    """a failed creation: what is at p is unknown"""
    put(c, st, p, nd); c.T.nfresh += 1
    x = z3.Const(f'is!{c.T.nfresh}', z3.BoolSort())
    st.assume(z3.Implies(c.e.K.isfile(nd), x))
    c.e.setw(st, 'ex', named(c, st, z3.Store(st.cells['w.ex'], p, x), 'ex'))
def freshnode(c): return c.T.fresh_sort(c.e.K.Node, 'node')
def result(c, okf, errf, okcond=None):
    T = c.T
    okty, errty = T.info(T.strip(c.dty))['args'][:2]
    if okcond is None:
        T.nfresh += 1; okcond = z3.Const(f'io!{T.nfresh}', z3.BoolSort())
    def ok(n):
        v = okf(n)
        return c.mk(c.dty, 'Ok', UNIT if v is None else v)
    def er(n):
        if errf: errf(n)
        return c.mk(c.dty, 'Err', c.e.fresh_value(n, errty, 'err'))
    return c.split((okcond, ok), (z3.Not(okcond), er))
def fpath(c, f): return c.e.uf('fpath', [f], rsort=c.e.K.Path)
def put(c, st, p, nd):
    setfs(c, st, z3.Store(getfs(st), p, nd))

def overw(c, f): return c.e.uf('overwrites', [f], 'bool')
@model('std::fs::OpenOptions::new', 'std::fs::File::options')
def opts_new(c): return c.ret(Tok('opts', frozenset()))
@model('std::fs::OpenOptions::read', 'std::fs::OpenOptions::write', 'std::fs::OpenOptions::append', 'std::fs::OpenOptions::truncate', 'std::fs::OpenOptions::create', 'std::fs::OpenOptions::create_new')
def opts_set(c):
    r = c.args[0]; t = c.a(0); v = z3.simplify(c.z(1)); n = c.base.split('::')[-1]
    if not isinstance(t, Tok) or t.kind != 'opts' or not (z3.is_true(v) or z3.is_false(v)): raise Unsupported('open options')
    c.set(0, Tok('opts', t.a[0] | {n} if z3.is_true(v) else t.a[0] - {n}))
    return c.ret(r)
@model('std::os::unix::fs::OpenOptionsExt::mode', '<std::fs::OpenOptions as std::os::unix::fs::OpenOptionsExt>::mode')
def opts_mode(c): return c.ret(c.args[0])
@model('std::fs::OpenOptions::open')
def opts_open(c):
    t = c.a(0); p = as_path(c, 1)
    if not isinstance(t, Tok) or t.kind != 'opts': raise Unsupported('open options')
    o = t.a[0]; K = c.e.K
    new = 'create_new' in o
    if not o & {'write', 'append'}: return open_at(c, p)
    event(c, c.st, 'write', path=p)
    old = sel(getfs(c.st), p); trunc = 'truncate' in o or new
    def ok(n):
        f = c.T.fresh(c.T.info(c.T.strip(c.dty))['args'][0], 'file')
        n.assume(fpath(c, f) == p)
        n.assume(z3.Not(overw(c, f)) if trunc or 'append' in o else overw(c, f))
        if new: n.assume(z3.Not(K.isfile(old)))
        if not new and 'create' not in o: n.assume(K.isfile(old))
        if trunc: put(c, n, p, node(c, K.empty))
        else: put(c, n, p, node(c, z3.If(K.isfile(old), K.content(old), K.empty)))
        set_ex(c, n, p)
        return f
    def er(n):
        if 'create' in o or new: mayhave(c, n, p, freshnode(c))
    return result(c, ok, er)
@model('std::fs::File::create', 'std::fs::File::create_new')
def file_create(c):
    p = as_path(c, 0)
    event(c, c.st, 'write', path=p)
    def ok(n):
        f = c.T.fresh(c.T.info(c.T.strip(c.dty))['args'][0], 'file')
        n.assume(fpath(c, f) == p, z3.Not(overw(c, f)))
        put(c, n, p, node(c, c.e.K.empty)); set_ex(c, n, p)
        return f
    def er(n): mayhave(c, n, p, freshnode(c))
    return result(c, ok, er)
@model('std::io::Write::write_all')
def write_all(c):
    if 'File' not in c.atys[0] and 'BufWriter' not in c.atys[0]:
        # in memory
        if isinstance(c.args[0], Ref) and c.T.canon(c.args[0].ty) == 'Bytes':
            c.set(0, c.e.K.bcat(c.z(0), c.z(1)))
            return c.ret(c.mk(c.dty, 'Ok', UNIT))
        return NotImplemented
    f, b = c.z(0), c.z(1); p = fpath(c, f)
    event(c, c.st, 'write', path=p)
    old = sel(getfs(c.st), p)
    def ok(n):
        o = c.e.K.content(old); x = c.e.K.bcat(o, b)
        if c.e.usedmodels.get('std::fs::OpenOptions::open'): x = z3.If(overw(c, f), z3.If(o == c.e.K.empty, b, c.T.fresh_sort(c.e.K.Bytes, 'overwritten')), x)
        put(c, n, p, node(c, x))
    def er(n): put(c, n, p, freshnode(c))
    return result(c, ok, er)
@model('std::io::Write::flush', 'std::fs::File::sync_all', 'std::fs::File::sync_data')
def flush(c): return result(c, lambda n: None, None)
@model('std::fs::write')
def fs_write(c):
    p = as_path(c, 0); b = c.z(1)
    if b.sort() == c.e.K.Str: b = c.e.K.bytes_of(b)
    event(c, c.st, 'write', path=p)
    def ok(n): put(c, n, p, node(c, b)); set_ex(c, n, p)
    def er(n): mayhave(c, n, p, freshnode(c))
    return result(c, ok, er)
@model('std::fs::File::open')
def file_open(c):
    return open_at(c, as_path(c, 0))
def open_at(c, p):
    def ok(n):
        f = c.T.fresh(c.T.info(c.T.strip(c.dty))['args'][0], 'file')
        n.assume(fpath(c, f) == p)
        return f
    return result(c, ok, lambda n: event_done(c, n, 'readerr', path=p))
@model('<std::fs::File as std::io::Read>::read_to_end', 'std::io::Read::read_to_end')
def read_to_end(c):
    T = c.T
    if 'ObjectReader' in c.atys[0]:
        old = c.z(1); K = c.e.K
        data = c.e.uf('reader_data', [c.z(0)], 'std::vec::Vec<u8>')
        def ok(n):
            r = c.args[1]; c.e.write(n, r.cell, r.path, r.ty, K.bcat(old, data)); return T.fresh('usize', 'n')
        return result(c, ok, None)
    f = c.z(0); p = fpath(c, f); K = c.e.K
    nd = sel(getfs(c.st), p)
    old = c.z(1); r = c.args[1]
    def ok(n):
        n.assume(K.isfile(nd))
        c.e.write(n, r.cell, r.path, r.ty, K.bcat(old, K.content(nd))); return T.fresh('usize', 'n')
    def er(n): event_done(c, n, 'readerr', path=p); c.e.write(n, r.cell, r.path, r.ty, T.fresh_sort(K.Bytes, 'partial'))
    return result(c, ok, er)
@model('std::fs::read')
def fs_read(c):
    p = as_path(c, 0); K = c.e.K; nd = sel(getfs(c.st), p)
    def ok(n): n.assume(K.isfile(nd)); return K.content(nd)
    return result(c, ok, lambda n: event_done(c, n, 'readerr', path=p))
@model('std::io::BufReader::<R>::new', 'std::io::BufWriter::<W>::new')
def bufreader(c):
    r = c.e.uf('buffered', [c.z(0)], c.dty)
    c.st.assume(fpath(c, r) == fpath(c, c.z(0)))
    if c.e.usedmodels.get('std::fs::OpenOptions::open'): c.st.assume(overw(c, r) == overw(c, c.z(0)))
    return c.ret(r)
@model('std::path::Path::exists')
def exists(c):
    p = as_path(c, 0); K = c.e.K; st = c.st
    ex = sel(st.cells['w.ex'], p)
    st.assume(z3.Implies(K.isfile(sel(getfs(st), p)), ex))
    q = z3.Const(f'q?{c.T.nfresh}', K.Path); c.T.nfresh += 1
    st.assume(z3.ForAll([q], z3.Implies(z3.And(ex, K.under(p, q)), z3.Not(K.isfile(sel(getfs(st), q)))), patterns=[K.under(p, q)]))
    st.assume(z3.Implies(ex, z3.Not(K.isfile(sel(getfs(st), K.parent(p))))))
    return c.ret(ex)
@model('std::path::Path::is_file')
def is_file(c):
    p = as_path(c, 0); K = c.e.K; st = c.st
    return c.ret(K.isfile(sel(getfs(st), p)))
@model('std::path::Path::is_dir')
def is_dir(c):
    p = as_path(c, 0); K = c.e.K; st = c.st
    d = c.T.fresh('bool', 'isdir')
    st.assume(z3.Implies(d, z3.And(sel(st.cells['w.ex'], p), z3.Not(K.isfile(sel(getfs(st), p))))))
    return c.ret(d)
@model('std::fs::create_dir_all', 'std::fs::create_dir')
def create_dir(c):
    p = as_path(c, 0)
    event(c, c.st, 'mkdir', path=p)
    ex = c.st.cells['w.ex']
    def upd(n):
        new = c.T.fresh_sort(c.e.K.EX, 'ex'); q = z3.Const(f'q?{c.T.nfresh}', c.e.K.Path)
        n.assume(z3.ForAll([q], z3.And(z3.Implies(sel(ex, q), sel(new, q)), z3.Implies(sel(new, q), z3.Or(sel(ex, q), q == p, c.e.K.under(p, q)))), patterns=[sel(new, q)]))
        if c.base.endswith('_all'): n.assume(sel(new, p))
        c.e.setw(n, 'ex', new)
    def upder(n):
        new = c.T.fresh_sort(c.e.K.EX, 'ex'); q = z3.Const(f'q?{c.T.nfresh}', c.e.K.Path)
        n.assume(z3.ForAll([q], z3.And(z3.Implies(sel(ex, q), sel(new, q)), z3.Implies(sel(new, q), z3.Or(sel(ex, q), q == p, c.e.K.under(p, q)))), patterns=[sel(new, q)]))
        c.e.setw(n, 'ex', new)
    return result(c, lambda n: upd(n), lambda n: upder(n))
@model('std::fs::rename')
def rename(c):
    a, b = as_path(c, 0), as_path(c, 1); K = c.e.K
    event(c, c.st, 'rename', src=a, path=b)
    fs = getfs(c.st)
    T = c.T
    T.nfresh += 1
    isf = K.isfile(sel(fs, a)); hl = c.st.cells.get('w.haslink')
    lnk = sel(hl, a) if hl is not None else z3.BoolVal(False)
    if hl is not None: c.st.assume(z3.Implies(lnk, z3.And(z3.Not(isf), K.under(a, c.e.G.yd))))     # links are made in the rsync directory only
    okc = z3.Const(f'io!{T.nfresh}', z3.BoolSort())
    okty, errty = T.info(T.strip(c.dty))['args'][:2]
    def okfile(n):
        if hl is not None:      # a file never takes the place of a directory, and has nothing beneath it
            q = z3.Const(f'q?{T.nfresh}', K.Path)
            n.assume(*[z3.ForAll([q], z3.Implies(z3.And(q != d, K.under(q, d)), z3.Not(K.isfile(sel(fs, q)))), patterns=[sel(fs, q)]) for d in (a, b)])
        setfs(c, n, z3.If(a == b, fs, z3.Store(z3.Store(fs, b, sel(fs, a)), a, absent(c))))
        c.e.setw(n, 'ex', named(c, n, z3.Store(z3.Store(n.cells['w.ex'], a, FALSE), b, TRUE), 'ex'))
        event_done(c, n, 'rename', src=a, path=b)
        return c.mk(c.dty, 'Ok', UNIT)
    def okdir(n):
        new = T.fresh_sort(K.FS, 'fs'); q = z3.Const(f'q?{T.nfresh}', K.Path)
        n.assume(z3.ForAll([q], z3.Implies(z3.And(z3.Not(K.under(q, a)), z3.Not(K.under(q, b)), q != a, q != b), sel(new, q) == sel(fs, q)), patterns=[sel(new, q)]))
        # a directory is only ever put in place of nothing or of an empty directory
        n.assume(z3.ForAll([q], z3.Implies(z3.And(a != b, z3.Or(q == b, K.under(q, b))), z3.Not(K.isfile(sel(fs, q)))), patterns=[sel(fs, q)]))
        r = z3.Const(f'r?{T.nfresh}', K.Str)
        n.assume(z3.ForAll([r], z3.Implies(K.relok(r), z3.And(sel(new, K.join(b, r)) == sel(fs, K.join(a, r)), z3.Not(K.isfile(sel(new, K.join(a, r)))))), patterns=[K.join(b, r), K.join(a, r)]))
        if hl is not None: c.e.setw(n, 'haslink', unlink(c, n, hl, a, b))
        n.assume(sel(n.cells['w.ex'], a))
        setfs(c, n, new); forget_ex(c, n, there=[b])
        event_done(c, n, 'rename', src=a, path=b)
        return c.mk(c.dty, 'Ok', UNIT)
    def oklink(n):
        l = n.cells['w.link']
        setfs(c, n, z3.Store(z3.Store(fs, b, absent(c)), a, absent(c)))
        c.e.setw(n, 'link', named(c, n, z3.Store(l, b, sel(l, a)), 'link')); c.e.setw(n, 'haslink', named(c, n, z3.If(a == b, hl, z3.Store(z3.Store(hl, b, TRUE), a, FALSE)), 'haslink'))
        forget_ex(c, n)
        event_done(c, n, 'rename', src=a, path=b)
        return c.mk(c.dty, 'Ok', UNIT)
    def er(n): return c.mk(c.dty, 'Err', c.e.fresh_value(n, errty, 'err'))
    return c.split((z3.And(okc, isf), okfile), (z3.And(okc, z3.Not(isf), z3.Not(lnk)), okdir), (z3.And(okc, lnk), oklink), (z3.Not(okc), er))
def unlink(c, n, hl, *ps, sure=True):
    """links in the given trees are gone or unknown"""
    if c.e.rootspec is not None and 'haslink' not in c.e.rootspec.mods_: return hl
    new = c.T.fresh_sort(hl.sort(), 'haslink'); q = z3.Const(f'q?{c.T.nfresh}', c.e.K.Path)
    n.assume(z3.ForAll([q], z3.Implies(z3.And(*[z3.And(q != p, z3.Not(c.e.K.under(q, p))) for p in ps]), sel(new, q) == sel(hl, q)), patterns=[sel(new, q)]))
    if sure: n.assume(*[z3.Not(sel(new, p)) for p in ps])
    # no new links, unless they were moved along
    less = z3.ForAll([q], z3.Implies(sel(new, q), sel(hl, q)), patterns=[sel(new, q)])
    if len(ps) > 1:
        wit = c.T.fresh_sort(c.e.K.Path, 'lw'); less = z3.Or(less, z3.And(c.e.K.under(wit, ps[0]), wit != ps[0], sel(hl, wit)))
    n.assume(less)
    return new
def event_done(c, st, kind, **kw):
    for h in c.e.hooks: h(c, st, kind, kw)
    e = c.e
    if e.quiet or e.rootspec is None: return
    for l in e.rootspec.kw.get('lemmas', ()):     # proved here, used from here on
        for name, tags, f in l(e, st, kind, kw) or ():
            e.oblige(st, f'after {kind}: {name}', f, tags, 'lemma'); st.assume(f)
@model('std::fs::copy')
def copy(c):
    a, b = as_path(c, 0), as_path(c, 1); K = c.e.K
    event(c, c.st, 'write', path=b)
    fs = getfs(c.st)
    def ok(n): n.assume(K.isfile(sel(fs, a))); put(c, n, b, sel(fs, a)); set_ex(c, n, b); return c.T.fresh('u64', 'n')
    def er(n): mayhave(c, n, b, freshnode(c))
    return result(c, ok, er)
@model('std::fs::hard_link')
def hard_link(c):
    a, b = as_path(c, 0), as_path(c, 1); K = c.e.K
    event(c, c.st, 'write', path=b)
    fs = getfs(c.st)
    def ok(n): n.assume(K.isfile(sel(fs, a))); put(c, n, b, sel(fs, a)); set_ex(c, n, b)
    return result(c, ok, None)
@model('std::fs::remove_file')
def remove_file(c):
    p = as_path(c, 0)
    event(c, c.st, 'remove', path=p)
    ex = c.st.cells['w.ex']
    def ok(n):
        put(c, n, p, absent(c)); c.e.setw(n, 'ex', named(c, n, z3.Store(ex, p, FALSE), 'ex'))
        if 'w.haslink' in n.cells: c.e.setw(n, 'haslink', unlink(c, n, n.cells['w.haslink'], p))
        event_done(c, n, 'remove', path=p)
    return result(c, ok, None)
@model('std::fs::remove_dir')
def remove_dir(c):
    p = as_path(c, 0)
    event(c, c.st, 'rmdir', path=p)
    ex = c.st.cells['w.ex']
    def ok(n): c.e.setw(n, 'ex', named(c, n, z3.Store(ex, p, FALSE), 'ex'))
    return result(c, ok, None)
@model('std::fs::remove_dir_all')
def remove_dir_all(c):
    p = as_path(c, 0); K = c.e.K
    event(c, c.st, 'rmtree', path=p)
    fs = getfs(c.st); T = c.T
    def upd(n):
        new = T.fresh_sort(K.FS, 'fs'); q = z3.Const(f'q?{T.nfresh}', K.Path)
        n.assume(z3.ForAll([q], z3.Implies(z3.And(z3.Not(K.under(q, p)), q != p), sel(new, q) == sel(fs, q)), patterns=[sel(new, q)]))
        setfs(c, n, new)
        ex = n.cells['w.ex']; ne = T.fresh_sort(K.EX, 'ex')
        n.assume(z3.ForAll([q], z3.And(z3.Implies(sel(ne, q), sel(ex, q)), z3.Implies(z3.And(z3.Not(K.under(q, p)), q != p), sel(ne, q) == sel(ex, q))), patterns=[sel(ne, q)]))
        c.e.setw(n, 'ex', ne)
        if 'w.haslink' in n.cells: c.e.setw(n, 'haslink', unlink(c, n, n.cells['w.haslink'], p, sure=False))
    def ok(n):
        upd(n); n.assume(z3.Not(sel(n.cells['w.ex'], p)))
        event_done(c, n, 'rmtree', path=p)
    return result(c, ok, lambda n: upd(n))
@model('std::os::unix::fs::symlink')
def symlink(c):
    a, b = as_path(c, 0), as_path(c, 1)
    event(c, c.st, 'symlink', target=a, path=b)
    def ok(n):
        forget_ex(c, n); put(c, n, b, absent(c))
        if 'w.haslink' in n.cells:
            c.e.setw(n, 'haslink', named(c, n, z3.Store(n.cells['w.haslink'], b, TRUE), 'haslink')); c.e.setw(n, 'link', named(c, n, z3.Store(n.cells['w.link'], b, a), 'link'))
        event_done(c, n, 'symlink', target=a, path=b)
    return result(c, ok, None)
@model('filetime::set_file_mtime')
def set_mtime(c):
    p = as_path(c, 0); t = c.z(1)
    event(c, c.st, 'mtime', path=p, time=t)
    event_done(c, c.st, 'mtime', path=p, time=t)
    return result(c, lambda n: None, None)

# ---------------------------------------------------------------- child processes
@model('std::process::Command::new')
def cmd_new(c):
    return c.ret(Tok('cmd', as_path(c, 0)))
@model('std::process::Command::output', 'std::process::Command::status')
def cmd_output(c):
    t = c.a(0)
    if not isinstance(t, Tok): raise Unsupported('command')
    p = t.a[0]
    event(c, c.st, 'spawn', path=p)
    def ok(n):
        o = c.e.fresh_value(n, c.T.info(c.T.strip(c.dty))['args'][0], 'out')
        event_done(c, n, 'spawned', path=p, out=o)
        return o
    def er(n): event_done(c, n, 'spawnfail', path=p)
    return result(c, ok, er)
@model('std::process::ExitStatus::success')
def exit_success(c): return c.ret(c.e.uf('exit_success', [c.z(0)], 'bool'))

# ---------------------------------------------------------------- network
class Req: pass
def b0(c, *k): return Tok('http', *k)
@model('reqwest::blocking::Client::builder', 'reqwest::blocking::Client::new')
def client_builder(c): return c.ret(Tok('http', FALSE, FALSE, None))
@model('reqwest::blocking::ClientBuilder::danger_accept_invalid_certs')
def acc_certs(c):
    t = c.a(0); return c.ret(Tok('http', c.z(1), t.a[1], None))
@model('reqwest::blocking::ClientBuilder::danger_accept_invalid_hostnames')
def acc_names(c):
    t = c.a(0); return c.ret(Tok('http', t.a[0], c.z(1), None))
@model('reqwest::blocking::ClientBuilder::timeout', 'reqwest::blocking::ClientBuilder::connect_timeout', 'reqwest::blocking::ClientBuilder::user_agent', 'reqwest::blocking::ClientBuilder::gzip')
def cb_same(c): return c.ret(c.a(0))
@model('reqwest::blocking::ClientBuilder::build')
def cb_build(c):
    t = c.a(0)
    return c.split_res(t) if hasattr(c, 'split_res') else result(c, lambda n: t, None)
@model('reqwest::blocking::Client::get')
def client_get(c):
    t = c.a(0); u = c.z(1)
    if not isinstance(t, Tok): raise Unsupported('client')
    return c.ret(Tok('req', t.a[0], t.a[1], u, ()))
@model('reqwest::blocking::RequestBuilder::header')
def rb_header(c):
    t = c.a(0)
    return c.ret(Tok('req', t.a[0], t.a[1], t.a[2], t.a[3] + ((c.a(1), c.a(2)),)))
@model('reqwest::blocking::RequestBuilder::send')
def rb_send(c):
    t = c.a(0)
    if not isinstance(t, Tok): raise Unsupported('request')
    cond = any(('IF_NONE_MATCH' in str(h[0])) for h in t.a[3])
    cands = [h[1] for h in t.a[3] if 'IF_NONE_MATCH' in str(h[0])]
    event(c, c.st, 'get', url=t.a[2], insecure_certs=t.a[0], insecure_names=t.a[1], etag=cands[0] if cands else None)
    def ok(n):
        r = c.T.fresh(c.T.info(c.T.strip(c.dty))['args'][0], 'resp')
        n.assume(c.e.uf('resp_url', [r], 'str') == t.a[2])
        n.assume(c.e.uf('resp_conditional', [r], 'bool') == z3.BoolVal(bool(cands)))
        return r
    return result(c, ok, None)
@model('reqwest::blocking::Response::status')
def r_status(c): return c.ret(c.e.uf('status', [c.z(0)], c.dty))
@model('reqwest::blocking::Response::headers')
def r_headers(c): return c.ret(c.e.uf('headers', [c.z(0)], c.dty))
@model('reqwest::header::HeaderMap::<T>::get')
def h_get(c):
    m, k = c.z(0), c.z(1)
    i = c.T.info(c.T.strip(c.dty))['args'][0]
    has = c.e.uf('hdr_has', [m, k], 'bool')
    return c.split((has, lambda n: c.mk(c.dty, 'Some', c.e.uf('hdr', [m, k], i))), (z3.Not(has), lambda n: c.mk(c.dty, 'None')))
@model('reqwest::header::HeaderValue::to_str')
def hv_str(c): return result(c, lambda n: c.e.uf('hdrstr', [c.z(0)], 'str'), None)
@model('reqwest::blocking::Response::bytes')
def r_bytes(c):
    r = c.z(0)
    return result(c, lambda n: c.e.uf('body', [r], 'std::vec::Vec<u8>'), None)

# ---------------------------------------------------------------- RRDP types of the rpki crate
N = 'rpki::rrdp::NotificationFile'
DI = 'std::vec::Vec<rpki::rrdp::DeltaInfo>'
class Rrdp:
    def __init__(s, e): s.e = e
    def u(s, name, x, ty): return s.e.uf(name, [x], ty)
    def session(s, n): return s.u('rpki::rrdp::NotificationFile::session_id', n, 'uuid::Uuid')
    def serial(s, n): return s.u('rpki::rrdp::NotificationFile::serial', n, 'u64')
    def snapshot(s, n): return s.u('rpki::rrdp::NotificationFile::snapshot', n, 'rpki::rrdp::UriAndHash')
    def deltas(s, n): return s.u('nf_deltas', n, DI)
    def uh_uri(s, x): return s.u('rpki::rrdp::UriAndHash::uri', x, 'rpki::uri::Https')
    def uh_hash(s, x): return s.u('rpki::rrdp::UriAndHash::hash', x, 'rpki::rrdp::Hash')
    def d_serial(s, d): return s.u('rpki::rrdp::DeltaInfo::serial', d, 'u64')
    def d_uh(s, d): return s.u('delta_uh', d, 'rpki::rrdp::UriAndHash')
    def d_uri(s, d): return s.uh_uri(s.d_uh(d))
    def d_hash(s, d): return s.uh_hash(s.d_uh(d))
    def matches(s, h, b): return s.e.uf('hash_matches', [h, b], 'bool')
    def xml(s, n): return s.e.uf('nf_xml', [n], 'std::vec::Vec<u8>')
    def parsed(s, b): return s.e.uf('nf_parse', [b], N)
@model('rpki::rrdp::NotificationFile::parse')
def nf_parse(c):
    b = c.z(0); 
    n = c.e.R.parsed(b)
    def ok(st): event_done(c, st, 'parsed', n=n); return n
    return result(c, ok, None, okcond=c.e.uf('nf_parse_ok', [b], 'bool'))
@model('rpki::rrdp::NotificationFile::deltas')
def nf_deltas(c):
    d = c.e.R.deltas(c.z(0)); lenfact(c.st, c.T.vec_ops(d)[0])
    i = qv(c); x = sel(c.T.vec_ops(d)[1], i)
    return c.ret(d)
@model('rpki::rrdp::NotificationFile::serial', 'rpki::rrdp::DeltaInfo::serial')
def nf_serial(c):
    v = c.e.uf(c.base, [c.z(0)], 'u64'); c.e.range_fact(c.st, v, 'u64'); return c.ret(v)
@model('<rpki::rrdp::DeltaInfo as std::ops::Deref>::deref')
def di_deref(c): return c.ret(c.e.R.d_uh(c.z(0)))
@model('rpki::rrdp::NotificationFile::sort_and_verify_deltas')
def nf_sort(c):
    R, T = c.e.R, c.T
    n = c.z(0); lim = c.args[1]
    m = T.fresh(N, 'nf')
    st = c.st
    ld, ad = T.vec_ops(R.deltas(n)); lm, am = T.vec_ops(R.deltas(m))
    lenfact(st, ld); lenfact(st, lm)
    lty = T.strip(c.atys[1])
    some = T.is_variant(lim, lty, 1)
    lv = c.e.z(T.field(lim, 1, 0, 'usize')) if not (isinstance(lim, Agg) and lim.v == 0) else None
    i, j = qv(c), qv(c, 'j')
    if lv is not None:
        # the dependency indexes the first remaining delta
        okc = z3.Not(z3.And(some, lv == 0, ld > 0))
        c.e.oblige(st, 'no panic: sort_and_verify_deltas with a limit of zero', okc, ('C20',), 'panic'); st.assume(okc)
    st.assume(R.session(m) == R.session(n), R.serial(m) == R.serial(n), R.snapshot(m) == R.snapshot(n))
    st.assume(lm == (ld if lv is None else z3.If(z3.And(some, lv < ld), lv, ld)))
    fmap, gmap = freshf(c, 'nfsrc', I, I), freshf(c, 'nfdst', I, I)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lm), z3.And(0 <= fmap(i), fmap(i) < ld, sel(am, i) == sel(ad, fmap(i)), gmap(fmap(i)) == i)), patterns=[sel(am, i)]))
    # what is left out has lower or equal serials
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ld), z3.Or(z3.And(0 <= gmap(i), gmap(i) < lm, sel(am, gmap(i)) == sel(ad, i)), z3.And(lm > 0, R.d_serial(sel(ad, i)) <= R.d_serial(sel(am, 0))))), patterns=[sel(ad, i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lm), z3.And(R.d_serial(sel(am, i)) >= R.d_serial(sel(am, 0)), R.d_serial(sel(am, i)) >= 0)), patterns=[sel(am, i)]))
    r = T.fresh('bool', 'gapless')
    st.assume(z3.Implies(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lm), R.d_serial(sel(am, i)) == R.d_serial(sel(am, 0)) + i), patterns=[sel(am, i)])))
    c.st.assume(c.e.uf('nf_origin', [m], N) == c.e.uf('nf_origin', [n], N))
    c.set(0, m)
    event_done(c, c.st, 'sorted', n=m, src=n, ok=r, limit=lim)
    return c.ret(r)
@model('rpki::rrdp::NotificationFile::new')
def nf_new(c):
    R, T = c.e.R, c.T
    a = [c.z(i) for i in range(4)]
    n = c.e.uf('nf_new', a, N)
    c.st.assume(R.session(n) == a[0], R.serial(n) == a[1], R.snapshot(n) == a[2], R.deltas(n) == a[3])
    return c.ret(n)
@model('rpki::rrdp::DeltaInfo::new')
def di_new(c):
    R = c.e.R
    d = c.e.uf('di_new', [c.z(0), c.z(1), c.z(2)], c.dty)
    c.st.assume(R.d_serial(d) == c.z(0), R.d_uri(d) == c.z(1), R.d_hash(d) == c.z(2))
    return c.ret(d)
@model('rpki::rrdp::UriAndHash::new')
def uh_new(c):
    R = c.e.R
    d = c.e.uf('uh_new', [c.z(0), c.z(1)], c.dty)
    c.st.assume(R.uh_uri(d) == c.z(0), R.uh_hash(d) == c.z(1))
    return c.ret(d)
@model('rpki::rrdp::NotificationFile::write_xml')
def nf_write(c):
    n = c.z(0); r = c.args[1]
    if not isinstance(r, Ref) or c.T.canon(r.ty) != 'Bytes': raise Unsupported('write_xml to ' + c.atys[1])
    old = c.z(1); K = c.e.K
    def ok(st):
        st.assume(c.e.R.parsed(c.e.R.xml(n)) == n, c.e.uf('nf_parse_ok', [c.e.R.xml(n)], 'bool'))
        c.e.write(st, r.cell, r.path, r.ty, K.bcat(old, c.e.R.xml(n)))
    return result(c, ok, lambda st: c.e.write(st, r.cell, r.path, r.ty, c.T.fresh_sort(K.Bytes, 'partial')))
@model('rpki::rrdp::Hash::matches')
def h_matches(c):
    b = c.z(1)
    return c.ret(c.e.R.matches(c.z(0), b))
@model('rpki::rrdp::Delta::parse', 'rpki::rrdp::Snapshot::parse')
def rr_parse(c):
    b = c.z(0); nm = c.base.split('::')[2]
    t = c.T.info(c.T.strip(c.dty))['args'][0]
    return result(c, lambda st: c.e.uf(nm + '_parse', [b], t), None, okcond=c.e.uf(nm + '_parse_ok', [b], 'bool'))
@model('rpki::rrdp::Delta::into_elements', 'rpki::rrdp::Snapshot::into_elements', 'rpki::rrdp::Delta::elements', 'rpki::rrdp::Snapshot::elements')
def rr_elements(c):
    nm = c.base.split('::')[2]
    v = c.e.uf(nm + '_elements', [c.z(0)], 'std::vec::Vec<' + ('rpki::rrdp::DeltaElement' if nm == 'Delta' else 'rpki::rrdp::PublishElement') + '>')
    lenfact(c.st, c.T.vec_ops(v)[0])
    return c.ret(v)
@model('rpki::rrdp::PublishElement::unpack', 'rpki::rrdp::UpdateElement::unpack', 'rpki::rrdp::WithdrawElement::unpack')
def rr_unpack(c):
    v = c.z(0); nm = c.base.split('::')[2]
    ts = c.T.info(c.T.strip(c.dty))['ts']
    return c.ret(Agg(c.T.strip(c.dty), 0, [c.e.uf(f'{nm}_{k}', [v], t) for k, t in enumerate(ts)]))

# ---------------------------------------------------------------- serde_json
@model('serde_json::from_slice', 'serde_json::from_str')
def json_from(c):
    b = c.z(0)
    t = c.T.info(c.T.strip(c.dty))['args'][0]
    v = c.e.uf('json_parse', [b], t)
    return result(c, lambda st: v, None, okcond=c.e.uf('json_ok:' + c.T.canon(t), [b], 'bool'))
@model('serde_json::to_string_pretty', 'serde_json::to_string', 'serde_json::to_vec', 'serde_json::to_vec_pretty')
def json_to(c):
    v = c.z(0)
    t = c.T.strip(c.atys[0])
    while c.T.info(t)['k'] == 'ref': t = c.T.strip(c.T.info(t)['t'])
    s = c.e.uf('json', [v], 'str')
    K = c.e.K
    isvec = 'to_vec' in c.base
    def ok(st):
        back = c.e.uf('json_parse', [K.bytes_of(s)], t)
        for h in c.e.json_hooks: h(c, st, t, v, back)
        st.assume(c.e.uf('json_ok:' + c.T.canon(t), [K.bytes_of(s)], 'bool'))
        return K.bytes_of(s) if isvec else s
    return result(c, ok, None)

def install_world(e):
    e.models.update(M)
    e.hooks = []
    e.json_hooks = []
    e.R = Rrdp(e)
    e.world['fs'] = lambda e: z3.Const('fs0', e.K.FS)
    e.world['ex'] = lambda e: z3.Const('ex0', e.K.EX)
    e.world['now'] = lambda e: z3.Int('now0')        # the latest time seen
    e.world['slept'] = lambda e: z3.Int('slept0')    # seconds of the last sleep
    # a hash determines the content
    K = e.K
    h = z3.Const('h', e.T.sort('rpki::rrdp::Hash')); x = z3.Const('x', K.Bytes)
    co = z3.Function('content_of', h.sort(), K.Bytes)
    m = e.R.matches(h, x)
    e.axiom(z3.ForAll([h, x], z3.Implies(m, x == co(h)), patterns=[m]), ['hash_matches!Hash_Bytes' if False else m.decl().name()])
