"""Models of the parts of the rpki crate which validate."""
import z3
from .values import *
from .engine import *
from .models import *
from .models import lenfact, opaque_iter
from .world import result

RC, CERT = 'rpki::repository::ResourceCert', 'rpki::repository::Cert'
class Rpki:
    """vocabulary: what a validated certificate was validated as"""
    def __init__(s, e): s.e = e
    def cert(s, rc): return s.e.uf('rc_cert', [rc], CERT)
    def key(s, c): return s.e.uf('cert_key', [c], 'rpki::crypto::PublicKey')
    def isanchor(s, rc, t): return s.e.uf('valid_ta_at', [rc, t], 'bool')
    def ischild(s, rc, p, t): return s.e.uf('valid_ca_at', [rc, p, t], 'bool')
    def good(s, rc, t): return s.e.uf('good_ca_at', [rc, t], 'bool')
    def when(s, c): return c.e.uf('rtime', [c], 'i64')
def rcz(c, i): return c.z(i)
def cz(c, v):
    """the certificate behind a validated one, a signed object's or a plain one"""
    return c.e.X.cert(v) if v.sort() == c.T.sort(RC) else v
@model('<rpki::repository::ResourceCert as std::ops::Deref>::deref', '<rpki::repository::ResourceCert as std::convert::AsRef<rpki::repository::Cert>>::as_ref', 'rpki::repository::ResourceCert::as_cert', 'rpki::repository::ResourceCert::into_cert')
def rc_deref(c): return c.ret(c.e.X.cert(c.z(0)))
@model('rpki::repository::cert::TbsCert::subject_public_key_info')
def tbs_key(c):
    v = c.z(0)
    if v.decl().name().startswith('tbs_of') and v.num_args() == 1: return c.ret(c.e.X.key(v.arg(0)))
    return NotImplemented
@model('<rpki::repository::Cert as std::ops::Deref>::deref')
def cert_deref(c): return c.ret(c.e.uf('tbs_of', [c.z(0)], c.dty))
@model('rpki::repository::Tal::read_named')
def tal_read(c):
    b = c.z(1)
    okty = c.T.info(c.T.strip(c.dty))['args'][0]
    r = c.args[1]
    if isinstance(r, Ref): c.e.write(c.st, r.cell, r.path, r.ty, c.T.fresh_sort(b.sort(), 'rest'))
    return result(c, lambda n: c.e.uf('tal_read', [b], okty), None, okcond=c.e.uf('tal_read_ok', [b], 'bool'))
@model('rpki::repository::Tal::uris')
def tal_uris(c):
    v = c.e.uf('tal_uris', [c.z(0)], 'std::vec::Vec<rpki::repository::tal::TalUri>'); lenfact(c.st, c.T.vec_ops(v)[0])
    return c.ret(It('seq', seq=v, idx=z3.IntVal(0), ety='rpki::repository::tal::TalUri'))
@model('rpki::repository::Cert::validate_ta_at')
def validate_ta(c):
    cert, when = cz(c, c.z(0)), c.z(3); X = c.e.X
    rc = c.e.uf('ta_rc', [cert, when], RC)
    def ok(n): n.assume(X.cert(rc) == cert, X.isanchor(rc, when)); return rc
    return result(c, ok, None, okcond=c.e.uf('ta_ok', [cert, when], 'bool'))
@model('rpki::repository::Cert::validate_ca_at')
def validate_ca(c):
    cert, p, when = cz(c, c.z(0)), c.z(1), c.z(3); X = c.e.X
    rc = c.e.uf('ca_rc', [cert, p, when], RC)
    def ok(n): n.assume(X.cert(rc) == cert, X.ischild(rc, p, when)); return rc
    return result(c, ok, None, okcond=c.e.uf('ca_ok', [cert, p, when], 'bool'))
@model('rpki::repository::Cert::validate_router_at')
def validate_router(c):
    cert, p, when = cz(c, c.z(0)), c.z(1), c.z(3)
    return result(c, lambda n: UNIT, None, okcond=c.e.uf('router_ok', [cert, p, when], 'bool'))
@model('rpki::repository::Manifest::validate_at')
def validate_mft(c):
    m, p, when = c.z(0), c.z(1), c.z(3)
    ts = c.T.info(c.T.strip(c.T.info(c.T.strip(c.dty))['args'][0]))['ts']
    tt = c.T.strip(c.T.info(c.T.strip(c.dty))['args'][0])
    return result(c, lambda n: Agg(tt, 0, [c.e.uf('mft_rc', [m, p], ts[0]), c.e.uf('mft_content', [m], ts[1])]), None, okcond=c.e.uf('mft_ok', [m, p, when], 'bool'))
@model('rpki::repository::Crl::verify_signature')
def crl_sig(c): return result(c, lambda n: UNIT, None, okcond=c.e.uf('crl_signed', [c.z(0), c.z(1)], 'bool'))
@model('rpki::repository::manifest::ManifestHash::verify')
def mft_hash(c): return result(c, lambda n: UNIT, None, okcond=c.e.uf('mft_hash_ok', [c.z(0), c.z(1)], 'bool'))
@model('rpki::repository::Crl::contains')
def crl_contains(c): return c.ret(c.e.uf('crl_contains', [c.z(0), c.z(1)], 'bool'))
@model('rpki::repository::Cert::decode', 'rpki::repository::Crl::decode', 'rpki::repository::Manifest::decode', 'rpki::repository::Roa::decode', 'rpki::repository::aspa::Aspa::decode', 'rpki::repository::sigobj::SignedObject::decode')
def decode(c):
    b = c.z(0); nm = c.base.split('::')[-2]
    okty = c.T.info(c.T.strip(c.dty))['args'][0]
    return result(c, lambda n: c.e.uf('decoded_' + nm, [b], okty), None, okcond=c.e.uf('decodes_' + nm, [b], 'bool'))
def so_process(c, nm):
    v, p = c.z(0), c.z(1)
    ee = c.e.uf(nm + '_ee', [v], CERT)
    rty = c.T.strip(c.dty)
    tt = c.T.strip(c.T.info(rty)['args'][0]); ts = c.T.info(tt)['ts']
    errty = c.T.info(rty)['args'][1]
    out = []
    okc = c.e.uf(nm + '_ok', [v, p], 'bool')
    if c.e.feasible(c.st, z3.Not(okc)):
        n = c.st.copy(); n.assume(z3.Not(okc)); out.append((n, c.mk(c.dty, 'Err', c.e.fresh_value(n, errty, 'err'))))
    if not c.e.feasible(c.st, okc): return out
    st = c.st.copy(); st.assume(okc)
    cell = Ref(st.cells and c.e.newcell(st, ee, 'ee'), (), CERT)
    for n, r in c.e.call_closure(st, c.args[3], [ee], 'std::result::Result<(), ' + errty + '>'):
        isok = c.e.T.is_variant(r, 'std::result::Result<(), ' + errty + '>', 0)
        good, bad = n, n.copy()
        if not (isinstance(isok, bool) and not isok) and not z3.is_false(z3.simplify(isok if not isinstance(isok, bool) else z3.BoolVal(isok))):
            good.assume(isok if not isinstance(isok, bool) else z3.BoolVal(isok))
            if c.e.feasible(good): out.append((good, c.mk(c.dty, 'Ok', Agg(tt, 0, [c.e.uf(nm + '_rc', [v, p], ts[0]), c.e.uf(nm + '_content', [v], ts[1])]))))
        if not (isinstance(isok, bool) and isok) and not z3.is_true(z3.simplify(isok if not isinstance(isok, bool) else z3.BoolVal(isok))):
            bad.assume(z3.Not(isok) if not isinstance(isok, bool) else z3.BoolVal(not isok))
            if c.e.feasible(bad): out.append((bad, c.mk(c.dty, 'Err', c.e.fresh_value(bad, errty, 'err'))))
    return out
@model('rpki::repository::Roa::process')
def roa_process(c): return so_process(c, 'roa')
@model('rpki::repository::aspa::Aspa::process')
def aspa_process(c): return so_process(c, 'aspa')
def install(e):
    e.models.update(M)
    e.X = Rpki(e)
