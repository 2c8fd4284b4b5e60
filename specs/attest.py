"""Contracts of webauthn_rp.attesters (C03, C19, C20)."""
from .common import *
from .parsing import fresh_enum
from .crypto import (either_key, split_key, ec2_pk, okp_pk, key_input, other_key, Result)
from pyvc.libs import ANDROID_OID
from pyvc.ops import ok
from pyvc.values import Unsupported
from pyvc.contracts import Contract
import tables as tb
AE = er.AttestationError
ATT = ty.AttestationType
STMT_ARGS = ['att_stmt', 'att_obj', 'auth_data', 'client_data_hash']


def x5c_input(n, pre):
    t = z3.Const(n, V)
    i = tm.fresh(tm.Int, 'xi')
    pre += [Or(V.is_vlist(t), V.is_vtuple(t)), tm.llen(t) >= 0, tm.llen(t) < 2 ** 62,
            z3.ForAll([i], Implies(And(i >= 0, i < tm.llen(t)), V.is_vbytes(tm.lat(t, i))))]
    return Any_(t)


def stmt_input(cls, *fs):
    def mk(n, pre):
        f = {}
        for x in fs:
            if x == 'alg':
                f[x] = fresh_enum(ty.COSEAlgorithmIdentifier, n + '.alg', pre)
            elif x == 'x5c':
                f[x] = x5c_input(n + '.x5c', pre)
            else:
                f[x] = fresh_bytes(n + '.' + x, pre)
        return Obj(cls, f, pre=True)
    return mk


def attested_input(n, pre):
    return Obj(ty.AttestedCredentialData, {
        'aaguid': fresh_bytes(n + '.aaguid', pre), 'credential_id_length': fresh_sc('int', n + '.idlen'),
        'credential_id': fresh_bytes(n + '.id', pre), 'credential_public_key': either_key(n + '.key', pre)}, pre=True)


def auth_data_input(n, pre, optional=True):
    flags, cnt = z3.Int(n + '.flags'), z3.Int(n + '.count')
    pre += [flags >= 0, flags < 256, cnt >= 0, cnt < 2 ** 32]
    acd = attested_input(n + '.acd', pre)
    return Obj(ty.AuthenticatorData, {
        'rp_id_hash': fresh_bytes(n + '.rp', pre), 'flags': Sc('int', flags), 'sign_count': Sc('int', cnt),
        'attested_credential_data': acd, 'extensions': NONE}, pre=True)


def att_obj_input(n, pre):
    """An attestation object with attested credential data, as the backend establishes."""
    return Obj(ty.AttestationObject, {'auth_data': auth_data_input(n + '.ad', pre),
                                      'fmt': fresh_enum(ty.AttestationStatementFormatIdentifier, n + '.fmt', pre),
                                      'att_stmt': Raw(Tag('unused'))}, pre=True)


def parts(a):
    s, o = a['att_stmt'], a['att_obj']
    ad = fld(o, 'auth_data')
    acd = fld(ad, 'attested_credential_data')
    return s, ad, acd, sc(a['auth_data'], 'bytes'), sc(a['client_data_hash'], 'bytes')


def seq_len(x):
    return tm.llen(x.t)


def first(x):
    return V.uy(tm.lat(x.t, tm.I(0)))


def cert(der):
    """(loadable with a public key, certificate, key)"""
    c = tm.x509(der)
    return And(tm.x509_ok(der), tm.uf('x509_pk_ok', tm.O, tm.Bool)(c)), c, tm.x509_pk(c)


def curve_is(pk, name):
    return And(tm.pk_kind(pk) == tm.S('EC'), tm.pk_curve(pk) == tm.S(name))


class One(Node):
    """A list (or tuple) of exactly one certificate."""
    def __init__(self, c):
        self.c = c

    def build(self, I, st):
        return I.alloc(st, HObj('list', list, [T('opq', self.c, 'x509')]))

    def match1(self, I, st, v):
        items = st.heap[v.id].data if isinstance(v, Ref) and st.heap[v.id].kind == 'list' else \
            v if isinstance(v, tuple) else None
        if items is None or len(items) != 1:
            return tm.FALSE
        return And(*[f for _, f in match(I, st, items[0], Sc('opq', self.c, 'x509'))])


def basic(c):
    """(BASIC, [certificate])"""
    return Tup([Const(ATT.BASIC), One(c)])


# ------------------------------------------------------------------- FIDO U2F
def u2f_parts(a):
    s, ad, acd, auth, cdh = parts(a)
    x5c = fld(s, 'x5c')
    der = first(x5c)
    ok, c, pk = cert(der)
    one = seq_len(x5c) == 1
    p256 = curve_is(pk, 'secp256r1')
    R = [('certificate-count', Not(one)), ('certificate-unusable', And(one, Not(ok))),
         ('certificate-key-not-P-256', And(one, ok, Not(p256)))]
    keyok, point = tm.FALSE, z3.Empty(tm.Bytes)
    for g, kind, k in split_key(fld(acd, 'credential_public_key')):
        if kind == 'EC2':
            h = And(g, enum_in(fld(k, 'crv'), names(ty.EC2Curve, 'P_256')))
            keyok = Or(keyok, h)
            point = z3.If(h, z3.Concat(tm.B(b'\x04'), sc(fld(k, 'x'), 'bytes'), sc(fld(k, 'y'), 'bytes')), point)
    data = z3.Concat(tm.B(b'\x00'), sc(fld(ad, 'rp_id_hash'), 'bytes'), cdh, sc(fld(acd, 'credential_id'), 'bytes'),
                     point)
    pre = And(one, ok, p256)
    R += [('credential-key-not-P-256', And(pre, Not(keyok))),
          ('invalid-signature', And(pre, keyok, Not(tm.sig_ok(pk, sc(fld(s, 'sig'), 'bytes'), data,
                                                             tm.S('ECDSA-sha256')))))]
    return R, c


def stmt_pre(cls):
    return lambda a: And(isinst(a['att_stmt'], cls), isinst(a['att_obj'], ty.AttestationObject),
                         is_kind(a['auth_data'], 'bytes'), is_kind(a['client_data_hash'], 'bytes'))


def attest_args(stmt):
    return {'att_stmt': stmt, 'att_obj': att_obj_input, 'auth_data': fresh_bytes, 'client_data_hash': fresh_bytes}


@contract('attesters.attest_fido_u2f', ['C19', 'C03'],
          attest_args(stmt_input(ty.FIDOU2FAttestationStatement, 'sig', 'x5c')),
          pre=stmt_pre(ty.FIDOU2FAttestationStatement), only=lambda E: ['C19'])
def attest_u2f(a):
    R, c = u2f_parts(a)
    return Post([Raise(n, g, AE) for n, g in R], basic(c))


# ---------------------------------------------------------------- Android key
def android_parts(a):
    s, ad, acd, auth, cdh = parts(a)
    x5c = fld(s, 'x5c')
    some = seq_len(x5c) >= 1
    der = first(x5c)
    ok, c, pk = cert(der)
    kind = tm.pk_kind(pk)
    ec, ed = kind == tm.S('EC'), Or(kind == tm.S('Ed25519'), kind == tm.S('Ed448'))
    R = [('no-certificate', Not(some), AE), ('certificate-unusable', And(some, Not(ok)), AE),
         ('certificate-key-kind', And(some, ok, Not(Or(ec, ed))), AE)]
    base = And(some, ok, Or(ec, ed))
    spki = None
    good = tm.FALSE
    for g, k, o in split_key(fld(acd, 'credential_public_key')):
        if k == 'other':
            R.append(('credential-key-unsupported', And(base, g), er.UnimplementedError))
            continue
        sup, valid, p = (ec2_pk if k == 'EC2' else okp_pk)(o)
        R += [('credential-key-curve', And(base, g, Not(sup)), er.UnimplementedError),
              ('credential-key-point', And(base, g, sup, Not(valid)), er.PublicKeyConversionError)]
        good = Or(good, And(g, sup, valid))
        spki = tm.spki(p) if spki is None else z3.If(g, tm.spki(p), spki)
    alg = fld(s, 'alg')
    es = enum_in(alg, names(ty.COSEAlgorithmIdentifier, *HASH))
    sch = tm.S('')
    for n, h in HASH.items():
        sch = z3.If(enum_in(alg, names(ty.COSEAlgorithmIdentifier, n)), tm.S('ECDSA-' + h.lower()), sch)
    data = z3.Concat(auth, cdh)
    sig = sc(fld(s, 'sig'), 'bytes')
    b2 = And(base, good)
    valid_sig = z3.If(ec, And(es, tm.sig_ok(pk, sig, data, sch)), tm.sig_ok(pk, sig, data, tm.S('EdDSA')))
    R += [('algorithm-unfit', And(b2, ec, Not(es)), AE), ('invalid-signature', And(b2, Not(valid_sig)), AE),
          ('other-key', And(b2, tm.spki(pk) != spki), AE)]
    oid = tm.S(ANDROID_OID)
    eok = tm.uf('x509_exts_ok', tm.O, tm.Bool)(c)
    has_ext = And(eok, tm.x509_has_ext(c, oid))
    R.append(('no-key-description', And(b2, Not(has_ext)), AE))
    b3 = And(b2, has_ext)
    raw = tm.x509_ext_bytes(c, oid)
    dn = tm.S('KeyDescription')
    R.append(('undecodable-key-description', And(b3, Not(tm.asn_ok(raw, dn))), AE))
    b4 = And(b3, tm.asn_ok(raw, dn))
    kd = tm.asn_val(raw, dn)

    def item(o, *ns):
        for n in ns:
            o = tm.asn_item(o, tm.S(n))
        return o
    origin, purpose = item(kd, 'teeEnforced', 'origin'), item(kd, 'teeEnforced', 'purpose')
    R += [('challenge', And(b4, tm.asn_octets(item(kd, 'attestationChallenge')) != cdh), AE),
          ('all-applications', And(b4, Or(tm.asn_hasvalue(item(kd, 'softwareEnforced', 'allApplications')),
                                          tm.asn_hasvalue(item(kd, 'teeEnforced', 'allApplications')))), AE),
          ('origin', And(b4, Not(And(tm.asn_hasvalue(origin), tm.asn_int(origin) == 0))), AE),
          ('purpose', And(b4, Not(And(tm.asn_hasvalue(purpose), tm.asn_count(purpose, tm.I(2)) >= 1))), AE)]
    return R, c


@contract('attesters.attest_android_key', ['C20', 'C03'],
          attest_args(stmt_input(ty.AndroidKeyAttestationStatement, 'alg', 'sig', 'x5c')),
          pre=stmt_pre(ty.AndroidKeyAttestationStatement), only=lambda E: ['C20'])
def attest_android(a):
    R, c = android_parts(a)
    return Post([Raise(n, g, e) for n, g, e in R], basic(c))


# ----------------------------------------------------------------------- none
@contract('attesters.attest_none', ['C03'], attest_args(stmt_input(ty.NoneAttestationStatement)),
          pre=stmt_pre(ty.NoneAttestationStatement), only=lambda E: ['C10'])
def attest_none(a):
    return Post([], Tup([Const(ATT.NONE), NONE]))


# ------------------------------------------------------------------- dispatch
UNIMPL = {
    ty.PackedAttestationStatement: ('alg', 'sig'), ty.PackedX509AttestationStatement: ('alg', 'sig', 'x5c'),
    ty.PackedECDAAAttestationStatement: ('alg', 'sig', 'ecdaa_key_id'),
    ty.TPMAttestationStatement: ('alg', 'sig', 'ver', 'cert_info', 'pub_area'),
    ty.TPMX509AttestationStatement: ('alg', 'sig', 'ver', 'cert_info', 'pub_area', 'x5c'),
    ty.TPMECDAAAttestationStatement: ('alg', 'sig', 'ver', 'cert_info', 'pub_area', 'ecdaa_key_id'),
    ty.AndroidSafetyNetAttestationStatement: ('ver', 'response')}
IMPL = {ty.FIDOU2FAttestationStatement: (('sig', 'x5c'), 'u2f'),
        ty.AndroidKeyAttestationStatement: (('alg', 'sig', 'x5c'), 'android'),
        ty.NoneAttestationStatement: ((), 'none')}


def split_stmt(s):
    if isinstance(s, Cond):
        return [(And(g, h), x) for g, y in s.alts for h, x in split_stmt(y)]
    return [(tm.TRUE, s)]


def any_stmt(n, pre):
    alts = []
    i = z3.Int(n + '.which')
    cls = list(UNIMPL.items()) + [(c, f) for c, (f, _) in IMPL.items()]
    for j, (c, fs) in enumerate(cls):
        g = i == j if j < len(cls) - 1 else Or(i < 0, i >= j)
        fs2 = [x if x in ('alg', 'x5c') else x for x in fs]
        alts.append((g, stmt_input(c, *fs2)('%s.%s' % (n, c.__name__), pre)))
    return Cond(alts)


@contract('attesters.attest', ['C03'], attest_args(any_stmt), only=lambda E: ['C11'], pre=lambda a: And(
    Or(*[And(g, asb(isinstance(s, Obj) and s.cls in list(UNIMPL) + list(IMPL))) for g, s in
         split_stmt(a['att_stmt'])]), isinst(a['att_obj'], ty.AttestationObject),
    is_kind(a['auth_data'], 'bytes'), is_kind(a['client_data_hash'], 'bytes')))
def attest(a):
    R, alts = [], []
    for g, s in split_stmt(a['att_stmt']):
        if not isinstance(s, Obj):
            continue
        b = {**a, 'att_stmt': s}
        if s.cls in UNIMPL:
            R.append(Raise('unimplemented-' + s.cls.__name__, g, er.UnimplementedError))
            continue
        kind = IMPL[s.cls][1]
        if kind == 'none':
            alts.append((g, Tup([Const(ATT.NONE), NONE])))
            continue
        Rs, c = (u2f_parts if kind == 'u2f' else android_parts)(b)
        for x in Rs:
            R.append(Raise(kind + '-' + x[0], And(g, x[1]), x[2] if len(x) > 2 else AE))
        alts.append((g, basic(c)))
    alts.append((Not(Or(*[g for g, _ in alts])), NONE))
    return Post(R, Cond(alts))


def asn1_schema(a):
    """The schema the certificate extension is decoded with is the published one.
    A closed term: evaluated, not executed symbolically."""
    return Post([], as_node(tb.KEY_DESCRIPTION))


def as_node(x):
    return Tup([as_node(y) for y in x]) if isinstance(x, tuple) else Const(x)


def _schema(I, st, fn, d):
    try:
        from webauthn_rp.asn1 import KeyDescription
        return ok(st, fn(KeyDescription()))
    except Exception as e:
        raise Unsupported('schema: %r' % (e,))


Contract('lemma.asn1_schema', ['C20'], {}, asn1_schema, summarise=False, honest=None, call=_schema)
