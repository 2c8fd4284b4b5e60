"""Contracts of the key conversions and of signature verification (C17, C18)."""
from .common import *
from .parsing import key_input

OKPN = {'ED25519': 'Ed25519', 'ED448': 'Ed448'}
EC2N = {'P_256': 'secp256r1', 'P_384': 'secp384r1', 'P_521': 'secp521r1'}
UN = er.UnimplementedError


def ec2_key(n, pre):
    return key_input('EC2', any_curve=True, alg_opt=True)(n, pre)


def okp_key(n, pre):
    return key_input('OKP', any_curve=True, alg_opt=True)(n, pre)


def either_key(n, pre):
    c = z3.Bool(n + '.ec2')
    return Cond([(c, ec2_key(n + '.e', pre)), (Not(c), okp_key(n + '.o', pre))])


def other_key(n, pre):
    """A key of a class nothing is registered for."""
    return Obj(ty.CredentialPublicKey, {
        'kty': fresh_enum(ty.COSEKeyType, n + '.kty', pre), 'alg': NONE, 'kid': NONE, 'key_ops': NONE,
        'base_IV': NONE}, pre=True)


def ec2_pk(k):
    crv = sc(fld(k, 'crv'), 'enum')
    x, y = tm.be_uint(sc(fld(k, 'x'), 'bytes')), tm.be_uint(sc(fld(k, 'y'), 'bytes'))
    name = tm.S('')
    for n, s in EC2N.items():
        name = z3.If(Or(*[crv == enum_term(m) for m in names(ty.EC2Curve, n)]), tm.S(s), name)
    supported = enum_in(fld(k, 'crv'), names(ty.EC2Curve, *EC2N))
    return supported, tm.on_curve(name, x, y), tm.ec_pk(name, x, y)


def okp_pk(k):
    crv = sc(fld(k, 'crv'), 'enum')
    x = sc(fld(k, 'x'), 'bytes')
    name = tm.S('')
    for n, s in OKPN.items():
        name = z3.If(Or(*[crv == enum_term(m) for m in names(ty.OKPCurve, n)]), tm.S(s), name)
    supported = enum_in(fld(k, 'crv'), names(ty.OKPCurve, *OKPN))
    return supported, tm.ed_ok(name, x), tm.ed_pk(name, x)


def split_key(k):
    """-> [(guard, kind, object node)]"""
    if isinstance(k, Cond):
        out = []
        for g, x in k.alts:
            out += [(And(g, h), c, y) for h, c, y in split_key(x)]
        return out
    if isinstance(k, Obj):
        kind = 'EC2' if issubclass(k.cls, ty.EC2CredentialPublicKey) else \
            'OKP' if issubclass(k.cls, ty.OKPCredentialPublicKey) else 'other'
        return [(tm.TRUE, kind, k)]
    return []


def is_key(n, *kinds):
    return lambda a: Or(*[g for g, c, _ in split_key(a[n]) if c in kinds])


CPK = 'credential_public_key'


def convert_post(a):
    R, alts = [], []
    for g, kind, k in split_key(a[CPK]):
        if kind == 'other':
            R.append(Raise('unsupported-key', g, UN))
            continue
        sup, good, pk = (ec2_pk if kind == 'EC2' else okp_pk)(k)
        R += [Raise('unsupported-%s-curve' % kind, And(g, Not(sup)), UN),
              Raise('invalid-%s-point' % kind, And(g, sup, Not(good)), er.PublicKeyConversionError)]
        alts.append((g, Sc('opq', pk, 'pk')))
    facts = []
    for g, kind, k in split_key(a[CPK]):
        if kind == 'EC2':
            facts.append(Implies(g, tm.pk_kind(ec2_pk(k)[2]) == tm.S('EC')))
        elif kind == 'OKP':
            facts.append(Implies(g, Or(tm.pk_kind(okp_pk(k)[2]) == tm.S('Ed25519'),
                                       tm.pk_kind(okp_pk(k)[2]) == tm.S('Ed448'))))
    return Post(R, Cond(alts) if alts else NONE, facts=facts)


contract('converters.cryptography_ec2_public_key', ['C18'], {CPK: ec2_key}, pre=is_key(CPK, 'EC2'))(convert_post)
contract('converters.cryptography_okp_public_key', ['C18'], {CPK: okp_key}, pre=is_key(CPK, 'OKP'))(convert_post)
contract('converters.cryptography_public_key', ['C18'], {CPK: either_key},
         pre=is_key(CPK, 'EC2', 'OKP'))(convert_post)
contract('converters.cryptography_public_key#other', ['C18'], {CPK: other_key}, pre=is_key(CPK, 'other'),
         vacuous=True)(convert_post)


def scheme(alg):
    r = tm.S('')
    for n, h in HASH.items():
        r = z3.If(enum_in(alg, names(ty.COSEAlgorithmIdentifier, n)), tm.S('ECDSA-' + h.lower()), r)
    return r


def verify_post(a):
    R = []
    sig, data = sc(a['signature'], 'bytes'), sc(a['data'], 'bytes')
    VE = er.VerificationError
    for g, kind, k in split_key(a[CPK]):
        if kind == 'other':
            R.append(Raise('unsupported-key', g, UN))
            continue
        sup, good, pk = (ec2_pk if kind == 'EC2' else okp_pk)(k)
        R += [Raise('unsupported-%s-curve' % kind, And(g, Not(sup)), UN),
              Raise('invalid-%s-point' % kind, And(g, sup, Not(good)), er.PublicKeyConversionError)]
        if kind == 'EC2':
            alg = fld(k, 'alg')
            R += [Raise('no-algorithm', And(g, none(alg)), VE),
                  Raise('bad-EC2-signature', And(g, sup, good, Not(none(alg)),
                                                 Not(tm.sig_ok(pk, sig, data, scheme(alg)))), VE)]
        else:
            R.append(Raise('bad-OKP-signature', And(g, sup, good, Not(tm.sig_ok(pk, sig, data, tm.S('EdDSA')))),
                           VE))
    return Post(R, NONE)


def verify_pre(*kinds):
    def pre(a):
        out = []
        for g, kind, k in split_key(a[CPK]):
            if kind not in kinds:
                continue
            if kind == 'EC2':
                alg = fld(k, 'alg')
                g = And(g, Or(none(alg), enum_in(alg, names(ty.COSEAlgorithmIdentifier, *HASH))))
            out.append(g)
        return And(Or(*out), is_kind(a['signature'], 'bytes'), is_kind(a['data'], 'bytes'))
    return pre


VA = {'signature': fresh_bytes, 'data': fresh_bytes}
contract('verifiers.verify_ec2_public_key', ['C18'], {CPK: ec2_key, **VA}, pre=verify_pre('EC2'))(verify_post)
contract('verifiers.verify_okp_public_key', ['C18'], {CPK: okp_key, **VA}, pre=verify_pre('OKP'))(verify_post)
contract('verifiers.verify', ['C18'], {CPK: either_key, **VA}, pre=verify_pre('EC2', 'OKP'))(verify_post)
contract('verifiers.verify#other', ['C18'], {CPK: other_key, **VA}, pre=verify_pre('other'),
         vacuous=True)(verify_post)


# ------------------------------------------------------------------- COSE keys
def nv_value(node, table, cont):
    """V term of the .value of an enumeration member given by name or number."""
    t = sc(node, 'enum')
    r = V.vnone
    for n, s, v in table:
        r = z3.If(t == mem(cont.Name, n), tm.vs(s), z3.If(t == mem(cont.Value, n), V.vint(tm.I(v)), r))
    return r


def cose_facts(k, kind, b):
    """[(name, formula)]: b encodes exactly the parameters of key k."""
    d = tm.cbor_val(b)
    q = tm.fresh(V, 'q')
    crvt, crvc = (EC2CRV, ty.EC2Curve) if kind == 'EC2' else (OKPCRV, ty.OKPCurve)
    kid, iv, ops = fld(k, 'kid'), fld(k, 'base_IV'), fld(k, 'key_ops')

    def opt_entry(key, node, val):
        return And(has(d, key) == Not(none(node)), Implies(Not(none(node)), val))
    out = [('whole-encoding', And(tm.cbor_ok(b), tm.cbor_len(b) == z3.Length(b), V.is_vdict(d))),
           ('kty', And(has(d, 1), get(d, 1) == nv_value(fld(k, 'kty'), KTY, ty.COSEKeyType))),
           ('alg', And(has(d, 3), get(d, 3) == nv_value(fld(k, 'alg'), ALG, ty.COSEAlgorithmIdentifier))),
           ('crv', And(has(d, -1), get(d, -1) == nv_value(fld(k, 'crv'), crvt, crvc))),
           ('x', And(has(d, -2), get(d, -2) == V.vbytes(sc(fld(k, 'x'), 'bytes')))),
           ('kid', opt_entry(2, kid, get(d, 2) == V.vbytes(sc(kid, 'bytes')))),
           ('base-iv', opt_entry(5, iv, get(d, 5) == V.vbytes(sc(iv, 'bytes')))),
           ('nothing-else', z3.ForAll([q], Implies(tm.dhas(d, q), Or(*[
               q == K(x) for x in (1, 2, 3, 4, 5, -1, -2, -3)[:8 if kind == 'EC2' else 7]]))))]
    if kind == 'EC2':
        out.append(('y', And(has(d, -3), get(d, -3) == V.vbytes(sc(fld(k, 'y'), 'bytes')))))
    s = [x for g, x in ops.alts if isinstance(x, Seq)] if isinstance(ops, Cond) else \
        [ops] if isinstance(ops, Seq) else []
    if s:
        j = tm.fresh(tm.Int, 'j')
        l = get(d, 4)
        val = nv_value(s[0].f(j), KEYOP, ty.COSEKeyOperation)
        out.append(('key-ops', opt_entry(4, ops, And(is_list(l), tm.llen(l) == s[0].n, z3.ForAll(
            [j], Implies(And(j >= 0, j < s[0].n), tm.lat(l, j) == val))))))
    else:
        out.append(('key-ops', has(d, 4) == Not(none(ops))))
    return out


def cose_post(a):
    b = tm.fresh(tm.Bytes, 'cose')
    facts, checks, R = [], [], []
    for g, kind, k in split_key(a[CPK]):
        if kind == 'other':
            R.append(Raise('unsupported-key', g, UN))
            continue
        facts += [Implies(g, f) for _, f in cose_facts(k, kind, b)]

        def mk(n, g=g, kind=kind, k=k):
            def chk(I, st, v):
                if kind_of(v) != 'bytes':
                    return tm.FALSE
                return Implies(g, dict(cose_facts(k, kind, term(v)))[n])
            return chk
        checks += [('encodes-' + n + '-' + kind, mk(n), None) for n, _ in cose_facts(k, kind, b)]
    return Post(R, Result(Sc('bytes', b)), call_facts=facts, checks=checks)


class Result(Free):
    """Built at call sites, checked by the contract's own predicates."""
    def __init__(self, node):
        self.node = node

    def build(self, I, st):
        return self.node.build(I, st)


def cose_pre(*kinds):
    def pre(a):
        out = []
        for g, kind, k in split_key(a[CPK]):
            if kind in kinds:
                out.append(And(g, Not(none(fld(k, 'alg')))) if kind != 'other' else g)
        return Or(*out)
    return pre


contract('converters.cose_ec2_public_key', ['C17'], {CPK: key_input('EC2', alg_opt=True)},
         pre=cose_pre('EC2'))(cose_post)
contract('converters.cose_okp_public_key', ['C17'], {CPK: key_input('OKP', alg_opt=True)},
         pre=cose_pre('OKP'))(cose_post)


def valid_key(n, pre):
    c = z3.Bool(n + '.ec2')
    return Cond([(c, key_input('EC2', alg_opt=True)(n + '.e', pre)),
                 (Not(c), key_input('OKP', alg_opt=True)(n + '.o', pre))])


contract('converters.cose_key', ['C17'], {CPK: valid_key}, pre=cose_pre('EC2', 'OKP'))(cose_post)
contract('converters.cose_key#other', ['C17'], {CPK: other_key}, pre=cose_pre('other'), vacuous=True)(cose_post)


# ------------------------------------------------------------------ round trip
def roundtrip_pre(a):
    out = [cose_pre('EC2', 'OKP')(a)]
    for g, kind, k in split_key(a['key']):
        crv = fld(k, 'crv')
        ln = tm.I(-1)
        for n in EC2N if kind == 'EC2' else OKPN:
            ln = z3.If(enum_in(crv, names(ty.EC2Curve if kind == 'EC2' else ty.OKPCurve, n)), tm.I(COORD[n]), ln)
        ok = [enum_in(fld(k, 'kty'), names(ty.COSEKeyType, kind)), z3.Length(sc(fld(k, 'x'), 'bytes')) == ln]
        if kind == 'EC2':
            ok.append(z3.Length(sc(fld(k, 'y'), 'bytes')) == ln)
        s = [x for _, x in fld(k, 'key_ops').alts if isinstance(x, Seq)][0]
        ok.append(Implies(Not(none(fld(k, 'key_ops'))), s.n >= 1))
        out.append(Implies(g, And(*ok)))
    return And(*out)


@contract('lemma.cose_roundtrip', ['C17'], {'key': valid_key}, pre=lambda a: roundtrip_pre({**a, CPK: a['key']}),
          transparent=['parsers.parse_cose_key'])
def cose_roundtrip(a):
    return Post([], a['key'])
