"""Contracts of webauthn_rp.parsers and webauthn_rp.validators."""
from .common import *

PE, DE, OE = er.ParserError, er.DecodingError, er.OriginError


# ------------------------------------------------------------------- origins
@contract('parsers.parse_origin', ['C12'], {'origin': fresh_str}, total='C25',
          opaque=lambda a: [sc(a['origin'], 'str')] if is_true(is_kind(a['origin'], 'str')) else None,
          pre=lambda a: is_kind(a['origin'], 'str'))
def parse_origin(a):
    o = sc(a['origin'], 'str')
    p = {n: f(o) for n, f in tm.url_part.items()}
    host = tm.url_hostname(o)
    http, https = p['scheme'] == tm.S('http'), p['scheme'] == tm.S('https')
    E = tm.S('')
    g = [('no-scheme-separator', Not(z3.Contains(o, tm.S('://')))),
         ('malformed-url', Not(tm.url_ok(o))),
         ('malformed-port', And(tm.url_ok(o), Not(tm.url_port_ok(o))))]
    for n in ('path', 'params', 'query', 'fragment'):
        g.append(('has-' + n, And(tm.url_ok(o), p[n] != E)))
    g += [('has-userinfo', And(tm.url_ok(o), z3.Contains(p['netloc'], tm.S('@')))),
          ('no-host', And(tm.url_ok(o), Or(Not(tm.url_has_hostname(o)), host == E))),
          ('other-scheme', And(tm.url_ok(o), Not(Or(http, https))))]
    port = z3.If(tm.url_has_port(o), tm.url_port(o), z3.If(http, tm.I(80), tm.I(443)))
    return Post([Raise(n, c, OE) for n, c in g],
                Obj(ty.Origin, {'scheme': Sc('str', p['scheme']), 'hostname': Sc('str', host),
                                'port': Sc('int', port)}))


def is_true(c):
    return z3.is_true(asb(c))


# ------------------------------------------------------ browser's credential
def b64bad(t):
    return Not(tm.b64_ok(V.us(t), tm.S('')))


def b64(t):
    return Sc('bytes', tm.b64_dec(V.us(t), tm.S('')))


@contract('parsers.parse_public_key_credential', ['C13'], {'data': any_dict}, total='C25', summarise=False)
def parse_public_key_credential(a):
    d = a['data'].t
    R = []

    def bad(name, g, exc=PE):
        R.append(Raise(name, g, exc))
    bad('unknown-keys', unknown_keys(d, ['id', 'rawId', 'response', 'type']))
    for k in ('id', 'type', 'rawId'):
        bad('bad-' + k, Not(And(has(d, k), V.is_vstr(get(d, k)))))
    bad('undecodable-rawId', And(has(d, 'rawId'), V.is_vstr(get(d, 'rawId')), b64bad(get(d, 'rawId'))), DE)
    r = get(d, 'response')
    rok = And(has(d, 'response'), V.is_vdict(r))
    bad('bad-response', Not(rok))
    att = has(r, 'attestationObject')

    def text(k, cond=tm.TRUE):
        bad('bad-' + k, And(rok, cond, Not(And(has(r, k), V.is_vstr(get(r, k))))))
        bad('undecodable-' + k, And(rok, cond, has(r, k), V.is_vstr(get(r, k)), b64bad(get(r, k))), DE)
    text('clientDataJSON')
    text('attestationObject', att)
    text('authenticatorData', Not(att))
    text('signature', Not(att))
    uh = get(r, 'userHandle')
    bad('bad-userHandle', And(rok, Not(att), Not(absent(r, 'userHandle')), Not(V.is_vstr(uh))))
    bad('undecodable-userHandle', And(rok, Not(att), has(r, 'userHandle'), V.is_vstr(uh), b64bad(uh)), DE)
    bad('unknown-attestation-keys', And(rok, att, unknown_keys(r, ['clientDataJSON', 'attestationObject'])))
    bad('unknown-assertion-keys', And(rok, Not(att), unknown_keys(
        r, ['clientDataJSON', 'authenticatorData', 'signature', 'userHandle'])))
    resp = Cond([
        (att, Obj(ty.AuthenticatorAttestationResponse,
                  {'client_data_JSON': b64(get(r, 'clientDataJSON')),
                   'attestation_object': b64(get(r, 'attestationObject'))})),
        (Not(att), Obj(ty.AuthenticatorAssertionResponse,
                       {'client_data_JSON': b64(get(r, 'clientDataJSON')),
                        'authenticator_data': b64(get(r, 'authenticatorData')),
                        'signature': b64(get(r, 'signature')),
                        'user_handle': Cond([(absent(r, 'userHandle'), NONE),
                                             (Not(absent(r, 'userHandle')), b64(uh))])}))])
    return Post(R, Obj(ty.PublicKeyCredential,
                       {'id': Sc('str', V.us(get(d, 'id'))), 'type': Sc('str', V.us(get(d, 'type'))),
                        'raw_id': b64(get(d, 'rawId')), 'response': resp}))


# ------------------------------------------------------------------ COSE keys
def cose_common(d):
    """Parameters that do not depend on the key type."""
    kty, alg = get(d, 1), get(d, 3)
    R = [('bad-kty', Not(And(has(d, 1), nv_known(kty, KTY)))),
         ('bad-alg', Not(And(has(d, 3), nv_known(alg, ALG)))),
         ('bad-kid', And(Not(absent(d, 2)), Not(V.is_vbytes(get(d, 2))))),
         ('bad-base-iv', And(Not(absent(d, 5)), Not(V.is_vbytes(get(d, 5)))))]
    ops = get(d, 4)
    R.append(('bad-key-ops', And(Not(absent(d, 4)),
                                 Not(And(is_list(ops), tm.llen(ops) >= 1,
                                         all_items(ops, lambda t: nv_known(t, KEYOP)))))))
    fields = {'kty': nv_enum(kty, KTY, ty.COSEKeyType), 'alg': nv_enum(alg, ALG, ty.COSEAlgorithmIdentifier),
              'kid': Cond([(absent(d, 2), NONE), (Not(absent(d, 2)), Sc('bytes', V.uy(get(d, 2))))]),
              'base_IV': Cond([(absent(d, 5), NONE), (Not(absent(d, 5)), Sc('bytes', V.uy(get(d, 5))))]),
              'key_ops': Cond([(absent(d, 4), NONE),
                               (Not(absent(d, 4)), Seq(tm.llen(ops), lambda i: nv_enum(
                                   tm.lat(ops, i), KEYOP, ty.COSEKeyOperation)))])}
    return R, fields


def coordinate(d, k, crv_table):
    crv, v = get(d, -1), get(d, k)
    return Not(And(has(d, k), V.is_vbytes(v), Implies(And(has(d, -1), nv_known(crv, crv_table)),
                                                     z3.Length(V.uy(v)) == nv_len(crv, crv_table))))


def okp_parts(d):
    R, f = cose_common(d)
    R += [('bad-okp-curve', Not(And(has(d, -1), nv_known(get(d, -1), OKPCRV)))),
          ('bad-okp-x', coordinate(d, -2, OKPCRV))]
    f.update(crv=nv_enum(get(d, -1), OKPCRV, ty.OKPCurve), x=Sc('bytes', V.uy(get(d, -2))))
    return R, Obj(ty.OKPCredentialPublicKey, f)


def ec2_parts(d):
    R, f = cose_common(d)
    R += [('bad-ec2-curve', Not(And(has(d, -1), nv_known(get(d, -1), EC2CRV)))),
          ('bad-ec2-x', coordinate(d, -2, EC2CRV)), ('bad-ec2-y', coordinate(d, -3, EC2CRV))]
    f.update(crv=nv_enum(get(d, -1), EC2CRV, ty.EC2Curve), x=Sc('bytes', V.uy(get(d, -2))),
             y=Sc('bytes', V.uy(get(d, -3))))
    return R, Obj(ty.EC2CredentialPublicKey, f)


def dict_pre(*ns):
    return lambda a: And(*[is_kind(a[n], 'dict') for n in ns])


def vt(a):
    return a.t if isinstance(a, Any_) else sc_any(a)


def sc_any(s):
    """V term of a node that is a decoded value."""
    if isinstance(s, Cond):
        r = None
        for g, x in reversed(s.alts):
            t = vt(x)
            r = t if r is None else z3.If(g, t, r)
        return r
    if isinstance(s, Any_):
        return s.t
    if isinstance(s, Sc):
        return {'bool': V.vbool, 'int': V.vint, 'str': V.vstr, 'bytes': V.vbytes}[s.kind](s.t)
    return V.vnone


def opq_any(n):
    return lambda a: [vt(a[n])] if isinstance(a[n], (Any_, Cond, Sc)) else None


@contract('parsers.parse_okp_public_key', ['C16'], {'credential_public_key': any_dict}, total='C25',
          pre=dict_pre('credential_public_key'))
def parse_okp_public_key(a):
    R, o = okp_parts(vt(a['credential_public_key']))
    return Post([Raise(n, g, PE) for n, g in R], o)


@contract('parsers.parse_ec2_public_key', ['C16'], {'credential_public_key': any_dict}, total='C25',
          pre=dict_pre('credential_public_key'))
def parse_ec2_public_key(a):
    R, o = ec2_parts(vt(a['credential_public_key']))
    return Post([Raise(n, g, PE) for n, g in R], o)


def bytes_or_dict(n, pre):
    c = z3.Bool(n + '.isbytes')
    d = z3.Const(n, V)
    pre.append(Implies(Not(c), V.is_vdict(d)))
    return Cond([(c, Sc('bytes', z3.Const(n + '.bytes', tm.Bytes))), (Not(c), Any_(d))])


def key_pre(a):
    k = a['credential_public_key']
    return Or(is_kind(k, 'dict'), is_kind(k, 'bytes'))


def cose_key_node(d):
    """The parsed key and the reasons to refuse the decoded map d."""
    okp, ec2 = nv_is(get(d, 1), KTY, 'OKP'), nv_is(get(d, 1), KTY, 'EC2')
    R = [('unsupported-kty', Not(And(has(d, 1), Or(okp, ec2))))]
    Ro, oo = okp_parts(d)
    Re, oe = ec2_parts(d)
    seen = set()
    for g, rs in ((okp, Ro), (ec2, Re)):
        for n, c in rs:
            R.append((n if n not in seen else n + '-ec2', And(has(d, 1), g, c)))
            seen.add(n)
    return R, Cond([(okp, oo), (Not(okp), oe)])


@contract('parsers.parse_cose_key', ['C16'], {'credential_public_key': bytes_or_dict}, total='C25',
          pre=key_pre, opaque=opq_any('credential_public_key'), expose=True)
def parse_cose_key(a):
    k = a['credential_public_key']
    isb = is_kind(k, 'bytes')
    raw = sc(k, 'bytes')
    d = vt(k) if is_false(isb) else tm.cbor_val(raw) if is_true(isb) else \
        z3.If(isb, tm.cbor_val(raw), vt(k))
    dec = Or(Not(isb), tm.cbor_ok(raw))
    R, node = cose_key_node(d)
    Rs = [Raise('undecodable', And(isb, Not(tm.cbor_ok(raw))), DE),
          Raise('not-a-map', And(isb, tm.cbor_ok(raw), Not(V.is_vdict(d))), PE)]
    Rs += [Raise(n, And(dec, V.is_vdict(d), g), PE) for n, g in R]
    return Post(Rs, node)


def is_false(c):
    return z3.is_false(asb(c))


def key_valid_guard(k, kind):
    crv, alg = fld(k, 'crv'), fld(k, 'alg')
    if kind == 'EC2':
        okc = enum_in(crv, names(ty.EC2Curve, 'P_256', 'P_384', 'P_521'))
        oka = enum_in(alg, names(ty.COSEAlgorithmIdentifier, 'ES256', 'ES384', 'ES512'))
    else:
        okc = enum_in(crv, names(ty.OKPCurve, 'ED25519', 'ED448'))
        oka = enum_in(alg, names(ty.COSEAlgorithmIdentifier, 'EDDSA'))
    return Not(okc), Not(oka)


def key_input(kind, any_curve=False, alg_opt=False):
    def mk(n, pre):
        cls = ty.EC2CredentialPublicKey if kind == 'EC2' else ty.OKPCredentialPublicKey
        crv = (ty.EC2Curve.Name, ty.EC2Curve.Value) if kind == 'EC2' else (ty.OKPCurve.Name, ty.OKPCurve.Value)
        if any_curve:
            crv = (ty.EC2Curve.Name, ty.EC2Curve.Value, ty.OKPCurve.Name, ty.OKPCurve.Value)
        alg = fresh_enum(ty.COSEAlgorithmIdentifier, n + '.alg', pre)
        f = {'x': fresh_bytes(n + '.x', pre), 'crv': fresh_enum(crv, n + '.crv', pre),
             'kty': fresh_enum(ty.COSEKeyType, n + '.kty', pre), 'alg': opt(alg, n + '.alg') if alg_opt else alg,
             'kid': opt(fresh_bytes(n + '.kid', pre), n + '.kid'), 'key_ops': key_ops_input(n + '.ops', pre),
             'base_IV': opt(fresh_bytes(n + '.iv', pre), n + '.iv')}
        if kind == 'EC2':
            f['y'] = fresh_bytes(n + '.y', pre)
        return Obj(cls, f, pre=True)
    return mk


def key_ops_input(n, pre):
    ln, f = z3.Int(n + '.n'), tm.uf('ops@' + n, tm.Int, tm.Int)
    cs = (ty.COSEKeyOperation.Name, ty.COSEKeyOperation.Value)
    i = tm.fresh(tm.Int, 'i')
    pre += [ln >= 0, ln < 2 ** 62, z3.ForAll([i], enum_domain(f(i), cs))]
    return opt(Seq(ln, lambda i: Enm(f(i), cs)), n)


def validate_contract(name, kind):
    def pre(a):
        k = a['credential_public_key']
        return And(isinst(k, ty.EC2CredentialPublicKey if kind == 'EC2' else ty.OKPCredentialPublicKey),
                   enum_in(fld(k, 'kty'), names(ty.COSEKeyType, kind)), Not(none(fld(k, 'alg'))),
                   Not(none(fld(k, 'crv'))))

    @contract(name, ['C16'], {'credential_public_key': key_input(kind, True)}, pre=pre)
    def f(a):
        c, g = key_valid_guard(a['credential_public_key'], kind)
        return Post([Raise('curve-of-other-type', c, er.ValidationError),
                     Raise('alg-of-other-type', g, er.ValidationError)], NONE)


validate_contract('validators.validate_ec2_public_key', 'EC2')
validate_contract('validators.validate_okp_public_key', 'OKP')


# ----------------------------------------------------------------- extensions
EXT = {'appid': 'appid', 'txAuthSimple': 'tx_auth_simple', 'txAuthGeneric': 'tx_auth_generic',
       'authnSel': 'authn_sel', 'exts': 'exts', 'uvi': 'uvi', 'loc': 'loc', 'uvm': 'uvm',
       'biometricPerfBounds': 'biometric_perf_bounds'}
LOC = {'latitude': 'latitude', 'longitude': 'longitude', 'altitude': 'altitude', 'accuracy': 'accuracy',
       'altitudeAccuracy': 'altitude_accuracy', 'heading': 'heading', 'speed': 'speed'}


def ext_parts(d):
    R = [('unknown-extension', unknown_keys(d, EXT))]

    def typed(k, pred):
        R.append(('bad-' + k, And(Not(absent(d, k)), Not(pred(get(d, k))))))
    for k in ('appid', 'authnSel', 'biometricPerfBounds'):
        typed(k, V.is_vbool)
    typed('txAuthSimple', V.is_vstr)
    for k in ('txAuthGeneric', 'uvi'):
        typed(k, V.is_vbytes)
    typed('exts', lambda t: And(is_list(t), all_items(t, V.is_vstr)))
    typed('uvm', lambda t: And(is_list(t, False), all_items(t, lambda e: And(
        is_list(e, False), all_items(e, V.is_vint)))))
    loc = get(d, 'loc')
    i = tm.fresh(tm.Int, 'lc')
    typed('loc', V.is_vdict)
    R.append(('bad-loc-value', And(Not(absent(d, 'loc')), V.is_vdict(loc), z3.Exists([i], And(
        i >= 0, i < tm.dlen(loc), Not(Or(V.is_vint(dval(loc, i)), V.is_vflt(dval(loc, i)))))))))
    R.append(('unknown-loc-field', And(Not(absent(d, 'loc')), V.is_vdict(loc), unknown_keys(loc, LOC))))
    f = {attr: Any_(field(d, k)) for k, attr in EXT.items()}
    f['loc'] = Cond([(absent(d, 'loc'), NONE),
                     (Not(absent(d, 'loc')), Obj(ty.Coordinates, {attr: Any_(field(loc, k))
                                                                  for k, attr in LOC.items()}))])
    return R, Obj(ty.AuthenticationExtensionsClientOutputs, f)


def norm_key(key):
    return z3.If(V.is_vbool(key), V.vint(z3.If(V.ub(key), tm.I(1), tm.I(0))),
                 z3.If(And(V.is_vflt(key), tm.flt_isint(V.uf(key))), V.vint(tm.flt_int(V.uf(key))), key))


def dval(d, i):
    return tm.dget(d, norm_key(tm.dkey(d, i)))


@contract('parsers.parse_extensions', ['C22'], {'extensions': any_dict}, total='C25', pre=dict_pre('extensions'),
          opaque=opq_any('extensions'))
def parse_extensions(a):
    R, o = ext_parts(vt(a['extensions']))
    return Post([Raise(n, g, PE) for n, g in R], o)


# ------------------------------------------------------ attestation statements
def alg_bad(d):
    return Not(And(has(d, 'alg'), nv_known(get(d, 'alg'), ALG)))


def bytes_bad(d, k):
    return Not(And(has(d, k), V.is_vbytes(get(d, k))))


def str_bad(d, k):
    return Not(And(has(d, k), V.is_vstr(get(d, k))))


def x5c_bad(d):
    return Not(And(has(d, 'x5c'), is_list(get(d, 'x5c')), all_items(get(d, 'x5c'), V.is_vbytes)))


STMT = {'alg': lambda d: nv_enum(get(d, 'alg'), ALG, ty.COSEAlgorithmIdentifier), 'sig': 'bytes', 'x5c': 'any',
        'ver': 'str', 'certInfo': 'bytes', 'pubArea': 'bytes', 'ecdaaKeyId': 'bytes', 'response': 'bytes'}
ATTR = {'certInfo': 'cert_info', 'pubArea': 'pub_area', 'ecdaaKeyId': 'ecdaa_key_id'}


def stmt_field(d, k):
    s = STMT[k]
    if callable(s):
        return s(d)
    if s == 'any':
        return Any_(get(d, k))
    return Sc(s, {'bytes': V.uy, 'str': V.us}[s](get(d, k)))


def stmt_bad(d, k):
    return {'alg': alg_bad, 'x5c': x5c_bad}.get(k, lambda d: (str_bad if STMT[k] == 'str' else bytes_bad)(d, k))(d)


def stmt_obj(cls, d, ks):
    return Obj(cls, {ATTR.get(k, k): stmt_field(d, k) for k in ks})


def stmt_parts(d, keys, plain, x509=None, ecdaa=None):
    R = [('bad-' + k, stmt_bad(d, k)) for k in keys]
    if x509 is None:
        R.append(('unknown-keys', unknown_keys(d, keys)))
        return R, stmt_obj(plain, d, keys)
    hx, he = has(d, 'x5c'), And(Not(has(d, 'x5c')), has(d, 'ecdaaKeyId'))
    neither = And(Not(has(d, 'x5c')), Not(has(d, 'ecdaaKeyId')))
    R += [('bad-x5c', And(hx, x5c_bad(d))), ('bad-ecdaaKeyId', And(he, bytes_bad(d, 'ecdaaKeyId'))),
          ('unknown-keys-x5c', And(hx, unknown_keys(d, keys + ['x5c']))),
          ('unknown-keys-ecdaa', And(he, unknown_keys(d, keys + ['ecdaaKeyId']))),
          ('unknown-keys', And(neither, unknown_keys(d, keys)))]
    return R, Cond([(hx, stmt_obj(x509, d, keys + ['x5c'])), (he, stmt_obj(ecdaa, d, keys + ['ecdaaKeyId'])),
                    (neither, stmt_obj(plain, d, keys))])


STMTS = {
    'PACKED': ('packed', ['alg', 'sig'], ty.PackedAttestationStatement, ty.PackedX509AttestationStatement,
               ty.PackedECDAAAttestationStatement),
    'TPM': ('tpm', ['alg', 'sig', 'ver', 'certInfo', 'pubArea'], ty.TPMAttestationStatement,
            ty.TPMX509AttestationStatement, ty.TPMECDAAAttestationStatement),
    'ANDROID_KEY': ('android_key', ['alg', 'sig', 'x5c'], ty.AndroidKeyAttestationStatement),
    'ANDROID_SAFETYNET': ('android_safetynet', ['ver', 'response'], ty.AndroidSafetyNetAttestationStatement),
    'FIDO_U2F': ('fido_u2f', ['sig', 'x5c'], ty.FIDOU2FAttestationStatement),
    'NONE': ('none', [], ty.NoneAttestationStatement)}


def stmt_contract(short, keys, *classes):
    @contract('parsers.parse_%s_attestation_statement' % short, ['C21'], {'att_stmt': any_dict}, total='C25',
              pre=dict_pre('att_stmt'), opaque=opq_any('att_stmt'))
    def f(a):
        R, o = stmt_parts(vt(a['att_stmt']), keys, *classes)
        return Post([Raise(n, g, PE) for n, g in R], o)


for _v in STMTS.values():
    stmt_contract(*_v)


# ---------------------------------------------------------------- client data
def tb_known(t):
    return And(V.is_vstr(t), Or(V.us(t) == tm.S('supported'), V.us(t) == tm.S('present')))


def tb_node(d):
    """Token binding of the client data map d (no refusal)."""
    tb = get(d, 'tokenBinding')
    no = absent(d, 'tokenBinding')
    st = get(tb, 'status')
    status = Enm(z3.If(st == tm.vs('supported'), mem(ty.TokenBindingStatus, 'SUPPORTED'),
                       mem(ty.TokenBindingStatus, 'PRESENT')), ty.TokenBindingStatus)
    return Cond([(no, NONE), (Not(no), Obj(ty.TokenBinding, {'status': status, 'id': Any_(field(tb, 'id'), 'json')}))])


def client_data_node(b):
    d = tm.json_val(tm.utf8_dec(b))
    return Obj(ty.CollectedClientData,
               {'type': Sc('str', V.us(get(d, 'type'))), 'challenge': Sc('str', V.us(get(d, 'challenge'))),
                'origin': Sc('str', V.us(get(d, 'origin'))), 'token_binding': tb_node(d)})


@contract('parsers.parse_client_data', ['C14'], {'client_data_JSON': fresh_bytes}, total='C25',
          pre=lambda a: is_kind(a['client_data_JSON'], 'bytes'),
          opaque=lambda a: [sc(a['client_data_JSON'], 'bytes')])
def parse_client_data(a):
    b = sc(a['client_data_JSON'], 'bytes')
    t = tm.utf8_dec(b)
    d = tm.json_val(t)
    dec = And(tm.utf8_ok(b), tm.json_ok(t))
    R = [Raise('not-utf8', Not(tm.utf8_ok(b)), DE), Raise('not-json', And(tm.utf8_ok(b), Not(tm.json_ok(t))), DE),
         Raise('not-an-object', And(dec, Not(V.is_vdict(d))), PE)]
    ob = And(dec, V.is_vdict(d))
    for k in ('type', 'challenge', 'origin'):
        R.append(Raise('bad-' + k, And(ob, Not(And(has(d, k), V.is_vstr(get(d, k))))), PE))
    tb = get(d, 'tokenBinding')
    some = And(ob, Not(absent(d, 'tokenBinding')))
    R += [Raise('bad-token-binding', And(some, Not(V.is_vdict(tb))), PE),
          Raise('bad-token-binding-status', And(some, V.is_vdict(tb), Not(
              And(has(tb, 'status'), tb_known(get(tb, 'status'))))), PE),
          Raise('present-without-id', And(some, V.is_vdict(tb), has(tb, 'status'),
                                          get(tb, 'status') == tm.vs('present'), absent(tb, 'id')), PE)]
    return Post(R, client_data_node(b))


# ---------------------------------------------------------- authenticator data
def bit(n, i):
    return (n / tm.I(1 << i)) % 2 == 1


def auth_layout(b):
    """Offsets and parts of authenticator data b."""
    n = z3.Length(b)
    flags = b[32]
    at, ed = bit(flags, 6), bit(flags, 7)
    idlen = tm.be_uint(b_slice(b, 53, 2))
    kpos = tm.I(55) + idlen
    rest = b_slice(b, kpos, n - kpos)
    kend = kpos + tm.cbor_len(rest)
    epos = z3.If(at, kend, tm.I(37))
    return dict(n=n, flags=flags, at=at, ed=ed, idlen=idlen, kpos=kpos, rest=rest, kend=kend)


def auth_parts(b):
    L = auth_layout(b)
    n, at, ed = L['n'], L['at'], L['ed']
    short = n < 37
    key = tm.cbor_val(L['rest'])
    head = And(n >= 55, n >= L['kpos'])
    kdec = And(L['kpos'] < n, tm.cbor_ok(L['rest']))
    Rk, knode = cose_key_node(key)
    bad_key = Or(*[g for _, g in Rk])
    u = tm.uf('raises:parsers.parse_cose_key:ParserError', V, tm.Bool)
    keyref = And(kdec, V.is_vdict(key))
    okk = And(Not(short), at, head, keyref)
    inv = invalid_key(knode)
    R = [Raise('too-short', short, PE),
         Raise('truncated-credential-data', And(Not(short), at, Not(head)), PE),
         Raise('undecodable-key', And(Not(short), at, head, Not(kdec)), DE),
         Raise('key-not-a-map', And(Not(short), at, head, kdec, Not(V.is_vdict(key))), PE),
         Raise('bad-key', And(okk, u(key)), PE),
         Raise('bad-key-encoding', And(okk, tm.uf('raises:parsers.parse_cose_key:DecodingError', V, tm.Bool)(key)), DE),
         Raise('invalid-key', And(okk, Not(u(key)), inv), er.ValidationError)]
    ext_ok = []
    alts = {}
    for g, pos, nm in ((And(Not(short), at), L['kend'], 'after-key'), (And(Not(short), Not(at)), tm.I(37), 'alone')):
        pre = And(g, okk) if nm == 'after-key' else g
        rest = b_slice(b, pos, n - pos)
        dec = And(pos < n, tm.cbor_ok(rest))
        x = tm.cbor_val(rest)
        ux = tm.uf('raises:parsers.parse_extensions:ParserError', V, tm.Bool)(x)
        R += [Raise('undecodable-extensions-' + nm, And(pre, ed, Not(dec)), DE),
              Raise('extensions-not-a-map-' + nm, And(pre, ed, dec, Not(V.is_vdict(x))), PE),
              Raise('bad-extensions-' + nm, And(pre, ed, dec, V.is_vdict(x), ux), PE),
              Raise('leftover-' + nm, And(pre, Not(ed), n != pos), PE),
              Raise('leftover-extensions-' + nm, And(pre, ed, dec, n != pos + tm.cbor_len(rest)), PE)]
        alts[nm] = ext_parts(x)[1]
    acd = Cond([(at, Obj(ty.AttestedCredentialData,
                         {'aaguid': Sc('bytes', b_slice(b, 37, 16)), 'credential_id_length': Sc('int', L['idlen']),
                          'credential_id': Sc('bytes', b_slice(b, 55, L['idlen'])),
                          'credential_public_key': knode})), (Not(at), NONE)])
    ext = Cond([(Not(ed), NONE), (And(ed, at), alts['after-key']), (And(ed, Not(at)), alts['alone'])])
    obj = Obj(ty.AuthenticatorData,
              {'rp_id_hash': Sc('bytes', b_slice(b, 0, 32)), 'flags': Sc('int', L['flags']),
               'sign_count': Sc('int', tm.be_uint(b_slice(b, 33, 4))), 'attested_credential_data': acd,
               'extensions': ext})
    return R, obj


def invalid_key(k):
    out = []
    for g, x in k.alts:
        c, al = key_valid_guard(x, 'EC2' if x.cls is ty.EC2CredentialPublicKey else 'OKP')
        out.append(And(g, Or(c, al)))
    return Or(*out)


@contract('parsers.parse_authenticator_data', ['C15'], {'auth_data': fresh_bytes}, total='C25',
          pre=lambda a: is_kind(a['auth_data'], 'bytes'), opaque=lambda a: [sc(a['auth_data'], 'bytes')])
def parse_authenticator_data(a):
    b = sc(a['auth_data'], 'bytes')
    R, o = auth_parts(b)
    L = auth_layout(b)
    cnt = tm.be_uint(b_slice(b, 33, 4))
    return Post(R, o, facts=[L['n'] >= 37, And(cnt >= 0, cnt < tm.I(1 << 32)),
                             Implies(L['at'], And(L['idlen'] >= 0, L['idlen'] < tm.I(1 << 16), L['n'] > L['kpos']))])


# ---------------------------------------------------------- attestation object
@contract('parsers.parse_attestation_object', ['C21'], {'attestation_object': fresh_bytes}, total='C25',
          pre=lambda a: is_kind(a['attestation_object'], 'bytes'),
          opaque=lambda a: [sc(a['attestation_object'], 'bytes')])
def parse_attestation_object(a):
    b = sc(a['attestation_object'], 'bytes')
    d = tm.cbor_val(b)
    dec = tm.cbor_ok(b)
    m = And(dec, V.is_vdict(d))
    R = [Raise('undecodable', Not(dec), DE), Raise('not-a-map', And(dec, Not(V.is_vdict(d))), PE)]
    for k in ('authData', 'fmt', 'attStmt'):
        R.append(Raise('missing-' + k, And(m, Not(has(d, k))), PE))
    fmt, ad, s = get(d, 'fmt'), get(d, 'authData'), get(d, 'attStmt')
    three = And(m, has(d, 'authData'), has(d, 'fmt'), has(d, 'attStmt'))
    R += [Raise('bad-fmt', And(three, Not(And(V.is_vstr(fmt), Or(*[V.us(fmt) == tm.S(t) for _, t in FMT])))), PE),
          Raise('bad-authData', And(three, Not(V.is_vbytes(ad))), PE),
          Raise('bad-attStmt', And(three, Not(V.is_vdict(s))), PE)]
    raw = V.uy(ad)
    for exc in (PE, DE, er.ValidationError):
        u = tm.uf('raises:parsers.parse_authenticator_data:' + exc.__name__, tm.Bytes, tm.Bool)
        R.append(Raise('authData-' + exc.__name__, And(three, V.is_vbytes(ad), u(raw)), exc))
    alts = []
    idx = tm.I(-1)
    for n, t in reversed(FMT):
        idx = z3.If(fmt == tm.vs(t), mem(ty.AttestationStatementFormatIdentifier, n), idx)
    for n, t in FMT:
        v = STMTS[n]
        u = tm.uf('raises:parsers.parse_%s_attestation_statement:ParserError' % v[0], V, tm.Bool)
        R.append(Raise('bad-statement-' + v[0], And(three, fmt == tm.vs(t), V.is_vdict(s), u(s)), PE))
        alts.append((fmt == tm.vs(t), stmt_parts(s, *v[1:])[1]))
    obj = Obj(ty.AttestationObject, {'auth_data': auth_parts(raw)[1],
                                     'fmt': Enm(idx, ty.AttestationStatementFormatIdentifier),
                                     'att_stmt': Cond(alts)})
    return Post(R, Tup([obj, Any_(d)]), facts=[V.is_vdict(d), has(d, 'authData'), V.is_vbytes(ad),
                                               Or(*[fmt == tm.vs(t) for _, t in FMT])])
