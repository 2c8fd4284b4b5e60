"""Contracts of the two ceremonies (C01-C11, C26)."""
import dis
import inspect
from .common import *
from .parsing import EXT, auth_parts, client_data_node, stmt_parts, STMTS, ext_parts
from .crypto import key_input, verify_post, verify_pre
from . import attest as at
import webauthn_rp.registrars as rg
import webauthn_rp.backends as bk

LE = er.WebAuthnRPError
INPUTS = {}


# ------------------------------------------------------------------ the registrar
def registrar_handler(I, st, name, args, kw):
    """The registrar's interface: any answer, any exception; what it is asked is recorded."""
    from pyvc.ops import ok, err
    sig = inspect.signature(getattr(rg.CredentialsRegistrar, name)) if hasattr(rg.CredentialsRegistrar, name) else None
    if sig is None:
        raise Unsupported('registrar attribute %s' % name)
    try:
        b = sig.bind(None, *args, **kw)
    except TypeError:
        return err(st, TypeError, 'registrar call')
    b.apply_defaults()
    d = dict(list(b.arguments.items())[1:])
    inp = I.inputs
    out = []
    if name == 'get_credential_data':
        st = st.event('get', d)
        boom, ans = inp['*get_raises'], inp['*answer']
    else:
        st = st.event('register', name, d)
        boom, ans = inp['*reg_raises'], inp['*reg_answer']
    for s, b in I.branch(st, term(boom)):
        if b:
            out.append((s, 'x', ExcV(Exception, ('…',), False)))
        else:
            out += ok(s, ans)
    return out


def backend_input(n, pre):
    """A backend as its constructor leaves it: the registrar, and constants; other state is not described."""
    mark, fields = object(), {}
    try:
        fields = vars(bk.CredentialsBackend(mark))
    except Exception:
        pass
    later = {i.argval for n, f in vars(bk.CredentialsBackend).items() if n != '__init__' and inspect.isfunction(f)
             for i in dis.get_instructions(f) if i.opname == 'STORE_ATTR'}
    described = {k: Const(v) for k, v in fields.items() if k not in later and (
        v is None or type(v) in (bool, int, str, bytes))}
    described.update({k: Raw(Tag('registrar', registrar_handler)) for k, v in fields.items() if v is mark})
    return Obj(bk.CredentialsBackend, described, pre=True)


def origins_input(n, pre):
    one = z3.Bool(n + '.is_str')
    ln, f = z3.Int(n + '.n'), tm.uf('origins@' + n, tm.Int, tm.Str)
    pre += [ln >= 0, ln < 2 ** 62]
    return Cond([(one, Sc('str', z3.Const(n + '.str', tm.Str))),
                 (Not(one), Seq(ln, lambda i: Sc('str', f(i))))])


def user_input(n, pre):
    return Obj(ty.PublicKeyCredentialUserEntity, {
        'name': fresh_str(n + '.name', pre), 'icon': opt(fresh_str(n + '.icon', pre), n + '.icon'),
        'id': fresh_bytes(n + '.id', pre), 'display_name': fresh_str(n + '.dn', pre)}, pre=True)


def rp_input(n, pre):
    return Obj(ty.PublicKeyCredentialRpEntity, {
        'name': fresh_str(n + '.name', pre), 'icon': opt(fresh_str(n + '.icon', pre), n + '.icon'),
        'id': fresh_str(n + '.id', pre)}, pre=True)


def tb_input(n, pre):
    return opt(Obj(ty.TokenBinding, {'status': fresh_enum(ty.TokenBindingStatus, n + '.status', pre),
                                     'id': opt(fresh_str(n + '.id', pre), n + '.id')}, pre=True), n)


def exts_input(n, pre):
    return opt(EnumSet({m: z3.Bool('%s.%s' % (n, m.name)) for m in ty.ExtensionIdentifier}), n)


def bool_input(n, pre):
    return Sc('bool', z3.Bool(n))


def att_credential(n, pre):
    return Obj(ty.PublicKeyCredential, {
        'id': fresh_str(n + '.id', pre), 'type': fresh_str(n + '.type', pre), 'raw_id': fresh_bytes(n + '.raw', pre),
        'response': Obj(ty.AuthenticatorAttestationResponse, {
            'client_data_JSON': fresh_bytes(n + '.cdj', pre),
            'attestation_object': fresh_bytes(n + '.ao', pre)}, pre=True)}, pre=True)


def ass_credential(n, pre):
    return Obj(ty.PublicKeyCredential, {
        'id': fresh_str(n + '.id', pre), 'type': fresh_str(n + '.type', pre), 'raw_id': fresh_bytes(n + '.raw', pre),
        'response': Obj(ty.AuthenticatorAssertionResponse, {
            'client_data_JSON': fresh_bytes(n + '.cdj', pre), 'authenticator_data': fresh_bytes(n + '.ad', pre),
            'signature': fresh_bytes(n + '.sig', pre),
            'user_handle': opt(fresh_bytes(n + '.uh', pre), n + '.uh')}, pre=True)}, pre=True)


def any_answer(n, pre):
    return Any_(z3.Const(n, V), 'json')       # printable


# ------------------------------------------------------------------ vocabulary
def opaque(contract, exc, key):
    return tm.uf('raises:%s:%s' % (contract, exc.__name__), key.sort(), tm.Bool)(key)


def origin_of(o):
    """(refused, scheme, host, port) of the origin o, as parse_origin's contract says."""
    r = REG['parsers.parse_origin'].post({'origin': Sc('str', o)}).result
    return opaque('parsers.parse_origin', er.OriginError, o), [r.fields[k].t for k in ('scheme', 'hostname', 'port')]


def same_origin(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def client_data_cases(a, typ):
    """Refusals shared by both ceremonies: client data against the expectations."""
    b = sc(fld(fld(a['credential'], 'response'), 'client_data_JSON'), 'bytes')
    P = 'parsers.parse_client_data'
    cd = client_data_node(b)
    refused = Or(opaque(P, er.DecodingError, b), opaque(P, er.ParserError, b))
    okd = Not(refused)
    R = [('client-data-undecodable', opaque(P, er.DecodingError, b), er.DecodingError),
         ('client-data-malformed', opaque(P, er.ParserError, b), er.ParserError),
         ('client-data-type', And(okd, sc(cd.fields['type'], 'str') != tm.S(typ)), er.ClientDataTypeError)]
    ch = z3.Concat(sc(cd.fields['challenge'], 'str'), tm.S('==='))
    chok, chb = tm.b64_ok(ch, tm.S('-_')), tm.b64_dec(ch, tm.S('-_'))
    R += [('challenge-undecodable', And(okd, Not(chok)), er.DecodingError,
          And(okd, Not(tm.b64_text(sc(cd.fields['challenge'], 'str'), tm.S('-_'))))),
          ('challenge', And(okd, chok, chb != sc(a['expected_challenge'], 'bytes')), er.ChallengeError)]
    # origins
    bad, parts = origin_of(sc(cd.fields['origin'], 'str'))
    R.append(('client-origin-malformed', And(okd, bad), er.OriginError))
    eo = a['expected_origin']
    for g, x in (eo.alts if isinstance(eo, Cond) else [(tm.TRUE, eo)]):
        if isinstance(x, Seq):
            i = tm.fresh(tm.Int, 'oi')
            ebad, ep = origin_of(sc(x.f(i), 'str'))
            rng = And(i >= 0, i < x.n)
            R += [('no-expected-origin', And(g, x.n == 0), er.OriginError),
                  ('expected-origin-malformed-in-collection', And(g, z3.Exists([i], And(rng, ebad))), er.OriginError),
                  ('origin-not-in-collection', And(g, okd, Not(bad), Not(z3.Exists([i], And(
                      rng, same_origin(ep, parts))))), er.OriginError)]
        else:
            ebad, ep = origin_of(sc(x, 'str'))
            R += [('expected-origin-malformed', And(g, ebad), er.OriginError),
                  ('origin', And(g, okd, Not(bad), Not(same_origin(ep, parts))), er.OriginError)]
    # token binding
    tb, ctb = a['token_binding'], cd.fields['token_binding']
    some = Not(none(tb))
    R += [('token-binding-unexpected', And(okd, Not(some), Not(none(ctb))), er.TokenBindingError),
          ('token-binding-missing', And(okd, some, none(ctb)), er.TokenBindingError)]
    both = And(okd, some, Not(none(ctb)))
    eid, cid = fld(tb, 'id'), fld(ctb, 'id').t
    same_id = z3.If(none(eid), V.is_vnone(cid), cid == V.vstr(sc(eid, 'str')))
    R += [('token-binding-status', And(both, sc(fld(tb, 'status'), 'enum') != sc(fld(ctb, 'status'), 'enum')),
           er.TokenBindingError),
          ('token-binding-id', And(both, Not(same_id)), er.TokenBindingError)]
    return R, okd, b


def rp_hash(rp):
    i = sc(fld(rp, 'id'), 'str')
    return tm.utf8_encodable(i), tm.sha256(tm.utf8_enc(i))


def auth_data_cases(a, ad, okd, hashed):
    """RP id hash, gestures and extensions of the parsed authenticator data."""
    flags = sc(fld(ad, 'flags'), 'int')

    def bit(i):
        return (flags / tm.I(1 << i)) % 2 == 1
    enc, h = hashed
    R = [('rp-id-hash', And(okd, enc, sc(fld(ad, 'rp_id_hash'), 'bytes') != h), er.RPIDHashError),
         ('user-presence', And(okd, Not(bit(0))), er.UserPresenceError),
         ('user-verification', And(okd, sc(a['require_user_verification'], 'bool'), Not(bit(2))),
          er.UserVerificationError)]
    ee = a['expected_extensions']
    x = fld(ad, 'extensions')
    for g, s in (ee.alts if isinstance(ee, Cond) else [(tm.TRUE, ee)]):
        if not isinstance(s, EnumSet):
            continue
        for m, h in s.guards.items():
            v = fld(x, EXT[m.value])
            R.append(('extension-' + m.name, And(g, h, okd, none_or_absent(x, EXT[m.value])), er.ExtensionError))
    return R


def none_or_absent(x, attr):
    """The extensions object is missing, or its attribute is None."""
    out = []
    for g, s in x.alts:
        out.append(And(g, tm.TRUE if isinstance(s, Const) else none_or_absent(s, attr) if isinstance(s, Cond)
                       else none(s.fields[attr])))
    return Or(*out)


PR1 = {'client': ['C01'], 'auth': ['C02'], 'att': ['C03'], 'reg': ['C09']}


def same_value(I, st, v, name):
    w = I.inputs[name]
    return I.same(v, w)


def registered(I, st, method):
    return [e for e in st.events if e[0] == 'register'], \
        [e for e in st.events if e[0] == 'register' and e[1] == method]


def only_for(*extra):
    def only(E):
        return ['C11'] + [p for exc, p in extra if issubclass(E, exc)]
    return only


def left_out(*names):
    """The documented defaults: no token binding, no extensions, ...; False for the switches."""
    return lambda a: And(*[Not(sc(a[n], 'bool')) if n in ('require_user_verification', 'ignore_clone_error')
                           else none(a[n]) for n in names])


def honest(E):
    return ['C10'] + (['C08'] if issubclass(E, er.SignatureCountError) else [])


# ------------------------------------------------------------------ registration
ATT_ARGS = {'self': backend_input, 'credential': att_credential, 'user': user_input, 'rp': rp_input,
            'expected_challenge': fresh_bytes, 'expected_origin': origins_input, 'token_binding': tb_input,
            'require_user_verification': bool_input, 'expected_extensions': exts_input,
            '*reg_raises': bool_input, '*reg_answer': any_answer, '*get_raises': bool_input, '*answer': any_answer}


ATT_DEF = ('token_binding', 'require_user_verification', 'expected_extensions')


@contract('backends.CredentialsBackend.handle_credential_attestation', ['C10', 'C11'], ATT_ARGS, total='C09',
          summarise=False, only=only_for((er.SignatureCountError, 'C08'), (er.RegistrationError, 'C09')), honest=honest)
def attestation(a):
    Rc, okc, cdj = client_data_cases(a, 'webauthn.create')
    R = [Raise(n, g, e, ['C01'], *may) for n, g, e, *may in Rc]
    ao = sc(fld(fld(a['credential'], 'response'), 'attestation_object'), 'bytes')
    P = 'parsers.parse_attestation_object'
    pp = [(e, opaque(P, e, ao)) for e in (er.DecodingError, er.ParserError, er.ValidationError)]
    R += [Raise('attestation-object-' + e.__name__, g, e, ['C02', 'C03']) for e, g in pp]
    oka = Not(Or(*[g for _, g in pp]))
    node, raw = REG[P].post({'attestation_object': Sc('bytes', ao)}).result.items
    ad = node.fields['auth_data']
    enc, h = rp_hash(a['rp'])
    R.append(Raise('rp-id-not-encodable', Not(enc), LE, ['C02']))
    R += [Raise(n, g, e, ['C02']) for n, g, e in auth_data_cases(a, ad, oka, (enc, h))]
    acd = ad.fields['attested_credential_data']
    R.append(Raise('no-attested-credential-data', And(oka, none(acd)), LE, ['C02']))
    # the attestation statement
    cdh = tm.sha256(cdj)
    att = REG['attesters.attest'].post({'att_stmt': node.fields['att_stmt'], 'att_obj': node,
                                        'auth_data': Sc('bytes', V.uy(get(raw.t, 'authData'))),
                                        'client_data_hash': Sc('bytes', cdh)})
    okb = And(oka, Not(none(acd)))
    R += [Raise('statement-' + r.name, And(okb, r.guard), r.exc, ['C03']) for r in att.raises]
    before = [r.guard for r in R]
    rejected = Or(sc(a['*reg_raises'], 'bool'), Not(V.is_vnone(a['*reg_answer'].t)))
    R.append(Raise('registrar-refuses', rejected, er.RegistrationError, ['C09']))

    def once(I, st, v):
        al, mine = registered(I, st, 'register_credential_attestation')
        return asb(len(al) == 1 and len(mine) == 1)

    def arg(name):
        def chk(I, st, v):
            _, mine = registered(I, st, 'register_credential_attestation')
            return And(*[asb(same_value(I, st, e[2][name], name)) for e in mine])
        return chk

    def att_arg(I, st, v):
        _, mine = registered(I, st, 'register_credential_attestation')
        return And(*[f for e in mine for _, f in match(I, st, e[2]['att'], node)])

    def path_arg(I, st, v):
        _, mine = registered(I, st, 'register_credential_attestation')
        return And(*[f for e in mine for _, f in match(I, st, (e[2]['att_type'], e[2]['trusted_path']), att.result)])

    def early(I, st, v):
        al, mine = registered(I, st, 'register_credential_attestation')
        if not al:
            return tm.TRUE
        return And(asb(len(al) == 1 and len(mine) == 1), *[Not(g) for g in before])
    return Post(R, NONE, checks=[
        ('recorded-once', once, ['C09']), ('recorded-credential', arg('credential'), ['C09']),
        ('recorded-user', arg('user'), ['C09']), ('recorded-rp', arg('rp'), ['C09']),
        ('recorded-attestation-object', att_arg, ['C09', 'C03']),
        ('recorded-type-and-path', path_arg, ['C03'])],
        rchecks=[('nothing-recorded-before-all-checks-passed', early, ['C09'])])


contract('backends.CredentialsBackend.handle_credential_attestation#defaults', ['C10', 'C11'], ATT_ARGS, total='C09',
         summarise=False, only=only_for((er.SignatureCountError, 'C08'), (er.RegistrationError, 'C09')), honest=honest,
         omitted=ATT_DEF, pre=left_out(*ATT_DEF))(attestation.post)


# ---------------------------------------------------------------- authentication
def allow_input(n, pre):
    ln, f = z3.Int(n + '.n'), tm.uf('allowed@' + n, tm.Int, tm.Bytes)
    pre += [ln >= 0, ln < 2 ** 62]
    return opt(Seq(ln, lambda i: Obj(ty.PublicKeyCredentialDescriptor, {
        'type': Const(ty.PublicKeyCredentialType.PUBLIC_KEY), 'id': Sc('bytes', f(i)), 'transports': NONE},
        frozen=True)), n)


def answer_input(n, pre):
    c = z3.Bool(n + '.ec2')
    ke, ko = key_input('EC2', alg_opt=True)(n + '.e', pre), key_input('OKP', alg_opt=True)(n + '.o', pre)
    alg = fld(ke, 'alg')
    pre.append(Or(none(alg), enum_in(alg, names(ty.COSEAlgorithmIdentifier, *HASH))))
    return opt(Obj(rg.CredentialData, {
        'credential_public_key': Cond([(c, ke), (Not(c), ko)]),
        'signature_count': opt(fresh_sc('int', n + '.count'), n + '.count'),
        'user_entity': user_input(n + '.user', pre),
        'rp_entity': opt(rp_input(n + '.rp', pre), n + '.rp')}, pre=True), n)


ASS_ARGS = {'self': backend_input, 'credential': ass_credential, 'expected_challenge': fresh_bytes,
            'expected_origin': origins_input, 'rp': lambda n, pre: opt(rp_input(n, pre), n),
            'user': lambda n, pre: opt(user_input(n, pre), n), 'allow_credentials': allow_input,
            'token_binding': tb_input, 'require_user_verification': bool_input, 'expected_extensions': exts_input,
            'ignore_clone_error': bool_input,
            '*reg_raises': bool_input, '*reg_answer': any_answer, '*get_raises': bool_input,
            '*answer': answer_input}


@contract('backends.CredentialsBackend.handle_credential_assertion', ['C10', 'C11'], ASS_ARGS, total='C09',
          summarise=False, only=only_for((er.SignatureCountError, 'C08'), (er.RegistrationError, 'C09'),
                                         (er.CredentialDataError, 'C09')), honest=honest)
def assertion(a):
    Rc, okc, cdj = client_data_cases(a, 'webauthn.get')
    R = [Raise(n, g, e, ['C04'], *may) for n, g, e, *may in Rc]
    resp = fld(a['credential'], 'response')
    raw_id = sc(fld(a['credential'], 'raw_id'), 'bytes')
    al = a['allow_credentials']
    for g, s in al.alts:
        if isinstance(s, Seq):
            i = tm.fresh(tm.Int, 'ac')
            R.append(Raise('credential-not-allowed', And(g, Not(z3.Exists([i], And(
                i >= 0, i < s.n, sc(fld(s.f(i), 'id'), 'bytes') == raw_id)))), er.CredentialNotAllowedError, ['C07']))
    fails = sc(a['*get_raises'], 'bool')
    ans = a['*answer']
    known = And(Not(fails), Not(none(ans)))
    R += [Raise('lookup-fails', fails, er.RegistrationError, ['C09', 'C07']),
          Raise('unknown-credential', And(Not(fails), none(ans)), er.CredentialDataError, ['C09', 'C07'])]
    ru, rrp = fld(ans, 'user_entity'), fld(ans, 'rp_entity')
    uid = sc(fld(ru, 'id'), 'bytes')
    user, uh = a['user'], fld(resp, 'user_handle')
    R += [Raise('user-id', And(known, Not(none(user)), sc(fld(user, 'id'), 'bytes') != uid), er.UserIDError, ['C07']),
          Raise('no-user-and-no-handle', And(known, none(user), none(uh)), er.UserHandleError, ['C07']),
          Raise('user-handle', And(known, Not(none(uh)), sc(uh, 'bytes') != uid,
                                   Or(none(user), sc(fld(user, 'id'), 'bytes') == uid)), er.UserHandleError, ['C07']),
          Raise('no-rp', And(known, none(a['rp']), none(rrp)), er.RPNotFoundError, ['C07']),
          Raise('rp-id', And(known, Not(none(a['rp'])), Not(none(rrp)),
                             sc(fld(a['rp'], 'id'), 'str') != sc(fld(rrp, 'id'), 'str')), er.RPIDError, ['C07'])]
    rp_id = z3.If(none(a['rp']), sc(fld(rrp, 'id'), 'str'), sc(fld(a['rp'], 'id'), 'str'))
    some_rp = And(known, Not(And(none(a['rp']), none(rrp))))
    enc, h = tm.utf8_encodable(rp_id), tm.sha256(tm.utf8_enc(rp_id))
    raw = sc(fld(resp, 'authenticator_data'), 'bytes')
    P = 'parsers.parse_authenticator_data'
    pp = [(e, opaque(P, e, raw)) for e in (er.DecodingError, er.ParserError, er.ValidationError)]
    R += [Raise('authenticator-data-' + e.__name__, g, e, ['C05']) for e, g in pp]
    oka = Not(Or(*[g for _, g in pp]))
    ad = auth_parts(raw)[1]
    R.append(Raise('rp-id-not-encodable', And(some_rp, Not(enc)), LE, ['C05']))
    R += [Raise(n, g, e, ['C05']) for n, g, e in auth_data_cases(a, ad, And(oka, some_rp), (enc, h))]
    # signature
    data = z3.Concat(raw, tm.sha256(cdj))
    ver = verify_post({'credential_public_key': fld(ans, 'credential_public_key'),
                       'signature': fld(resp, 'signature'), 'data': Sc('bytes', data)})
    R += [Raise('signature-' + r.name, And(known, r.guard), r.exc, ['C06']) for r in ver.raises]
    # counter
    cnt, new = fld(ans, 'signature_count'), sc(fld(ad, 'sign_count'), 'int')
    old = sc(cnt, 'int')
    R.append(Raise('counter', And(known, oka, Not(none(cnt)), Or(old != 0, new != 0), new <= old,
                                  Not(sc(a['ignore_clone_error'], 'bool'))), er.SignatureCountError, ['C08']))
    before = [r.guard for r in R]
    rejected = Or(sc(a['*reg_raises'], 'bool'), Not(V.is_vnone(a['*reg_answer'].t)))
    R.append(Raise('registrar-refuses', rejected, er.RegistrationError, ['C09']))
    M = 'register_credential_assertion'

    def once(I, st, v):
        al, mine = registered(I, st, M)
        return asb(len(al) == 1 and len(mine) == 1)

    def arg(name, field=None):
        def chk(I, st, v):
            _, mine = registered(I, st, M)
            out = []
            for e in mine:
                got = e[2][name]
                want = I.inputs[name]
                if field is None:
                    out.append(asb(same_value(I, st, got, name)))
                    continue
                # the supplied one, or else the one on record
                out.append(same_or_record(I, st, got, want, name, field))
            return And(*out)
        return chk

    def same_or_record(I, st, got, want, name, field):
        """got has the id on record, and the name of the entity supplied, if one is."""
        cls = ty.PublicKeyCredentialUserEntity if field == 'user_entity' else ty.PublicKeyCredentialRpEntity
        rec = fld(ans, field)
        given = a['user' if field == 'user_entity' else 'rp']
        kind = 'bytes' if field == 'user_entity' else 'str'
        g = sp.view(I, st, got)
        wid = z3.If(none(given), sc(fld(rec, 'id'), kind), sc(fld(given, 'id'), kind))
        return And(isinst(g, cls), sc(fld(g, 'id'), kind) == wid,
                   Implies(Not(none(given)), sc(fld(g, 'name'), 'str') == sc(fld(given, 'name'), 'str')))

    def ad_arg(I, st, v):
        _, mine = registered(I, st, M)
        return And(*[f for e in mine for _, f in match(I, st, e[2]['authenticator_data'], ad)])

    def looked_up(I, st, v):
        gets = [e for e in st.events if e[0] == 'get']
        return And(asb(len(gets) >= 1), *[f for e in gets for _, f in match(
            I, st, e[1]['credential_id'], Sc('bytes', raw_id))])

    def early(I, st, v):
        al, mine = registered(I, st, M)
        if not al:
            return tm.TRUE
        return And(asb(len(al) == 1 and len(mine) == 1), *[Not(g) for g in before])
    return Post(R, NONE, checks=[
        ('recorded-once', once, ['C09']), ('recorded-credential', arg('credential'), ['C07']),
        ('recorded-user', arg('user', 'user_entity'), ['C07']), ('recorded-rp', arg('rp', 'rp_entity'), ['C07']),
        ('recorded-authenticator-data', ad_arg, ['C07', 'C08']), ('looked-up-by-raw-id', looked_up, ['C07', 'C06'])],
        rchecks=[('nothing-recorded-before-all-checks-passed', early, ['C09'])])


ASS_DEF = ('rp', 'user', 'allow_credentials', 'token_binding', 'require_user_verification', 'expected_extensions',
           'ignore_clone_error')
contract('backends.CredentialsBackend.handle_credential_assertion#defaults', ['C10', 'C11'], ASS_ARGS, total='C09',
         summarise=False, only=only_for((er.SignatureCountError, 'C08'), (er.RegistrationError, 'C09'),
                                        (er.CredentialDataError, 'C09')), honest=honest, omitted=ASS_DEF,
         pre=left_out(*ASS_DEF))(assertion.post)
