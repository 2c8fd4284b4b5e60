"""Executing cases against the code under test and judging them against the reference.

A case is (kind, data) with data made of Python literals only, so that it can be written to a replay file.
judge(kind, data) -> list of (property ids, message); empty when the code did what the properties say."""
import copy
import hashlib
import io
import json

import cbor2

from . import ref
from .base import *

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def judge(k, data):
    return KINDS[k](data)


def expected_errors(names):
    return tuple(lib(n) if n != ref.ANY else errors.WebAuthnRPError for n in sorted(names) if n == ref.ANY or
                 hasattr(errors, n))


def compare(r, out, props, total=None, names=None):
    """Outcome of a parser-like function against the reference."""
    P = set(props)
    if getattr(r, 'undecided', False):
        return leak(out, total, P)
    if out.kind == 'err' and not isinstance(out.exc, errors.WebAuthnRPError):
        if r.ok:
            return [(P | {total} if total else P, 'refused with %r although the input is valid' % out)]
        # exactly what the documented errors exclude
        return [({total} if total else P, '%r escapes' % out)]
    if r.ok:
        if out.kind == 'err':
            return [(P, 'valid input refused: %r' % out)]
        if not repr_eq(r.value, out.value):
            return [(P, 'wrong result, ' + diff(r.value, out.value))]
        return []
    if out.kind == 'ok':
        return [(P, 'accepted although %s' % ', '.join(v[0] for v in r.viol))]
    if not isinstance(out.exc, expected_errors(r.errors())):
        return [(P, 'violating %s: %r, documented: %s' % (', '.join(v[0] for v in r.viol), out,
                                                          ', '.join(sorted(r.errors()))))]
    return []


def leak(out, total, P):
    if out.kind == 'err' and not isinstance(out.exc, errors.WebAuthnRPError):
        return [({total} if total else P, '%r escapes' % out)]
    return []


def pure(f, args, kw=None):
    """Run twice on the same arguments: equal outcomes and arguments unchanged (C26)."""
    kw = kw or {}
    before = dump((list(args), kw))
    a = run(f, *args, **kw)
    bad = []
    if not repr_eq(before, dump((list(args), kw))):
        bad.append(({'C26'}, 'arguments modified: ' + diff(before, dump((list(args), kw)), 'arguments')))
    b = run(f, *args, **kw)
    if not repr_eq(a.plain(), b.plain()):
        bad.append(({'C26'}, 'repeating the call: first %r, then %r' % (a, b)))
    return a, bad


# ------------------------------------------------------------------- builders
def member(path):
    """'COSEKeyType.Value.EC2' -> the member"""
    c, n = path.rsplit('.', 1)
    o = types
    for p in c.split('.'):
        o = getattr(o, p)
    return o[n]


def mk_user(u):
    return None if u is None else types.PublicKeyCredentialUserEntity(
        name=u.get('name', 'n'), icon=u.get('icon'), id=u['id'], display_name=u.get('display_name', 'd'))


def mk_rp(u):
    return None if u is None else types.PublicKeyCredentialRpEntity(
        name=u.get('name', 'n'), icon=u.get('icon'), id=u['id'])


def mk_tb(t):
    return None if t is None else types.TokenBinding(status=types.TokenBindingStatus[t[0]], id=t[1])


def mk_key(k):
    """Key from {'cls','crv','alg','kty','x','y','kid','key_ops','base_IV'} (enum members as paths)."""
    e = lambda p: None if p is None else member(p)
    kw = dict(x=k['x'], kty=e(k['kty']), crv=e(k['crv']), alg=e(k.get('alg')), kid=k.get('kid'),
              key_ops=None if k.get('key_ops') is None else [e(o) for o in k['key_ops']], base_IV=k.get('base_IV'))
    if k['cls'] == 'EC2':
        return types.EC2CredentialPublicKey(y=k['y'], **kw)
    return types.OKPCredentialPublicKey(**kw)


def key_plain(k):
    e = lambda p: None if p is None else ('enum', p)
    f = dict(x=k['x'], kty=e(k['kty']), crv=e(k['crv']), alg=e(k.get('alg')), kid=k.get('kid'),
             key_ops=None if k.get('key_ops') is None else ('list', [e(o) for o in k['key_ops']]),
             base_IV=k.get('base_IV'))
    if k['cls'] == 'EC2':
        f['y'] = k['y']
    return ('obj', k['cls'] + 'CredentialPublicKey', f)


# -------------------------------------------------------------------- parsers
@kind
def origin(d):
    out, bad = pure(parsers.parse_origin, [d['origin']])
    return bad + compare(ref.origin(d['origin']), out, ['C12'], 'C25')


@kind
def client_data(d):
    out, bad = pure(parsers.parse_client_data, [d['bytes']])
    return bad + compare(ref.client_data(d['bytes']), out, ['C14'], 'C25')


@kind
def credential(d):
    out, bad = pure(parsers.parse_public_key_credential, [copy.deepcopy(d['dict'])])
    return bad + compare(ref.credential(d['dict']), out, ['C13'], 'C25')


def shared(v):
    return copy.deepcopy(v)


@kind
def cose(d):
    k = d['key']
    out, bad = pure(parsers.parse_cose_key, [shared(k)])
    r = ref.cose_key(k)
    bad += compare(r, out, ['C16'], 'C25')
    if r.ok and out.kind == 'ok' and not bad:
        o = parsers.parse_cose_key(shared(k))
        v, b2 = pure(validators.validate, [o])
        bad += b2 + compare(ref.Ref(ref.valid_key(r.value)), v, ['C16'], 'C25')
    return bad


@kind
def cose_typed(d):
    """The key parser of one key type."""
    f = parsers.parse_ec2_public_key if d['cls'] == 'EC2' else parsers.parse_okp_public_key
    out, bad = pure(f, [shared(d['key'])])
    return bad + compare(ref.cose_map(d['key'], d['cls']), out, ['C16'], 'C25')


@kind
def valid_key(d):
    """A key built by hand, given to the validators."""
    k = mk_key(d['key'])
    r = ref.Ref(ref.valid_key(key_plain(d['key'])))
    bad = []
    for f in (validators.validate,
              validators.validate_ec2_public_key if d['key']['cls'] == 'EC2' else validators.validate_okp_public_key):
        out, b = pure(f, [k])
        bad += b + compare(r, out, ['C16'])
    return bad


@kind
def auth_data(d):
    out, bad = pure(parsers.parse_authenticator_data, [d['bytes']])
    return bad + compare(ref.auth_data(d['bytes']), out, ['C15'], 'C25')


@kind
def att_obj(d):
    out, bad = pure(parsers.parse_attestation_object, [d['bytes']])
    return bad + compare(ref.att_obj(d['bytes']), out, ['C21'], 'C25')


STMT_PARSER = {'PACKED': 'packed', 'TPM': 'tpm', 'ANDROID_KEY': 'android_key',
               'ANDROID_SAFETYNET': 'android_safetynet', 'FIDO_U2F': 'fido_u2f', 'NONE': 'none'}


@kind
def statement(d):
    f = getattr(parsers, 'parse_%s_attestation_statement' % STMT_PARSER[d['fmt']])
    out, bad = pure(f, [shared(d['stmt'])])
    return bad + compare(ref.statement(d['fmt'], d['stmt']), out, ['C21'], 'C25')


@kind
def extensions(d):
    out, bad = pure(parsers.parse_extensions, [shared(d['dict'])])
    return bad + compare(ref.extensions(d['dict']), out, ['C22'], 'C25')


# ----------------------------------------------------------------- signatures
@kind
def verify(d):
    out, bad = pure(verifiers.verify, [mk_key(d['key']), d['signature'], d['data']])
    r = ref.verify(key_plain(d['key']), d['signature'], d['data'])
    return bad + compare(r, out, ['C18'])


@kind
def convert_key(d):
    out, bad = pure(converters.cryptography_public_key, [mk_key(d['key'])])
    R, pk = ref.public_key(key_plain(d['key']))
    r = ref.Ref(R, None if pk is None else dump(pk))
    return bad + compare(r, out, ['C18'])


class OtherKey(types.CredentialPublicKey):
    def __init__(self):
        super().__init__(kty=types.COSEKeyType.Value.SYMMETRIC)


@kind
def other_key(d):
    bad = []
    for f, a, p in ((verifiers.verify, [OtherKey(), b'', b''], 'C18'),
                    (converters.cryptography_public_key, [OtherKey()], 'C18')):
        out, b = pure(f, a)
        bad += b + compare(ref.Ref([('unsupported-key', ['UnimplementedError'])]), out, [p])
    return bad


@kind
def encode_key(d):
    """COSE encoding of a key: contents, and the round trip."""
    k = mk_key(d['key'])
    out, bad = pure(converters.cose_key, [k])
    if out.kind == 'err':
        return bad + [({'C17'}, 'key not encoded: %r' % out)]
    v = lambda p: member(p).value
    kp = d['key']
    want = {1: v(kp['kty']), 3: v(kp['alg']), -1: v(kp['crv']), -2: kp['x']}
    if kp['cls'] == 'EC2':
        want[-3] = kp['y']
    if kp.get('kid') is not None:
        want[2] = kp['kid']
    if kp.get('key_ops') is not None:
        want[4] = [v(o) for o in kp['key_ops']]
    if kp.get('base_IV') is not None:
        want[5] = kp['base_IV']
    try:
        f = io.BytesIO(out.value)
        got = cbor2.load(f)
        left = len(out.value) - f.tell()
    except Exception as e:
        return bad + [({'C17'}, 'the encoding of %s is not CBOR (%r)' % (short(kp), e))]
    srt = lambda m: ('dict', sorted(dump(m)[1], key=repr))
    if type(got) is not dict or left or not repr_eq(srt(got), srt(want)):
        bad.append(({'C17'}, 'encoding holds %s, expected %s' % (short(got, 300), short(want, 300))))
    back, b2 = pure(parsers.parse_cose_key, [out.value])
    # the numeric or textual form of each identifier is kept, so the key read back is equal
    if back.kind == 'err':
        bad.append(({'C17'}, 'encoded key not parsed back: %r' % back))
    elif not repr_eq(back.value, dump(k)):
        bad.append(({'C17'}, 'key read back differs, ' + diff(dump(k), back.value, 'key')))
    return bad + b2


# -------------------------------------------------------------- attestation
def ad_of(raw):
    return parsers.parse_authenticator_data(raw)


@kind
def attest(d):
    """The verification of one statement over raw authenticator data and client data hash."""
    a, s = ref.auth_data(d['auth_data']), ref.statement(d['fmt'], d['stmt'])
    if not a.ok or not s.ok or a.value[2]['attested_credential_data'] is None:
        return []
    ad = run(lambda: parsers.parse_authenticator_data(d['auth_data']))
    st = run(lambda: getattr(parsers, 'parse_%s_attestation_statement' % STMT_PARSER[d['fmt']])(shared(d['stmt'])))
    if ad.kind == 'err' or st.kind == 'err' or not repr_eq(ad.value, a.value) or not repr_eq(st.value, s.value):
        return []                           # the parser's problem
    stmt = getattr(parsers, 'parse_%s_attestation_statement' % STMT_PARSER[d['fmt']])(shared(d['stmt']))
    obj = types.AttestationObject(auth_data=parsers.parse_authenticator_data(d['auth_data']),
                                  fmt=types.AttestationStatementFormatIdentifier[d['fmt']], att_stmt=stmt)
    r = ref.attest(s.value, a.value, d['auth_data'], d['hash'])
    f = attesters.attest
    args = [stmt, obj, d['auth_data'], d['hash']]
    out, bad = pure(f, args)
    props = {'C03'} | ({'C19'} if d['fmt'] == 'FIDO_U2F' else {'C20'} if d['fmt'] == 'ANDROID_KEY' else set())
    return bad + [(p if 'C26' in p else (p | props), m) for p, m in compare(r, norm_path(out), props, None)]


def norm_path(out):
    v = out.value
    if out.kind == 'ok' and isinstance(v, tuple) and v[0] == 'tuple' and len(v[1]) == 2 and \
            isinstance(v[1][1], tuple) and v[1][1][0] == 'tuple':
        return Out('ok', ('tuple', [v[1][0], ('list', v[1][1][1])]))
    return out


# ------------------------------------------------------------------ ceremonies
class Boom(Exception):
    pass


class Plain:
    pass


class Falsy:
    def __bool__(self):
        return False


class Registrar:
    def __init__(self, d, record=None):
        self.d, self.record, self.calls = d, record, []

    def _answer(self):
        a = self.d['registrar']
        if a == 'raise':
            raise Boom('storage')
        if isinstance(a, str) and a.startswith('raise:'):
            raise {'lib': errors.ChallengeError, 'base': ValueError, 'type': TypeError, 'key': KeyError,
                   'stop': StopIteration, 'assert': AssertionError, 'rec': RecursionError}[a[6:]]('x')
        if isinstance(a, str) and a.startswith('obj:'):
            return {'plain': Plain, 'false': Falsy, 'error': lambda: ValueError('x'), 'list': list, 'dict': dict,
                    'tuple': tuple, 'bytes': lambda: b'no', 'func': lambda: len, 'class': lambda: Plain,
                    'object': object, 'float': float, 'ni': lambda: NotImplemented, 'dots': lambda: ...}[a[4:]]()
        return a

    def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
        self.calls.append(('attestation', dict(credential=credential, att=att, att_type=att_type, user=user, rp=rp,
                                               trusted_path=trusted_path)))
        return self._answer()

    def register_credential_assertion(self, credential, authenticator_data, user, rp):
        self.calls.append(('assertion', dict(credential=credential, authenticator_data=authenticator_data,
                                             user=user, rp=rp)))
        return self._answer()

    def get_credential_data(self, credential_id):
        self.calls.append(('get', credential_id))
        if isinstance(self.record, str):
            if self.record == 'raise':
                raise Boom('lookup')
        return self.record


def record_calls(reg, kw):
    import oracle.base as base
    if base.TRACE is not None:
        base.TRACE.append(('calls', dump(reg.calls)))
        base.TOUCHED.extend(reg.calls)
        base.TOUCHED.append(kw)


def mk_origins(o, how):
    if isinstance(o, str):
        return o
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}.get(how, list)(o)


def mk_exts(e):
    return None if e is None else {types.ExtensionIdentifier(x) for x in e}


def ceremony_verdict(r, out, reg, check, kinds):
    """Shared judgement: acceptance, errors, recording."""
    bad = []
    got = [c for c in reg.calls if c[0] != 'get']
    mine = [c for c in got if c[0] == kinds]
    if out.kind == 'err' and not isinstance(out.exc, errors.WebAuthnRPError):
        bad.append(({'C09'}, '%r escapes' % out))
    if getattr(r, 'undecided', False):
        return bad
    if r.ok:
        if out.kind == 'err':
            p = {'C10'}
            if isinstance(out.exc, errors.SignatureCountError):
                p.add('C08')
            return bad + [(p, 'honest ceremony refused: %r' % out)]
        if len(got) != 1 or not mine:
            bad.append(({'C09'}, 'accepted, but the registrar was asked to record %d times' % len(got)))
        else:
            bad += check(mine[0][1])
        return bad
    props = set()
    for v in r.viol:
        props |= set(v[2].split())
    why = ', '.join(v[0] for v in r.viol)
    if out.kind == 'ok':
        if len(r.viol) == 1:
            props.add('C11')
        bad.append((props, 'accepted although it violates: %s' % why))
    elif isinstance(out.exc, errors.WebAuthnRPError):
        ok = expected_errors(r.errors())
        if not isinstance(out.exc, ok):
            p = {'C11'}
            if any(v[0] == 'counter' for v in r.viol) and len(r.viol) == 1:
                p.add('C08')
            if len(r.viol) == 1 and 'C09' in r.viol[0][2].split():
                p.add('C09')
            bad.append((p, 'violates only %s: %r, documented %s' % (why, out, sorted(r.errors()))))
    if r.checked:
        if len(got) != 1 or not mine:
            bad.append(({'C09'}, 'all checks passed, recording asked %d times' % len(got)))
    elif got:
        bad.append(({'C09'}, 'recorded although it violates: %s' % why))
    return bad


@kind
def registration(d):
    return _registration(d)[0]


def run_registration(d):
    cred = types.PublicKeyCredential(
        id='id', type='public-key', raw_id=d.get('raw_id', b'id'),
        response=types.AuthenticatorAttestationResponse(client_data_JSON=d['client_data'],
                                                        attestation_object=d['attestation_object']))
    user, rp, tb = mk_user(d['user']), mk_rp(d['rp']), mk_tb(d['token_binding'])
    reg = Registrar(d)
    kw = dict(credential=cred, user=user, rp=rp, expected_challenge=d['challenge'],
              expected_origin=mk_origins(d['origin'], d.get('how')), token_binding=tb,
              require_user_verification=d['uv'], expected_extensions=mk_exts(d['extensions']))
    if d.get('omit'):
        kw = {k: v for k, v in kw.items() if not (v is None or v is False)}
    before = dump(kw)
    out = run(lambda: backend(reg).handle_credential_attestation(**kw))
    record_calls(reg, kw)
    bad = []
    if not repr_eq(before, dump(kw)):
        bad.append(({'C26'}, 'arguments modified: ' + diff(before, dump(kw), 'arguments')))
    return out, reg, kw, bad


def _registration(d):
    r = ref.registration(d)
    out, reg, kw, bad = run_registration(d)

    def check(c):
        b = []
        for n in ('credential', 'user', 'rp'):
            if c[n] is not kw[n] and not repr_eq(dump(c[n]), dump(kw[n])):
                b.append(({'C09'}, 'recorded %s is not the one given' % n))
        if not repr_eq(dump(c['att']), r.value['att']):
            b.append(({'C09', 'C03'}, 'recorded attestation object, ' + diff(r.value['att'], dump(c['att']))))
        t = norm_path(Out('ok', dump((c['att_type'], c['trusted_path'])))).value
        if not repr_eq(t, r.value['attestation']):
            b.append(({'C03'}, 'recorded type and path, ' + diff(r.value['attestation'], t)))
        return b
    bad += ceremony_verdict(r, out, reg, check, 'attestation')
    o2, reg2, _, _ = run_registration(d)
    if not repr_eq(out.plain(), o2.plain()):
        bad.append(({'C26'}, 'repeating the ceremony: first %r, then %r' % (out, o2)))
    elif not repr_eq(dump(reg.calls), dump(reg2.calls)):
        bad.append(({'C26'}, 'repeating the ceremony records something else: ' +
                    diff(dump(reg.calls), dump(reg2.calls), 'calls')))
    return bad, out


def run_assertion(d):
    cred = types.PublicKeyCredential(
        id='id', type='public-key', raw_id=d['raw_id'],
        response=types.AuthenticatorAssertionResponse(
            client_data_JSON=d['client_data'], authenticator_data=d['authenticator_data'],
            signature=d['signature'], user_handle=d['user_handle']))
    rec = d['record']
    if isinstance(rec, dict):
        rec = registrars.CredentialData(credential_public_key=mk_key(rec['key']), signature_count=rec['count'],
                                        user_entity=mk_user(rec['user']), rp_entity=mk_rp(rec['rp']))
    reg = Registrar(d, rec)
    allow = None if d['allow'] is None else [types.PublicKeyCredentialDescriptor(
        type=types.PublicKeyCredentialType.PUBLIC_KEY, id=i) for i in d['allow']]
    kw = dict(credential=cred, expected_challenge=d['challenge'],
              expected_origin=mk_origins(d['origin'], d.get('how')), rp=mk_rp(d['rp']), user=mk_user(d['user']),
              allow_credentials=allow, token_binding=mk_tb(d['token_binding']),
              require_user_verification=d['uv'], expected_extensions=mk_exts(d['extensions']),
              ignore_clone_error=d['ignore_clone'])
    if d.get('omit'):
        kw = {k: v for k, v in kw.items() if not (v is None or v is False)}
    before = dump((kw, rec))
    out = run(lambda: backend(reg).handle_credential_assertion(**kw))
    record_calls(reg, kw)
    bad = []
    if not repr_eq(before, dump((kw, rec))):
        bad.append(({'C26'}, 'arguments modified: ' + diff(before, dump((kw, rec)), 'arguments')))
    return out, reg, kw, rec, bad


@kind
def assertion(d):
    rec = d['record']
    d2 = dict(d, record=dict(rec, key_plain=key_plain(rec['key'])) if isinstance(rec, dict) else rec)
    r = ref.assertion(d2)
    out, reg, kw, recv, bad = run_assertion(d)

    def check(c):
        b = []
        if c['credential'] is not kw['credential'] and not repr_eq(dump(c['credential']), dump(kw['credential'])):
            b.append(({'C07'}, 'recorded credential is not the one given'))
        if getattr(c['user'], 'id', None) != r.value['user']:
            b.append(({'C07'}, 'recorded user id %r, expected %r' % (getattr(c['user'], 'id', None), r.value['user'])))
        if getattr(c['rp'], 'id', None) != r.value['rp']:
            b.append(({'C07'}, 'recorded RP id %r, expected %r' % (getattr(c['rp'], 'id', None), r.value['rp'])))
        for n in ('user', 'rp'):
            if kw.get(n) is not None and not repr_eq(dump(c[n]), dump(kw[n])):
                b.append(({'C07'}, 'recorded %s is not the one supplied' % n))
        if not repr_eq(dump(c['authenticator_data']), r.value['authenticator_data']):
            b.append(({'C07', 'C08'}, 'recorded authenticator data, ' +
                      diff(r.value['authenticator_data'], dump(c['authenticator_data']))))
        return b
    bad += ceremony_verdict(r, out, reg, check, 'assertion')
    gets = [c[1] for c in reg.calls if c[0] == 'get']
    if any(g != d['raw_id'] for g in gets) or (out.kind == 'ok' and not gets):
        bad.append(({'C07', 'C06'}, 'credential looked up by %r instead of %r' % (gets, d['raw_id'])))
    o2, reg2 = run_assertion(d)[:2]
    if not repr_eq(out.plain(), o2.plain()):
        bad.append(({'C26'}, 'repeating the ceremony: first %r, then %r' % (out, o2)))
    elif not repr_eq(dump(reg.calls), dump(reg2.calls)):
        bad.append(({'C26'}, 'repeating the ceremony records something else: ' +
                    diff(dump(reg.calls), dump(reg2.calls), 'calls')))
    return bad


# -------------------------------------------------------------------- history
class Shared:
    """One registrar for a backend that lives through a whole history."""
    cur = None

    def __getattr__(self, n):
        return getattr(Shared.cur, n)


BACKEND = None


def backend(reg):
    if BACKEND is None:
        return backends.CredentialsBackend(reg)
    Shared.cur = reg
    return BACKEND


def record_steps(steps, only=None):
    """Traces of the steps, run one after another; each step's objects are the caller's to change afterwards."""
    import oracle.base as base
    global BACKEND
    BACKEND = backends.CredentialsBackend(Shared())
    out = []
    for i in range(len(steps)) if only is None else only:
        k, d = steps[i]
        base.TRACE = []
        base.TOUCHED.clear()
        try:
            args = [m for p, m in judge(k, copy.deepcopy(d)) if 'C26' in p]
        except Exception as e:              # a wrong result can break the comparison itself
            args = []
            base.TRACE.append(('judge', type(e).__name__))
        out.append((i, base.TRACE, args))
        base.TRACE = None
        seen = {}
        for x in base.TOUCHED:
            scramble(x, seen)
    return out


def in_fork(fn, secs=60):
    """fn() in a child of its own; None if it does not answer."""
    import pickle
    import select
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    import time
    t = time.time()
    while time.time() - t < secs:
        if select.select([r], [], [], 1)[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    else:
        os.kill(pid, 9)
        buf = b''
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(buf) if buf else None


@kind
def sequence(d):
    """Operations one after another, each judged as it is on its own."""
    global BACKEND
    bad = []
    BACKEND = backends.CredentialsBackend(Shared())
    try:
        for i, (k, x) in enumerate(d['steps']):
            bad += [(p, 'step %d (%s) of %d: %s' % (i, k, len(d['steps']), m)) for p, m in judge(k, copy.deepcopy(x))]
    finally:
        BACKEND = None
    return bad


@kind
def history(d):
    """Operations one after another: each ends as it does on its own, in any order."""
    steps = d['steps']
    n = len(steps)
    bad = []
    there = in_fork(lambda: record_steps(steps))
    back = in_fork(lambda: record_steps(steps, list(reversed(range(n)))))
    if there is None or back is None:
        return bad
    a, b = {i: t for i, t, _ in there}, {i: t for i, t, _ in back}
    for i, _, m in there + back:
        bad += [({'C26'}, 'step %d (%s): %s' % (i, steps[i][0], x)) for x in m]
    for i in range(n):
        if repr_eq(a[i], b[i]):
            continue
        alone = in_fork(lambda: record_steps(steps, [i]))
        if alone is None:
            continue
        alone = alone[0][1]
        for how, got in (('after %d others' % i, a[i]), ('after %d others' % (n - 1 - i), b[i])):
            if not repr_eq(alone, got):
                bad.append(({'C26'}, 'step %d of %d (%s) %s, %s' % (i, n, steps[i][0], how, diff(
                    alone, got, 'outcomes (expected: alone)'))))
    return bad
