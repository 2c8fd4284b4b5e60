"""Independent reference of what each operation should do, written from the properties and the standards they
name (WebAuthn, COSE, RFC 6454, the Android key attestation page), not from the code under test.

Every function returns a Ref: the requirements the input violates (each with the library errors documented for
it) or, when there are none, the value, in the plain form of base.dump."""
import base64
import binascii
import hashlib
import io
import json
import urllib.parse

import cbor2
import cryptography.exceptions
import cryptography.x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from .base import dump

PE, DE, OE, VE = 'ParserError', 'DecodingError', 'OriginError', 'ValidationError'
AE, UE = 'AttestationError', 'UnimplementedError'
ANY = '*'

KTY = {'OKP': ('OKP', 1), 'EC2': ('EC2', 2), 'SYMMETRIC': ('Symmetric', 4)}
ALG = {'ES256': ('ES256', -7), 'ES384': ('ES384', -35), 'ES512': ('ES512', -36), 'EDDSA': ('EdDSA', -8)}
EC2CRV = {'P_256': ('P-256', 1), 'P_384': ('P-384', 2), 'P_521': ('P-521', 3)}
OKPCRV = {'ED25519': ('Ed25519', 6), 'ED448': ('Ed448', 7)}
KEYOP = {'SIGN': ('sign', 1), 'VERIFY': ('verify', 2), 'ENCRYPT': ('encrypt', 3), 'DECRYPT': ('decrypt', 4),
         'WRAP_KEY': ('wrap key', 5), 'UNWRAP_KEY': ('unwrap key', 6), 'DERIVE_KEY': ('derive key', 7),
         'DERIVE_BITS': ('derive bits', 8), 'MAC_CREATE': ('MAC create', 9), 'MAC_VERIFY': ('MAC verify', 10)}
COORD = {'P_256': 32, 'P_384': 48, 'P_521': 66, 'ED25519': 32, 'ED448': 57}
EC = {'P_256': ec.SECP256R1, 'P_384': ec.SECP384R1, 'P_521': ec.SECP521R1}
HASH = {'ES256': hashes.SHA256, 'ES384': hashes.SHA384, 'ES512': hashes.SHA512}
FMT = {'packed': 'PACKED', 'tpm': 'TPM', 'android-key': 'ANDROID_KEY', 'android-safetynet': 'ANDROID_SAFETYNET',
       'fido-u2f': 'FIDO_U2F', 'none': 'NONE'}


class Ref:
    def __init__(self, viol=(), value=None):
        self.viol, self.value = list(viol), value

    @property
    def ok(self):
        return not self.viol

    def errors(self):
        out = set()
        for v in self.viol:
            out |= set(v[1])
        return out


def obj(cls, **f):
    return ('obj', cls, f)


def is_int(x):
    return type(x) is int


def enum_nv(x, table):
    """(container, name) of the entry the value x denotes, or None."""
    for n, (s, v) in table.items():
        if type(x) is str and x == s:
            return 'Name', n
        if type(x) is int and x == v:
            return 'Value', n
    return None


def enum_dump(cont, e):
    return ('enum', '%s.%s.%s' % (cont, e[0], e[1]))


def plain(v):
    from . import base
    return base.dump(v)


# -------------------------------------------------------------------- origins
def origin(s):
    R = []
    if '://' not in s:
        R.append(('origin-form', [OE]))
    try:
        u = urllib.parse.urlparse(s)
    except ValueError:
        return Ref(R + [('origin-url', [OE])])
    try:
        port = u.port
    except ValueError:
        port = None
        R.append(('origin-port', [OE]))
    if u.path or u.params or u.query or u.fragment:
        R.append(('origin-extra', [OE]))
    if '@' in u.netloc:
        R.append(('origin-userinfo', [OE]))
    if not u.hostname:
        R.append(('origin-host', [OE]))
    if u.scheme not in ('http', 'https'):
        R.append(('origin-scheme', [OE]))
    if R:
        return Ref(R)
    if port is None:
        port = 80 if u.scheme == 'http' else 443
    return Ref([], obj('Origin', scheme=u.scheme, hostname=u.hostname, port=port))


# ---------------------------------------------------------------- client data
def client_data(b):
    try:
        t = b.decode('utf-8')
    except UnicodeDecodeError:
        return Ref([('client-data-utf8', [DE])])
    try:
        d = json.loads(t)
    except (ValueError, RecursionError):
        return Ref([('client-data-json', [DE])])
    if type(d) is not dict:
        return Ref([('client-data-object', [PE])])
    R = []
    for k in ('type', 'challenge', 'origin'):
        if type(d.get(k)) is not str:
            R.append(('client-data-' + k, [PE]))
    tb = d.get('tokenBinding')
    val = None
    if tb is not None:
        if type(tb) is not dict:
            R.append(('token-binding-form', [PE]))
        else:
            s, i = tb.get('status'), tb.get('id')
            if type(s) is not str or s not in ('supported', 'present'):
                R.append(('token-binding-status-value', [PE]))
            elif s == 'present' and i is None:
                R.append(('token-binding-id-missing', [PE]))
            else:
                val = obj('TokenBinding', status=('enum', 'TokenBindingStatus.' + s.upper()), id=plain(i))
    if R:
        return Ref(R)
    return Ref([], obj('CollectedClientData', type=d['type'], challenge=d['challenge'], origin=d['origin'],
                       token_binding=val))


# ----------------------------------------------------------- credential (JSON)
def b64(s):
    try:
        return base64.b64decode(s)
    except (ValueError, binascii.Error):
        return None


def credential(d):
    R = []
    if set(d) - {'id', 'type', 'rawId', 'response'}:
        R.append(('unknown-keys', [PE]))

    def text(m, k):
        if type(m.get(k)) is not str:
            R.append(('field-' + k, [PE]))

    def data(m, k):
        v = m.get(k)
        if type(v) is not str:
            R.append(('field-' + k, [PE]))
            return None
        r = b64(v)
        if r is None:
            R.append(('undecodable-' + k, [DE]))
        return r
    text(d, 'id')
    text(d, 'type')
    raw = data(d, 'rawId')
    r = d.get('response')
    resp = None
    if type(r) is not dict:
        R.append(('response', [PE]))
    elif 'attestationObject' in r:
        if set(r) - {'clientDataJSON', 'attestationObject'}:
            R.append(('unknown-response-keys', [PE]))
        resp = obj('AuthenticatorAttestationResponse', client_data_JSON=data(r, 'clientDataJSON'),
                   attestation_object=data(r, 'attestationObject'))
    else:
        if set(r) - {'clientDataJSON', 'authenticatorData', 'signature', 'userHandle'}:
            R.append(('unknown-response-keys', [PE]))
        resp = obj('AuthenticatorAssertionResponse', client_data_JSON=data(r, 'clientDataJSON'),
                   authenticator_data=data(r, 'authenticatorData'), signature=data(r, 'signature'),
                   user_handle=None if r.get('userHandle') is None else data(r, 'userHandle'))
    if R:
        return Ref(R)
    return Ref([], obj('PublicKeyCredential', id=d['id'], type=d['type'], raw_id=raw, response=resp))


# ------------------------------------------------------------------ COSE keys
def cbor(b):
    """(value, length) of the first item of b, or None."""
    f = io.BytesIO(b)
    try:
        return cbor2.load(f), f.tell()
    except Exception:
        return None


def cose_map(d, want=None):
    R = []
    kty = enum_nv(d.get(1), KTY)
    alg = enum_nv(d.get(3), ALG)
    if kty is None or (want is None and kty[1] == 'SYMMETRIC'):
        R.append(('kty', [PE]))
    if alg is None:
        R.append(('alg', [PE]))
    kid, iv, ops = d.get(2), d.get(5), d.get(4)
    if kid is not None and type(kid) is not bytes:
        R.append(('kid', [PE]))
    if iv is not None and type(iv) is not bytes:
        R.append(('base-iv', [PE]))
    po = None
    if ops is not None:
        es = [enum_nv(x, KEYOP) for x in ops] if type(ops) in (list, tuple) else []
        if not es or None in es:
            R.append(('key-ops', [PE]))
        else:
            po = ('list', [enum_dump('COSEKeyOperation', e) for e in es])
    kind = want or (kty[1] if kty else None)
    if kind in ('EC2', 'OKP'):
        table, cont = (EC2CRV, 'EC2Curve') if kind == 'EC2' else (OKPCRV, 'OKPCurve')
        crv = enum_nv(d.get(-1), table)
        if crv is None:
            R.append(('crv', [PE]))
        for n, k in (('x', -2), ('y', -3))[:2 if kind == 'EC2' else 1]:
            v = d.get(k)
            if type(v) is not bytes or (crv is not None and len(v) != COORD[crv[1]]):
                R.append((n, [PE]))
    if R:
        return Ref(R)
    f = dict(kty=enum_dump('COSEKeyType', kty), alg=enum_dump('COSEAlgorithmIdentifier', alg), kid=kid, base_IV=iv,
             key_ops=po, crv=enum_dump(cont, crv), x=d[-2])
    if kind == 'EC2':
        return Ref([], obj('EC2CredentialPublicKey', y=d[-3], **f))
    return Ref([], obj('OKPCredentialPublicKey', **f))


def cose_key(k):
    if type(k) is bytes:
        c = cbor(k)
        if c is None:
            return Ref([('cose-cbor', [DE])])
        k = c[0]
        if type(k) is not dict:
            return Ref([('cose-map', [PE])])
    return cose_map(k)


def valid_key(kd):
    """Refusals of a key (plain form) for use in a credential."""
    f = kd[2]
    crv, alg = f['crv'][1].split('.'), f['alg'][1].split('.')
    if kd[1] == 'EC2CredentialPublicKey':
        ok = crv[0] == 'EC2Curve' and crv[2] in EC2CRV, alg[2] in HASH
    else:
        ok = crv[0] == 'OKPCurve' and crv[2] in OKPCRV, alg[2] == 'EDDSA'
    return [(n, [VE]) for n, g in zip(('key-curve', 'key-alg'), ok) if not g]


# ----------------------------------------------------------------- extensions
EXT = {'appid': 'appid', 'txAuthSimple': 'tx_auth_simple', 'txAuthGeneric': 'tx_auth_generic',
       'authnSel': 'authn_sel', 'exts': 'exts', 'uvi': 'uvi', 'loc': 'loc', 'uvm': 'uvm',
       'biometricPerfBounds': 'biometric_perf_bounds'}
LOC = {'latitude': 'latitude', 'longitude': 'longitude', 'altitude': 'altitude', 'accuracy': 'accuracy',
       'altitudeAccuracy': 'altitude_accuracy', 'heading': 'heading', 'speed': 'speed'}


def extensions(d):
    R = []
    if set(d) - set(EXT):
        R.append(('unknown-extension', [PE]))
    t = {'appid': bool, 'authnSel': bool, 'biometricPerfBounds': bool, 'txAuthSimple': str,
         'txAuthGeneric': bytes, 'uvi': bytes}
    for k, c in t.items():
        if d.get(k) is not None and type(d[k]) is not c:
            R.append(('ext-' + k, [PE]))
    e = d.get('exts')
    if e is not None and not (type(e) in (list, tuple) and all(type(x) is str for x in e)):
        R.append(('ext-exts', [PE]))
    m = d.get('uvm')
    if m is not None and not (type(m) is list and all(type(x) is list and all(is_int(y) for y in x) for x in m)):
        R.append(('ext-uvm', [PE]))
    l = d.get('loc')
    lo = None
    if l is not None:
        if type(l) is not dict:
            R.append(('ext-loc', [PE]))
        elif set(l) - set(LOC) or any(type(x) not in (int, float) for x in l.values()):
            R.append(('ext-loc-field', [PE]))
        else:
            lo = obj('Coordinates', **{a: plain(l.get(k)) for k, a in LOC.items()})
    if R:
        return Ref(R)
    f = {a: plain(d.get(k)) for k, a in EXT.items()}
    f['loc'] = lo
    return Ref([], obj('AuthenticationExtensionsClientOutputs', **f))


# --------------------------------------------------------- authenticator data
def auth_data(b):
    if len(b) < 37:
        return Ref([('auth-data-short', [PE])])
    flags = b[32]
    pos, acd, ext = 37, None, None
    if flags & 0x40:
        if len(b) < 55:
            return Ref([('credential-data-short', [PE])])
        n = int.from_bytes(b[53:55], 'big')
        if len(b) < 55 + n:
            return Ref([('credential-id-short', [PE])])
        pos = 55 + n
        c = cbor(b[pos:])
        if c is None:
            return Ref([('credential-key-cbor', [DE])])
        if type(c[0]) is not dict:
            return Ref([('credential-key-map', [PE])])
        k = cose_map(c[0])
        if not k.ok:
            return Ref(k.viol)
        v = valid_key(k.value)
        if v:
            return Ref(v)
        acd = obj('AttestedCredentialData', aaguid=b[37:53], credential_id_length=n, credential_id=b[55:55 + n],
                  credential_public_key=k.value)
        pos += c[1]
    if flags & 0x80:
        c = cbor(b[pos:])
        if c is None:
            return Ref([('extensions-cbor', [DE])])
        R = []
        if type(c[0]) is not dict:
            R.append(('extensions-map', [PE]))
        else:
            x = extensions(c[0])
            R += x.viol
            ext = x.value
        pos += c[1]
        if pos != len(b):
            R.append(('auth-data-leftover', [PE]))
        if R:
            return Ref(R)
    elif pos != len(b):
        return Ref([('auth-data-leftover', [PE])])
    return Ref([], obj('AuthenticatorData', rp_id_hash=b[:32], flags=flags,
                       sign_count=int.from_bytes(b[33:37], 'big'), attested_credential_data=acd, extensions=ext))


# --------------------------------------------------------------- attestation
STMT = {'PACKED': (['alg', 'sig'], 'Packed{}AttestationStatement'),
        'TPM': (['alg', 'sig', 'ver', 'certInfo', 'pubArea'], 'TPM{}AttestationStatement'),
        'ANDROID_KEY': (['alg', 'sig', 'x5c'], 'AndroidKeyAttestationStatement'),
        'ANDROID_SAFETYNET': (['ver', 'response'], 'AndroidSafetyNetAttestationStatement'),
        'FIDO_U2F': (['sig', 'x5c'], 'FIDOU2FAttestationStatement'),
        'NONE': ([], 'NoneAttestationStatement')}
ATTR = {'certInfo': 'cert_info', 'pubArea': 'pub_area', 'ecdaaKeyId': 'ecdaa_key_id'}


def statement(fmt, s):
    keys, cls = STMT[fmt]
    if '{}' in cls:
        v = ''
        if 'x5c' in s:
            keys, v = keys + ['x5c'], 'X509'
        elif 'ecdaaKeyId' in s:
            keys, v = keys + ['ecdaaKeyId'], 'ECDAA'
        cls = cls.format(v)
    R, f = [], {}
    if set(s) - set(keys):
        R.append(('statement-keys', [PE]))
    for k in keys:
        v = s.get(k)
        a = ATTR.get(k, k)
        if k == 'alg':
            e = enum_nv(v, ALG)
            if e is None:
                R.append(('statement-alg', [PE]))
            else:
                f[a] = enum_dump('COSEAlgorithmIdentifier', e)
        elif k == 'x5c':
            if type(v) not in (list, tuple) or any(type(x) is not bytes for x in v):
                R.append(('statement-x5c', [PE]))
            else:
                f[a] = plain(v)
        else:
            if type(v) is not (str if k == 'ver' else bytes):
                R.append(('statement-' + k, [PE]))
            f[a] = plain(v)
    if R:
        return Ref(R)
    return Ref([], obj(cls, **f))


def att_obj(b):
    c = cbor(b)
    if c is None:
        return Ref([('att-obj-cbor', [DE])])
    d = c[0]
    if type(d) is not dict:
        return Ref([('att-obj-map', [PE])])
    R, a, s = [], Ref(), Ref()
    fmt, ad, st = d.get('fmt'), d.get('authData'), d.get('attStmt')
    if type(fmt) is not str or fmt not in FMT:
        R.append(('fmt', [PE]))
    if type(ad) is not bytes:
        R.append(('authData', [PE]))
    else:
        a = auth_data(ad)
        R += a.viol
    if type(st) is not dict:
        R.append(('attStmt', [PE]))
    elif type(fmt) is str and fmt in FMT:
        s = statement(FMT[fmt], st)
        R += s.viol
    if R:
        return Ref(R)
    o = obj('AttestationObject', auth_data=a.value,
            fmt=('enum', 'AttestationStatementFormatIdentifier.' + FMT[fmt]), att_stmt=s.value)
    return Ref([], ('tuple', [o, plain(d)]))


# ------------------------------------------------------------------ signatures
def public_key(k):
    """(refusals, key) of a key in plain form."""
    f = k[2]
    crv = f['crv'][1].split('.')[2]
    try:
        if k[1] == 'EC2CredentialPublicKey':
            if crv not in EC:
                return [('curve', [UE])], None
            n = ec.EllipticCurvePublicNumbers(int.from_bytes(f['x'], 'big'), int.from_bytes(f['y'], 'big'), EC[crv]())
            return [], n.public_key(default_backend())
        if crv not in OKPCRV:
            return [('curve', [UE])], None
        return [], (ed25519.Ed25519PublicKey if crv == 'ED25519' else ed448.Ed448PublicKey).from_public_bytes(f['x'])
    except ValueError:
        return [('point', ['PublicKeyConversionError'])], None


def sig_ok(pk, sig, data, alg=None):
    try:
        if isinstance(pk, ec.EllipticCurvePublicKey):
            if alg not in HASH:
                return False
            pk.verify(sig, data, ec.ECDSA(HASH[alg]()))
        else:
            pk.verify(sig, data)
        return True
    except cryptography.exceptions.InvalidSignature:
        return False


def verify(k, sig, data):
    ve = 'VerificationError'
    alg = k[2]['alg']
    if k[1] == 'EC2CredentialPublicKey' and alg is None:
        R, pk = public_key(k)
        return Ref(R + [('no-alg', [ve])])
    R, pk = public_key(k)
    if R:
        return Ref(R)
    if not sig_ok(pk, sig, data, alg and alg[1].split('.')[2]):
        return Ref([('signature', [ve])])
    return Ref()


def load_cert(der):
    try:
        c = cryptography.x509.load_der_x509_certificate(der, default_backend())
        return c, c.public_key()
    except (ValueError, cryptography.x509.InvalidVersion, cryptography.exceptions.UnsupportedAlgorithm):
        return None


def attest_u2f(stmt, ad, cdh):
    f, a = stmt[2], ad[2]
    acd = a['attested_credential_data'][2]
    x5c = f['x5c'][1]
    if len(x5c) != 1:
        return Ref([('u2f-certificates', [AE])])
    c = load_cert(x5c[0])
    if c is None:
        return Ref([('u2f-certificate', [AE])])
    cert, pk = c
    if not isinstance(pk, ec.EllipticCurvePublicKey) or pk.curve.name != 'secp256r1':
        return Ref([('u2f-certificate-key', [AE])])
    k = acd['credential_public_key']
    if k[1] != 'EC2CredentialPublicKey' or k[2]['crv'][1].split('.')[2] != 'P_256':
        return Ref([('u2f-credential-key', [AE])])
    data = b'\0' + a['rp_id_hash'] + cdh + acd['credential_id'] + b'\x04' + k[2]['x'] + k[2]['y']
    if not sig_ok(pk, f['sig'], data, 'ES256'):
        return Ref([('u2f-signature', [AE])])
    return Ref([], ('tuple', [('enum', 'AttestationType.BASIC'), ('list', [dump(cert)])]))


OID = '1.3.6.1.4.1.11129.2.1.17'


def tlv(b, pos=0):
    """Elements (class+form bits, tag number, content) of a DER sequence of elements."""
    out = []
    while pos < len(b):
        t = b[pos]
        pos += 1
        cl, num = t & 0xe0, t & 0x1f
        if num == 31:
            num = 0
            while True:
                x = b[pos]
                pos += 1
                if num == 0 and x == 0x80:
                    raise ValueError('padded tag')
                num = num << 7 | x & 0x7f
                if not x & 0x80:
                    break
            if num < 31:
                raise ValueError('long form of a short tag')
        n = b[pos]
        pos += 1
        if n & 0x80:
            k = n & 0x7f
            n = int.from_bytes(b[pos:pos + k], 'big')
            pos += k
            if k == 0 or n < 128 or n < 1 << 8 * k - 8:
                raise ValueError('not the shortest length')
        if pos + n > len(b):
            raise ValueError('truncated')
        out.append((cl, num, b[pos:pos + n]))
        pos += n
    return out


# tag -> type of the Android authorization list
AUTHZ = {1: ('purpose', 'set'), 2: ('algorithm', 'int'), 3: ('keySize', 'int'), 5: ('digest', 'set'),
         6: ('padding', 'set'), 10: ('ecCurve', 'int'), 200: ('rsaPublicExponent', 'int'),
         303: ('rollbackResistance', 'null'), 400: ('activeDateTime', 'int'),
         401: ('originationExpireDateTime', 'int'), 402: ('usageExpireDateTime', 'int'),
         503: ('noAuthRequired', 'null'), 504: ('userAuthType', 'int'), 505: ('authTimeout', 'int'),
         506: ('allowWhileOnBody', 'null'), 507: ('trustedUserPresenceRequired', 'null'),
         508: ('trustedConfirmationRequired', 'null'), 509: ('unlockedDeviceRequired', 'null'),
         600: ('allApplications', 'null'), 601: ('applicationId', 'octets'), 701: ('creationDateTime', 'int'),
         702: ('origin', 'int'), 703: ('rollbackResistant', 'null'), 704: ('rootOfTrust', 'rot'),
         705: ('osVersion', 'int'), 706: ('osPatchLevel', 'int'), 709: ('attestationApplicationId', 'octets'),
         710: ('attestationIdBrand', 'octets'), 711: ('attestationIdDevice', 'octets'),
         712: ('attestationIdProduct', 'octets'), 713: ('attestationIdSerial', 'octets'),
         714: ('attestationIdImei', 'octets'), 715: ('attestationIdMeid', 'octets'),
         716: ('attestationIdManufacturer', 'octets'), 717: ('attestationIdModel', 'octets'),
         718: ('vendorPatchLevel', 'int'), 719: ('bootPatchLevel', 'int')}
HEAD = {'int': (0, 2), 'octets': (0, 4), 'null': (0, 5), 'enum': (0, 10), 'bool': (0, 1)}


def well_typed(typ, els):
    """The single element els is of the type."""
    if len(els) != 1:
        return False
    cl, num, c = els[0]
    if typ == 'set':
        return (cl, num) == (0x20, 17) and all(well_typed('int', [e]) for e in tlv(c))
    if typ == 'rot':
        t = tlv(c) if (cl, num) == (0x20, 16) else []
        return len(t) == 4 and all(well_typed(k, [e]) for k, e in zip(('octets', 'bool', 'enum', 'octets'), t))
    if (cl, num) != HEAD[typ]:
        return False
    if typ in ('int', 'enum'):
        return len(c) > 0 and (len(c) == 1 or c[0] not in (0, 255) or (c[0] ^ c[1]) & 128 != 0)
    return len(c) == 0 if typ == 'null' else c in (b'\xff', b'\0') if typ == 'bool' else True


class Undecided(Exception):
    """The reference does not say (input outside what it models)."""


def key_description(raw):
    """(challenge, software list, hardware list) of a well-formed key description; lists map tag -> content."""
    try:
        cl, num, body = tlv(raw)[0]
        el = tlv(body)
        if (cl, num) != (0x20, 16) or len(el) != 8 or not all(
                well_typed(t, [e]) for t, e in zip(('int', 'enum', 'int', 'enum', 'octets', 'octets'), el)) or \
                len(tlv(raw)) != 1:
            raise Undecided
        lists = []
        for cl, num, c in el[6:8]:
            if (cl, num) != (0x20, 16):
                raise Undecided
            m = {}
            for cl2, n2, c2 in tlv(c):
                if cl2 != 0xa0 or n2 not in AUTHZ or n2 <= max(m, default=0) or \
                        not well_typed(AUTHZ[n2][1], tlv(c2)):
                    raise Undecided
                m[n2] = tlv(c2)
            lists.append(m)
        return el[4][2], lists[0], lists[1]
    except (IndexError, ValueError):
        raise Undecided


def attest_android(stmt, ad, raw_ad, cdh):
    f, a = stmt[2], ad[2]
    acd = a['attested_credential_data'][2]
    x5c = f['x5c'][1]
    if not x5c:
        return Ref([('android-certificates', [AE])])
    c = load_cert(x5c[0])
    if c is None:
        return Ref([('android-certificate', [AE])])
    cert, pk = c
    if not isinstance(pk, (ec.EllipticCurvePublicKey, ed25519.Ed25519PublicKey, ed448.Ed448PublicKey)):
        return Ref([('android-certificate-key', [AE])])
    R, cpk = public_key(acd['credential_public_key'])
    if R:
        return Ref(R)
    alg = f['alg'][1].split('.')[2]
    if not sig_ok(pk, f['sig'], raw_ad + cdh, alg):
        R.append(('android-signature', [AE]))
    spki = [k.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo) for k in (pk, cpk)]
    if spki[0] != spki[1]:
        R.append(('android-key', [AE]))
    try:
        ext = cert.extensions.get_extension_for_oid(cryptography.x509.ObjectIdentifier(OID)).value.value
    except (cryptography.x509.ExtensionNotFound, cryptography.x509.DuplicateExtension, ValueError):
        return Ref(R + [('android-extension', [AE])])
    try:
        ch, sw, tee = key_description(ext)
    except Undecided:
        if R:
            return Ref(R)
        r = Ref([('android-description', [AE])])
        r.undecided = True
        return r
    if ch != cdh:
        R.append(('android-challenge', [AE]))
    if 600 in sw or 600 in tee:
        R.append(('android-all-applications', [AE]))

    def ints(el):
        return [int.from_bytes(c, 'big', signed=True) for cl, n, c in el if (cl, n) == (0, 2)]
    if 702 not in tee or ints(tee[702]) != [0]:
        R.append(('android-origin', [AE]))
    try:
        if 1 not in tee or not (tee[1] and tee[1][0][:2] == (0x20, 17) and 2 in ints(tlv(tee[1][0][2]))):
            R.append(('android-purpose', [AE]))
    except (IndexError, ValueError):
        R.append(('android-description', [AE]))
    if R:
        return Ref(R)
    return Ref([], ('tuple', [('enum', 'AttestationType.BASIC'), ('list', [dump(cert)])]))


def attest(stmt, ad, raw_ad, cdh):
    if stmt[1] == 'FIDOU2FAttestationStatement':
        return attest_u2f(stmt, ad, cdh)
    if stmt[1] == 'AndroidKeyAttestationStatement':
        return attest_android(stmt, ad, raw_ad, cdh)
    if stmt[1] == 'NoneAttestationStatement':
        return Ref([], ('tuple', [('enum', 'AttestationType.NONE'), None]))
    return Ref([('unimplemented-format', [UE])])


# ------------------------------------------------------------------ ceremonies
def b64url(s):
    try:
        return base64.b64decode(s + '===', b'-_')
    except ValueError:
        return None


def client_checks(R, sc, prop, typ, cdj):
    exp = [sc['origin']] if isinstance(sc['origin'], str) else list(sc['origin'])
    allowed = []
    if not exp:
        R.append(('no-expected-origin', [OE], prop))
    for o in exp:
        x = origin(o)
        if x.ok:
            allowed.append(x.value)
        else:
            R.append(('expected-origin', [OE], prop))
    c = client_data(cdj)
    if not c.ok:
        R += [(n, e, prop) for n, e in c.viol]
        return
    f = c.value[2]
    if f['type'] != typ:
        R.append(('type', ['ClientDataTypeError'], prop))
    ch = b64url(f['challenge'])
    if ch is None:
        R.append(('challenge-encoding', [DE], prop))
    elif ch != sc['challenge']:
        R.append(('challenge', ['ChallengeError'], prop))
    o = origin(f['origin'])
    if not o.ok or (allowed and o.value not in allowed):
        R.append(('origin', [OE], prop))
    tb = sc['token_binding']
    have = f['token_binding']
    want = None if tb is None else obj('TokenBinding', status=('enum', 'TokenBindingStatus.' + tb[0]), id=tb[1])
    from .base import repr_eq
    if (want is None) != (have is None) or want is not None and not repr_eq(want, have):
        R.append(('token-binding', ['TokenBindingError'], prop))


def auth_checks(R, sc, prop, a, rp_id):
    f = a[2]
    try:
        if hashlib.sha256(rp_id.encode('utf-8')).digest() != f['rp_id_hash']:
            R.append(('rp-id-hash', ['RPIDHashError'], prop))
    except UnicodeEncodeError:
        R.append(('rp-id-encoding', [ANY], prop))
    if not f['flags'] & 1:
        R.append(('user-presence', ['UserPresenceError'], prop))
    if sc['uv'] and not f['flags'] & 4:
        R.append(('user-verification', ['UserVerificationError'], prop))
    x = f['extensions']
    for e in sc['extensions'] or ():
        if x is None or x[2][EXT[e]] is None:
            R.append(('extension', ['ExtensionError'], prop))
            break


def registrar_refuses(R, sc):
    if sc['registrar'] is not None:
        R.append(('registrar', ['RegistrationError'], 'C09'))


def registration(sc):
    """Ref whose value is what the registrar must be given."""
    R = []
    client_checks(R, sc, 'C01', 'webauthn.create', sc['client_data'])
    cdh = hashlib.sha256(sc['client_data']).digest()
    a = att_obj(sc['attestation_object'])
    v = None
    if not a.ok:
        R += [(n, e, 'C02 C03') for n, e in a.viol]
    else:
        o, raw = a.value[1]
        ad = o[2]['auth_data']
        auth_checks(R, sc, 'C02', ad, sc['rp']['id'])
        if ad[2]['attested_credential_data'] is None:
            R.append(('no-credential-data', [ANY], 'C02'))
        else:
            rawad = dict(raw[1])['authData']
            t = attest(o[2]['att_stmt'], ad, rawad, cdh)
            R += [(n, e, 'C03 C19' if n.startswith('u2f') else 'C03 C20' if n.startswith('android') else 'C03')
                  for n, e in t.viol]
            if getattr(t, 'undecided', False):
                r = Ref(R)
                r.undecided = True
                return r
            v = dict(att=o, attestation=t.value)
    checked = not R
    registrar_refuses(R, sc)
    r = Ref(R, v)
    r.checked = checked
    return r


def assertion(sc):
    R = []
    client_checks(R, sc, 'C04', 'webauthn.get', sc['client_data'])
    if sc['allow'] is not None and sc['raw_id'] not in sc['allow']:
        R.append(('not-allowed', ['CredentialNotAllowedError'], 'C07'))
    rec = sc['record']
    a = auth_data(sc['authenticator_data'])
    if not a.ok:
        R += [(n, e, 'C05') for n, e in a.viol]
    v = None
    if rec == 'raise':
        R.append(('lookup', ['RegistrationError'], 'C07 C09'))
    elif rec is None:
        R.append(('unknown-credential', ['CredentialDataError'], 'C07 C09'))
    else:
        uid, uh = rec['user']['id'], sc['user_handle']
        if sc['user'] is not None and sc['user']['id'] != uid:
            R.append(('user-id', ['UserIDError'], 'C07'))
            if uh is not None and uh != uid:
                R.append(('user-handle', ['UserHandleError'], 'C07'))
        elif sc['user'] is None and uh is None:
            R.append(('no-user-handle', ['UserHandleError'], 'C07'))
        elif uh is not None and uh != uid:
            R.append(('user-handle', ['UserHandleError'], 'C07'))
        rp = sc['rp'] or rec['rp']
        if rp is None:
            R.append(('no-rp', ['RPNotFoundError'], 'C07'))
        elif sc['rp'] and rec['rp'] and sc['rp']['id'] != rec['rp']['id']:
            R.append(('rp-id', ['RPIDError'], 'C07'))
        if a.ok and rp is not None:
            auth_checks(R, sc, 'C05', a.value, rp['id'])
        k = verify(rec['key_plain'], sc['signature'],
                   sc['authenticator_data'] + hashlib.sha256(sc['client_data']).digest())
        R += [('signature:' + n, e, 'C06') for n, e in k.viol]
        old = rec['count']
        if a.ok and old is not None:
            new = a.value[2]['sign_count']
            if (old or new) and new <= old and not sc['ignore_clone']:
                R.append(('counter', ['SignatureCountError'], 'C08'))
        v = dict(authenticator_data=a.value, user=uid, rp=rp and rp['id'])
    checked = not R
    registrar_refuses(R, sc)
    r = Ref(R, v)
    r.checked = checked
    return r
