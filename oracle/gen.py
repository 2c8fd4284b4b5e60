"""Generation of cases: honest inputs built from scratch (keys, certificates, authenticator data, client data),
injected deviations, and raw malformed values.  All randomness comes from the Random passed in."""
import ast
import base64
import datetime
import glob
import hashlib
import json
import os
import struct
import unicodedata

import cbor2
import cryptography.x509 as x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, rsa
from cryptography.hazmat.primitives.asymmetric.padding import PKCS1v15
from cryptography.hazmat.primitives.asymmetric.utils import (
    Prehashed, decode_dss_signature, encode_dss_signature)
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from cryptography.x509.oid import NameOID

from . import ref
from .base import REPO, any_digits

BK = default_backend()


# ------------------------------------------------------------- value pools
class Pool:
    def __init__(self):
        self.s, self.i, self.b = [], [], []


POOL = Pool()


def load_pool(extra=()):
    """Constants of the source under test, and values from solver models."""
    s, i, b = set(), set(), set()
    for f in sorted(glob.glob(os.path.join(REPO, 'webauthn_rp', '*.py'))):
        try:
            t = ast.parse(open(f).read())
        except (SyntaxError, OSError, ValueError):
            continue
        docs = set()
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and \
                    isinstance(n.body[0], ast.Expr):
                docs.add(id(getattr(n.body[0], 'value', None)))
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if type(v) is str and len(v) < 60:
                    s.add(v)
                elif type(v) is int:
                    i.add(v)
                elif type(v) is bytes and len(v) < 200:
                    b.add(v)
    for v in extra:
        if type(v) is str and len(v) < 5000:
            s.add(v)
        elif type(v) is int:
            i.add(v)
        elif type(v) is bytes:
            b.add(v)
    POOL.s, POOL.i, POOL.b = sorted(s), sorted(i), sorted(b)
    POOL.extra = list(extra)
    POOL.xi = sorted({v for v in extra if type(v) is int})
    POOL.sizes = sorted({k for v in i for k in (v - 1, v, v + 1) if 4 < k <= 5000} |
                        {k for v in s if len(v) > 3 for k in (len(v), len(v) + 1)} |
                        {17, 25, 33, 65, 101, 129, 257, 300, 1025, 2049, 5000})
    POOL.xs = sorted({v for v in extra if type(v) is str and len(v) < 5000})


INTS = [0, 1, -1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 64, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31,
        2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64, -7, -8, -35, -36, -257, -2 ** 63, 10 ** 30]
HUGE = [10 ** 4400, -10 ** 4400]
STRS = ['', ' ', 'a', 'é', '\x00', 'ES256', 'es256', 'EdDSA', 'EDDSA', 'P-256', 'P_256', 'Ed25519', 'present',
        'supported', 'not-supported', 'webauthn.create', 'webauthn.get', 'null', 'none', 'None', '\ud800', '=', '====',
        'YQ==', 'YQ', 'Y', 'https://a.com', 'OKP', 'EC2', 'sign', 'verify', 'Verify', '2.0', '𝔸', 'İ', 'a\n']


def size(r, small, p=.02, most=5000):
    """A number below small, sometimes a much larger one, near a constant of the source."""
    if r.random() >= p:
        return r.randrange(small)
    n = r.choice(POOL.sizes)
    return n if n <= most else r.choice([r.randrange(small), most])


def bounded(n, *vals):
    """n, or fewer when so many of these values would take up too much room."""
    with any_digits():
        return min(n, 200000 // (1 + max(len(repr(v)) for v in vals)))


def many(r, n, make):
    """n values; the first ones are made, many more are repetitions."""
    out = [make() for _ in range(min(n, 6))]
    if n > 6:
        n = max(7, bounded(n, *out))
        out = [r.choice(out) for _ in range(n - 6)] + out
    return out


def any_int(r):
    x = r.random()
    if x < .3 and POOL.i:
        return r.choice(POOL.i)
    if x < .33:
        return r.choice(HUGE)
    if x < .8:
        return r.choice(INTS)
    return r.randrange(-2 ** r.randrange(1, 70), 2 ** r.randrange(1, 70))


def any_str(r):
    x = r.random()
    if x < .35 and POOL.s:
        return r.choice(POOL.s)
    if x < .77:
        return r.choice(STRS)
    if x < .8:
        return r.choice(['a', 'ab', 'Az', '0', 'é', '=', 'A']) * size(r, 9, .8)
    return ''.join(chr(r.choice([r.randrange(32, 127), r.randrange(0, 0x300)])) for _ in range(r.randrange(12)))


def any_bytes(r):
    x = r.random()
    if x < .15 and POOL.b:
        return r.choice(POOL.b)
    if x < .2:
        return r.randbytes(size(r, 100, .7))
    return r.randbytes(r.choice([0, 1, 2, 16, 31, 32, 33, 48, 57, 65, 66, r.randrange(100)]))


def json_value(r, depth=2):
    x = r.randrange(9 if depth else 6)
    if x == 0:
        return None
    if x == 1:
        return r.random() < .5
    if x == 2:
        return any_int(r)
    if x == 3:
        return r.choice([0.0, 1.0, 2.0, -7.0, 1.5, 1e300])
    if x < 6:
        return any_str(r)
    if x == 6:
        if r.random() < .04:
            v = json_value(r, 0)
            for _ in range(size(r, 9, .5, 150)):
                v = r.choice([[v], {'k': v}])
            return v
        return many(r, size(r, 4), lambda: json_value(r, depth - 1))
    return members(r, {any_str(r): json_value(r, depth - 1) for _ in range(r.randrange(4))})


def members(r, d, p=.03):
    """The map, sometimes with many further members."""
    if r.random() < p:
        v = json_value(r, 0)
        d = {**{'k%d' % i: v for i in range(bounded(size(r, 9, .9), v))}, **d}
    return d


def cbor_value(r, depth=2):
    x = r.randrange(12)
    if x < 3:
        return any_bytes(r)
    if x < 9:
        if depth and x == 8:
            return {cbor_key(r): cbor_value(r, depth - 1) for _ in range(r.randrange(4))}
        return json_value(r, depth)
    if x == 9 and depth:
        return many(r, size(r, 4), lambda: cbor_value(r, depth - 1))
    if x == 10:
        return any_int(r)
    return any_str(r)


def cbor_key(r):
    x = r.randrange(8)
    return any_str(r) if x < 4 else any_int(r) if x < 6 else any_bytes(r) if x < 7 else r.choice([True, False, 1.0])


# ---------------------------------------------------------- raw CBOR encoding
def enc_head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    for k, c in ((1, 24), (2, 25), (4, 26), (8, 27)):
        if n < 256 ** k:
            return bytes([major << 5 | c]) + n.to_bytes(k, 'big')
    raise ValueError


ODD = [b'\xf7', b'\xe0', b'\xf8\x20', b'\xc0\x6120', b'\xc1\x1a\x00\x00\x00\x01', b'\xc1\xfb\x7f\xf0\x00\x00\x00\x00\x00\x00',
       b'\xc4\x82\x21\x19\x6a\xb3', b'\xd8\x1e\x82\x01\x02', b'\xd8\x1e\x82\x01\x00', b'\xd8\x23\x61(', b'\xd8\x25\x41\x00',
       b'\xd9\x01\x02\x81\x01', b'\xd8\x1c\x81\xd8\x1d\x00', b'\xc2\x49\x01\x00\x00\x00\x00\x00\x00\x00\x00', b'\xc3\x41\x05',
       b'\xf9\x7e\x00', b'\xf9\x7c\x00', b'\xd8\x2a\x41\x00', b'\xd9\xd9\xf7\x01', b'\xd8\x24\x61\x61', b'\xff',
       b'\x1c', b'\x5f\x41\x00\xff', b'\x7f\x61\x61\xff', b'\x9f\x01\xff', b'\xbf\x01\x02\xff', b'\xbf\x01\xff',
       b'\x62\xff\xfe', b'\x78\xff', b'\x9b\xff\xff\xff\xff\xff\xff\xff\xff', b'\x5b\xff\xff\xff\xff\xff\xff\xff\xff',
       b'\x81' * 3000, b'\xd8\x1d\x05', b'\xc0\x00', b'\xd8\x28\x82\x82\x02\x02\x84\x01\x02\x03\x04']


class Raw(bytes):
    """Bytes that are already CBOR."""


def enc(v, r=None, indef=0.0):
    """CBOR encoding with control over form; Raw is spliced in."""
    if isinstance(v, Raw):
        return bytes(v)
    if type(v) in (list, tuple):
        body = b''.join(enc(x, r, indef) for x in v)
        return b'\x9f' + body + b'\xff' if r and r.random() < indef else enc_head(4, len(v)) + body
    if type(v) is dict:
        body = b''.join(enc(k, r, indef) + enc(x, r, indef) for k, x in v.items())
        return b'\xbf' + body + b'\xff' if r and r.random() < indef else enc_head(5, len(v)) + body
    if type(v) is bytes and r and r.random() < indef:
        h = len(v) // 2
        return b'\x5f' + enc_head(2, h) + v[:h] + enc_head(2, len(v) - h) + v[h:] + b'\xff'
    if type(v) is str and r and r.random() < indef:
        b = v.encode('utf-8', 'surrogatepass')
        return b'\x7f' + enc_head(3, len(b)) + b + b'\xff'
    if type(v) is str:
        b = v.encode('utf-8', 'surrogatepass')
        return enc_head(3, len(b)) + b
    return cbor2.dumps(v)


# ----------------------------------------------------------------------- keys
_KEYS = {}
ALG_OF = {'P_256': 'ES256', 'P_384': 'ES384', 'P_521': 'ES512', 'ED25519': 'EDDSA', 'ED448': 'EDDSA'}


def private(r, crv, i=None):
    i = r.randrange(4) if i is None else i
    k = _KEYS.get((crv, i))
    if k is None:
        k = ec.generate_private_key(ref.EC[crv](), BK) if crv in ref.EC else (
            ed25519.Ed25519PrivateKey if crv == 'ED25519' else ed448.Ed448PrivateKey).generate()
        _KEYS[crv, i] = k
    return k


OTHER_CURVES = ['SECP256K1', 'BrainpoolP256R1', 'SECP192R1', 'SECP224R1', 'SECT283R1', 'BrainpoolP384R1']


def other_private(name):
    """A key of a kind or on a curve that WebAuthn does not use."""
    k = _KEYS.get(name)
    if k is None:
        k = _KEYS[name] = rsa.generate_private_key(65537, 2048, BK) if name == 'RSA' else \
            ec.generate_private_key(getattr(ec, name)(), BK)
    return k


# private numbers of keys whose coordinates begin or end with zero bytes (one, two, in both) or with white space
EDGE_KEYS = {'P_256': [43, 379, 379, 104, 273, 21, 64, 2376, 40393, 49350],
             'P_384': [176, 197, 197, 105, 603, 49, 11, 93150, 14971, 6394],
             'P_521': [73, 273, 273, 23, 211, 67, 10, 63506, 10735, 370728],
             'ED25519': [36, 86, 182, 214], 'ED448': [0, 30, 77]}


def edge_key(r, crv):
    n = r.choice(EDGE_KEYS[crv])
    k = _KEYS.get((crv, 'edge', n))
    if k is None:
        if crv in ref.EC:
            k = ec.derive_private_key(n, ref.EC[crv](), BK)
        elif crv == 'ED25519':
            k = ed25519.Ed25519PrivateKey.from_private_bytes(n.to_bytes(32, 'big'))
        else:
            k = ed448.Ed448PrivateKey.from_private_bytes(n.to_bytes(57, 'big'))
        _KEYS[crv, 'edge', n] = k
    return k


def pick_private(r, crv):
    return edge_key(r, crv) if r.random() < .3 else private(r, crv)


def coords(k, crv):
    if crv in ref.EC:
        n = k.public_key().public_numbers()
        c = ref.COORD[crv]
        return n.x.to_bytes(c, 'big'), n.y.to_bytes(c, 'big')
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    return k.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw), None


def sign(k, data, alg):
    if isinstance(k, ec.EllipticCurvePrivateKey):
        return k.sign(data, ec.ECDSA(ref.HASH[alg]()))
    return k.sign(data)


def bad_sig(r, sig, key, data, alg):
    """A signature some lenient verifier may take for one of data by key."""
    out = [flip(r, sig), b'', r.randbytes(64), r.randbytes(70), sig[:-1], sig + b'\0', b'\0' * len(sig), b'\0' + sig,
           sig[::-1], b'\0' * 64, near_bytes(r, sig), data[:r.choice([1, 8, 16, 32, 64])], data[-32:], data,
           hashlib.sha256(data).digest(), hashlib.sha256(data).digest()[:r.choice([1, 8, 16])]]
    if isinstance(key, ec.EllipticCurvePrivateKey):
        a, b = decode_dss_signature(sig)
        n = (key.key_size + 7) // 8
        out += [a.to_bytes(n, 'big') + b.to_bytes(n, 'big')] * 3
        out += [b.to_bytes(n, 'big') + a.to_bytes(n, 'big'), encode_dss_signature(b, a), encode_dss_signature(0, 0)]
        h = ref.HASH.get(alg) or hashes.SHA256
        out += [key.sign(hashlib.new(h.name, data).digest(), ec.ECDSA(h())),
                key.sign(data, ec.ECDSA(Prehashed(hashes.SHA256()))) if len(data) == 32 else b'']
        out += [sign(key, data, x) for x in ref.HASH if x != alg]
    else:
        out += [sign(key, hashlib.sha256(data).digest(), alg), sign(key, hashlib.sha512(data).digest(), alg),
                base64.b64encode(sig), sig.hex().encode()]
    return r.choice(out)


def pick_curve(r):
    return r.choice(['P_256', 'P_256', 'P_384', 'P_521', 'ED25519', 'ED448'])


def key_spec(r, crv=None, k=None, alg=None, form=None, extras=None):
    """(spec for kinds.mk_key, private key)"""
    crv = crv or pick_curve(r)
    k = k or pick_private(r, crv)
    x, y = coords(k, crv)
    ec2 = crv in ref.EC
    alg = alg or (r.choice(list(ref.HASH)) if ec2 and r.random() < .4 else ALG_OF[crv])
    f = lambda: form or r.choice(['Value', 'Value', 'Name'])
    s = dict(cls='EC2' if ec2 else 'OKP', x=x, kty='COSEKeyType.%s.%s' % (f(), 'EC2' if ec2 else 'OKP'),
             crv='%s.%s.%s' % ('EC2Curve' if ec2 else 'OKPCurve', f(), crv),
             alg='COSEAlgorithmIdentifier.%s.%s' % (f(), alg))
    if ec2:
        s['y'] = y
    if extras is None:
        extras = r.random() < .5
    if extras:
        if r.random() < .5:
            s['kid'] = any_bytes(r)
        if r.random() < .5:
            s['base_IV'] = any_bytes(r)
        if r.random() < .5:
            s['key_ops'] = many(r, size(r, 4) + 1, lambda: 'COSEKeyOperation.%s.%s' % (f(), r.choice(list(ref.KEYOP))))
    return s, k


TAB = {'COSEKeyType': ref.KTY, 'COSEAlgorithmIdentifier': ref.ALG, 'EC2Curve': ref.EC2CRV, 'OKPCurve': ref.OKPCRV,
       'COSEKeyOperation': ref.KEYOP}


def value_of(path):
    c, form, n = path.split('.')
    return TAB[c][n][0 if form == 'Name' else 1]


def cose_dict(s):
    d = {1: value_of(s['kty']), 3: value_of(s['alg']), -1: value_of(s['crv']), -2: s['x']}
    if s['cls'] == 'EC2':
        d[-3] = s['y']
    if s.get('kid') is not None:
        d[2] = s['kid']
    if s.get('key_ops') is not None:
        d[4] = [value_of(o) for o in s['key_ops']]
    if s.get('base_IV') is not None:
        d[5] = s['base_IV']
    return d


def shuffled(r, d):
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


# -------------------------------------------------------------- extensions
def ext_dict(r, want=(), cbor=True):
    d = {}
    for k in list(want) + [k for k in ref.EXT if r.random() < .25]:
        d[k] = ext_value(r, k)
    return shuffled(r, d)


def ext_value(r, k):
    if k in ('appid', 'authnSel', 'biometricPerfBounds'):
        return r.random() < .5
    if k == 'txAuthSimple':
        return r.choice(['', 'Execute order 66', 'é', any_str(r)])
    if k in ('txAuthGeneric', 'uvi'):
        return r.randbytes(r.choice([65536, 70000])) if r.random() < .01 else any_bytes(r)
    if k == 'exts':
        return many(r, size(r, 3), lambda: r.choice(['a', '', 'uvm', any_str(r)]))
    if k == 'uvm':
        return many(r, size(r, 3), lambda: many(r, size(r, 4), lambda: r.choice([r.randrange(5), any_int(r)])))
    return {n: r.choice([0, 1, -3, 1.5, 0.0, -0.0]) for n in ref.LOC if r.random() < .4}


def auth_bytes(p):
    """Authenticator data from parts."""
    b = p['rp_hash'] + bytes([p['flags']]) + struct.pack('>I', p['count'])
    if p.get('key') is not None:
        b += p['aaguid'] + struct.pack('>H', p.get('id_len', len(p['cred_id'])) & 0xffff) + p['cred_id'] + p['key']
    if p.get('ext') is not None:
        b += p['ext']
    return b + p.get('tail', b'')


# ---------------------------------------------------------------- certificates
def certificate(r, pub, signer, sign_hash, exts=()):
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'test')])
    b = x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(pub).serial_number(
        r.randrange(1, 2 ** 60)).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(
        datetime.datetime(2040, 1, 1))
    for oid, raw in exts:
        b = b.add_extension(x509.UnrecognizedExtension(x509.ObjectIdentifier(oid), raw), critical=False)
    return b.sign(signer, sign_hash, BK).public_bytes(Encoding.DER)


def der(tag, content):
    n = len(content)
    ln = bytes([n]) if n < 128 else bytes([0x80 | (n.bit_length() + 7) // 8]) + n.to_bytes((n.bit_length() + 7) // 8,
                                                                                          'big')
    return tag + ln + content


def der_int(v, tag=b'\x02'):
    return der(tag, v.to_bytes(max(1, (v.bit_length() + 8) // 8), 'big', signed=True))


def ctx(n):
    if n < 31:
        return bytes([0xa0 | n])
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append(0x80 | n & 0x7f)
        n >>= 7
    return b'\xbf' + bytes(reversed(out))


NULL = b'\x05\x00'
AUTHZ = ref.AUTHZ


def authz_value(r, typ, v=None):
    if typ == 'null':
        return NULL
    if typ == 'int':
        return der_int(r.choice([0, 1, 2, 3, 128, 256, 65537, 201907, 2 ** 40]) if v is None else v)
    if typ == 'set':
        v = [r.choice([0, 1, 2, 3, 4, 5]) for _ in range(r.randrange(1, 4))] if v is None else v
        return der(b'\x31', b''.join(der_int(x) for x in v))
    if typ == 'octets':
        return der(b'\x04', any_bytes(r))
    return der(b'\x30', der(b'\x04', r.randbytes(32)) + der(b'\x01', b'\xff') + der_int(r.randrange(4), b'\x0a') +
               der(b'\x04', r.randbytes(32)))


def authz_list(r, fields, noise=.3, without=()):
    """fields: tag -> value (None: random)."""
    out = b''
    for t in sorted(AUTHZ):
        if t in fields or (t not in without and r.random() < noise):
            out += der(ctx(t), authz_value(r, AUTHZ[t][1], fields.get(t)))
    return der(b'\x30', out)


def key_description(r, p):
    body = der_int(r.choice([1, 2, 3, 4])) + der_int(r.randrange(3), b'\x0a') + der_int(r.choice([2, 3, 4])) + \
        der_int(r.randrange(3), b'\x0a') + der(b'\x04', p['challenge']) + der(b'\x04', any_bytes(r))
    guard = (1, 600, 702)
    return der(b'\x30', body + authz_list(r, p['sw'], p.get('noise', .2), guard) +
               authz_list(r, p['tee'], p.get('noise', .2), guard))


# -------------------------------------------------------------------- origins
HOSTS = ['example.com', 'EXAMPLE.com', 'login.example.com', 'a', '127.0.0.1', '[::1]', 'xn--e1afmkfd.example',
         'example.com.', 'webauthn.org']


def good_origin(r, scheme=None, host=None, port=None):
    scheme = scheme or r.choice(['https', 'https', 'http'])
    host = host or r.choice(HOSTS)
    if r.random() < .05:
        n = size(r, 9, .9)
        host = r.choice(['a' * n, 'a.' * (n // 2) + host if '[' not in host else host, 'a' * n + '.com'])
    if port is None:
        port = r.choice([None, None, 80, 443, 8080, 8443, 1, 65535])
    s = scheme if r.random() < .9 else scheme.upper()
    return '%s://%s%s' % (s, host, '' if port is None else ':%d' % port), (scheme, host, port)


def spelled(r, o):
    """Another spelling of the same origin."""
    scheme, host, port = o
    d = 80 if scheme == 'http' else 443
    if port is None or port == d:
        port = r.choice([None, d])
    p = '' if port is None else ':' + r.choice(['%d', '%05d' if port < 65536 else '%d', '%d']) % port
    if port is None and r.random() < .2:
        p = ':'
    h = r.choice([host, host.upper(), host.lower(), host.title()])
    s = r.choice([scheme, scheme, scheme.upper()])
    return '%s://%s%s' % (s, h, p)


def other_origin(r, o):
    scheme, host, port = o
    d = 80 if scheme == 'http' else 443
    x = r.randrange(12)
    h = host
    if x == 0:
        return spelled(r, ({'http': 'https', 'https': 'http'}[scheme], host, port or d))
    if x == 1:
        return spelled(r, (scheme, host, (port or d) + 1 if (port or d) < 65535 else 1))
    if x == 2:
        return spelled(r, (scheme, 'evil.' + host, port))
    if x == 3:
        return spelled(r, (scheme, host + '.evil.com', port)) if '[' not in host else 'https://[::2]'
    if x == 4:
        return '%s://%s@evil.com' % (scheme, host)
    if x == 5:
        return spelled(r, (scheme, 'evil.com', port))
    if x == 6:
        return spelled(r, (scheme, host[1:] or 'b', port)) if '[' not in host else 'http://[::3]'
    if x == 7:
        return spelled(r, o) + r.choice(['/', '/path', '?q', '#f', ';p', '/?', '?q=https://' + host])
    if x == 8:
        return '%s://user:pw@%s' % (scheme, host)
    if x == 9:
        return r.choice(['null', '', host, '//' + host, 'ftp://' + host, 'android:apk-key-hash:x', scheme + ':' + host,
                         scheme + '://', scheme + ':///' + host, 'javascript://' + host])
    if x == 10:
        return '%s://%s:%s' % (scheme, host, r.choice(['x', '-1', '65536', '99999', '443x', '4 3', '٤٤٣', '+443']))
    return spelled(r, (scheme, host, r.choice([1, 8, 444, 4430, 8443 if port != 8443 else 8444])))


def origin_string(r):
    x = r.random()
    if x < .35:
        return spelled(r, good_origin(r)[1])
    if x < .7:
        return other_origin(r, good_origin(r)[1])
    s = spelled(r, good_origin(r)[1])
    for _ in range(r.randrange(1, 4)):
        i = r.randrange(len(s) + 1)
        c = r.choice([':', '/', '@', '?', '#', ';', '[', ']', ' ', '\t', '\n', '%', '\\', '.', '0', '9', 'a', 'A',
                      'é', '\u2100', '\uff0f', '\x00', '\ud800', ':443', ':80', '//', any_str(r)])
        s = s[:i] + c + s[i + r.randrange(2):]
    return s


# ---------------------------------------------------------------- client data
def url64(b, r):
    s = base64.b64encode(b, b'-_').decode()
    return s if r.random() < .3 else s.rstrip('=')


def json_bytes(r, d, plain=False):
    kw = {}
    if r.random() < .3:
        kw['ensure_ascii'] = False
    if r.random() < .3:
        kw['separators'] = (',', ':')
    with any_digits():
        s = json.dumps(d, **kw)
    if not plain and r.random() < .1:
        s = ' ' * size(r, 2) + s + '\n' * size(r, 3)
    return s.encode('utf-8', 'surrogatepass')


def bad_json(r, d):
    with any_digits():
        s = json.dumps(d)
    x = r.randrange(9)
    if x == 0:
        return s.encode('utf-16')
    if x == 1:
        return b'\xef\xbb\xbf' + s.encode()
    if x == 2:
        return s.encode()[:r.randrange(len(s))]
    if x == 3:
        return s.encode() + r.choice([b'x', b'{}', b'\x00', b'\xff'])
    if x == 4:
        b = bytearray(s.encode())
        b[r.randrange(len(b))] = r.choice([0xff, 0x80, 0xc0])
        return bytes(b)
    if x == 5:
        return r.choice([b'', b'null', b'[]', b'1', b'"x"', b'true', b'[{}]', b'1' * 5000, b'{"type":' + b'1' * 5000 + b'}'])
    if x == 6:
        return s.encode('utf-32')
    if x == 7:
        return b'[' * 100000
    return s.encode('latin-1', 'replace') + b'\xe9'


def odd_client_data(r, d):
    """Client data with a field changed to something else."""
    d = dict(d)
    x = r.randrange(8)
    if x < 3:
        k = r.choice(['type', 'challenge', 'origin'])
        if r.random() < .4:
            d.pop(k, None)
        else:
            d[k] = json_value(r)
    elif x < 7:
        y = r.randrange(6)
        if y == 0:
            d['tokenBinding'] = json_value(r)
        elif y == 1:
            d['tokenBinding'] = {'status': json_value(r), 'id': r.choice([None, 'x', json_value(r)])}
        elif y == 2:
            d['tokenBinding'] = {'status': 'present'}
        elif y == 3:
            d['tokenBinding'] = {'status': 'present', 'id': None}
        elif y == 4:
            d['tokenBinding'] = {'id': 'x'}
        else:
            d['tokenBinding'] = {'status': r.choice(['supported', 'present', 'Present', 'PRESENT', 'not-supported', '']),
                                 'id': json_value(r)}
    else:
        d[any_str(r)] = json_value(r)
    return d


def near_text(r, s):
    """A different string that some normalisation may take for s."""
    out = [s.upper(), s.lower(), s.title(), s.swapcase(), s.casefold(), s + '.', s + ' ', ' ' + s, s + '\0', s[:-1],
           s[1:], s.strip(), s.strip('.'), s + s[-1:], 'www.' + s, '.' + s, 'https://' + s, s + ':443', s + '/',
           s.split('.', 1)[-1], s.split('.')[0], s.replace('.', ''), s.replace('.', '\u3002'), s[::-1], s[:8], s[:32],
           unicodedata.normalize('NFKC', s), unicodedata.normalize('NFKD', s), s.encode('ascii', 'ignore').decode(),
           s.encode('ascii', 'replace').decode(), s.replace('e', '\u0435'), s.replace('s', '\u017f'), '', any_str(r)]
    try:
        out.append(s.encode('idna').decode())
    except UnicodeError:
        pass
    out = [x for x in out if x != s]
    return r.choice(out) if out else 'x'


def near_bytes(r, b):
    """Different bytes that some loose comparison may take for b."""
    out = [b + b'\0', b'\0' + b, b[:-1], b[1:], b[::-1], b.upper(), b.lower(), b.strip(), b + b[-1:], b.rstrip(b'\0'),
           b.lstrip(b'\0'), b[:1], b[:8], b[:16], b[:32], b'', b + b, b.hex().encode(), base64.b64encode(b),
           base64.urlsafe_b64encode(b), bytes(x & 0x7f for x in b), bytes(sorted(b)), b[1:] + b[:1], b'other']
    if b:
        for i in (0, len(b) - 1, r.randrange(len(b))):
            out += [b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]] * 2
    out = [x for x in out if x != b]
    return r.choice(out)


# ------------------------------------------------------------------ ceremonies
def user(r):
    return {'name': r.choice(['n', '']), 'display_name': 'd', 'icon': r.choice([None, 'i']), 'id': r.choice(
        [b'user', b'', b'User', r.randbytes(8), r.randbytes(64), b'\0', b'0', b'\0user', b'user\0', r.randbytes(65),
         r.randbytes(size(r, 99, .3))])}


def rp(r):
    return {'name': r.choice(['rp', '']), 'icon': r.choice([None, 'i']), 'id': r.choice(
        ['example.com', 'example.com', 'a', '', 'é.example', 'login.example.com', 'Example.COM', 'example.com.',
         'É.example', 'localhost', ' a', 'ﬁ.example', 'xn--9ca.example', 'a' * 300, '0', 'https://example.com',
         'stra\u00dfe.de', 'İ.example'])}


def common(r):
    """Expectations and matching client data."""
    o, parts = good_origin(r)
    exp = o
    how = None
    if r.random() < .5:
        exp = many(r, size(r, 3, most=300), lambda: good_origin(r)[0]) + [o]
        r.shuffle(exp)
        how = r.choice(['list', 'tuple', 'set', 'frozenset'])
    ch = r.choice([r.randbytes(32), r.randbytes(16), b'\xfb\xff\xfe', b'\xff' * 20, r.randbytes(r.randrange(1, 5)),
                   r.randbytes(size(r, 64, .3)), b''])
    tb = None
    x = r.random()
    if x < .25:
        tb = ('SUPPORTED', r.choice([None, 'x', '']))
    elif x < .5:
        tb = ('PRESENT', r.choice(['x', '', 'longer id', 'x' * size(r, 99)]))
    cd = {'challenge': url64(ch, r), 'origin': spelled(r, parts)}
    if tb is not None:
        cd['tokenBinding'] = {'status': tb[0].lower()}
        if tb[1] is not None or r.random() < .3:
            cd['tokenBinding']['id'] = tb[1]
    elif r.random() < .3:
        cd['tokenBinding'] = None
    if r.random() < .3:
        cd['hashAlgorithm'] = 'SHA-256'
    if r.random() < .2:
        cd['crossOrigin'] = False
    cd = members(r, cd)
    exts = None
    x = r.random()
    if x < .3:
        exts = sorted(r.sample(sorted(ref.EXT), r.randrange(0, 4)))
    return dict(origin=exp, how=how, challenge=ch, token_binding=tb, uv=r.random() < .4, extensions=exts,
                registrar=None, omit=r.random() < .5), cd, parts


CLIENT_DEV = ['type', 'challenge', 'challenge-enc', 'origin', 'exp-origin', 'no-origin', 'tb-status', 'tb-id',
              'tb-extra', 'tb-missing', 'odd', 'badjson']
AUTH_DEV = ['rp-hash', 'up', 'uv', 'ext-missing', 'ext-null', 'ad-short', 'ad-long', 'ad-flip', 'no-at', 'ext-bad']


def client_deviate(r, dev, sc, cd, parts, other_type):
    if dev == 'type':
        t = cd['type']
        cd['type'] = r.choice([other_type, other_type.upper(), '', t + ' ', any_str(r), near_text(r, t),
                               'payment.' + t.split('.')[-1], t.split('.')[-1], t.split('.')[0] + '.',
                               t.split('.')[0] + '.' + other_type.split('.')[-1] + '.' + t.split('.')[-1],
                               t + '.' + t.split('.')[-1], other_type + t, t + other_type])
    elif dev == 'challenge':
        ch = sc['challenge']
        y = r.randrange(9)
        if y == 0:
            new = ch + b'\0'
        elif y == 1:
            new = ch[:-1]
        elif y == 2:
            new = b''
        elif y == 3 and ch:
            i = r.randrange(len(ch))
            new = ch[:i] + bytes([ch[i] ^ (1 << r.randrange(8))]) + ch[i + 1:]
        elif y == 4:
            new = ch[::-1]
        else:
            new = near_bytes(r, ch)
        if r.random() < .3:
            sc['challenge'] = r.choice([b'', new, ch[:8]])
        else:
            cd['challenge'] = url64(new, r)
    elif dev == 'challenge-enc':
        cd['challenge'] = r.choice([cd['challenge'][:-1], cd['challenge'] + 'A', 'A', 'AAAAA', 'é', 'A=A', '====',
                                    cd['challenge'].replace('-', '+').replace('_', '/'), ' ' + cd['challenge'],
                                    cd['challenge'].upper(), cd['challenge'] + '=', any_str(r)])
    elif dev == 'origin':
        cd['origin'] = other_origin(r, parts)
    elif dev == 'exp-origin':
        bad = other_origin(r, parts)
        sc['origin'], sc['how'] = (bad, None) if r.random() < .5 else \
            ([other_origin(r, parts) for _ in range(r.randrange(1, 4))], 'list')
    elif dev == 'no-origin':
        sc['origin'], sc['how'] = [], r.choice(['list', 'tuple', 'set', 'frozenset'])
    elif dev == 'tb-status':
        sc['token_binding'] = (r.choice(['SUPPORTED', 'PRESENT']), r.choice([None, 'x']))
    elif dev == 'tb-id':
        i = r.choice([None, 'x', '', 'X', 'x ', 'y', near_text(r, (sc['token_binding'] or ('', 'x'))[1] or 'x')])
        if sc['token_binding'] is None:
            sc['token_binding'] = ('SUPPORTED', 'x')
            cd['tokenBinding'] = {'status': 'supported', 'id': r.choice([i, json_value(r)])}
        else:
            cd['tokenBinding'] = dict(cd.get('tokenBinding') or {'status': sc['token_binding'][0].lower()}, id=i)
    elif dev == 'tb-extra':
        sc['token_binding'] = None
        cd['tokenBinding'] = {'status': r.choice(['supported', 'present']), 'id': r.choice(['x', ''])}
    elif dev == 'tb-missing':
        if sc['token_binding'] is None:
            sc['token_binding'] = (r.choice(['SUPPORTED', 'PRESENT']), r.choice([None, 'x']))
        cd.pop('tokenBinding', None)
        if r.random() < .4:
            cd['tokenBinding'] = None
    elif dev == 'odd':
        new = odd_client_data(r, cd)
        cd.clear()
        cd.update(new)


def flip(r, b):
    if not b:
        return b
    b = bytearray(b)
    for _ in range(r.randrange(1, 3)):
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b)


def auth_parts(r, sc, rp_id, attested, key_bytes, cred_id):
    sc['rp_id'] = rp_id
    fl = 1 | (4 if sc['uv'] or r.random() < .4 else 0) | (r.choice([0, 0, 2, 8, 16, 32, 0x3a]))
    p = dict(rp_hash=hashlib.sha256(rp_id.encode('utf-8')).digest(), count=0, flags=fl)
    if attested:
        p.update(aaguid=r.choice([b'\0' * 16, r.randbytes(16)]), cred_id=cred_id, key=key_bytes)
        p['flags'] |= 0x40
    if sc['extensions'] or r.random() < .3:
        p['extd'] = ext_dict(r, sc['extensions'] or ())
        p['flags'] |= 0x80
    return p


def auth_deviate(r, dev, sc, p):
    if dev == 'rp-hash':
        if r.random() < .4:
            try:
                p['rp_hash'] = hashlib.sha256(near_text(r, sc.get('rp_id', 'x')).encode('utf-8')).digest()
                return
            except UnicodeError:
                pass
        p['rp_hash'] = r.choice([r.randbytes(32), hashlib.sha256(b'evil.com').digest(), hashlib.sha256(b'').digest(),
                                 flip(r, p['rp_hash']), b'\0' * 32,
                                 p['rp_hash'][:16] + r.randbytes(16), r.randbytes(16) + p['rp_hash'][16:],
                                 p['rp_hash'][:31] + bytes([p['rp_hash'][31] ^ 1])])
    elif dev == 'up':
        p['flags'] &= ~1
    elif dev == 'uv':
        sc['uv'] = True
        p['flags'] &= ~4
        if r.random() < .5:
            p['flags'] |= r.choice([2, 8, 16, 32])
    elif dev in ('ext-missing', 'ext-null'):
        want = r.choice(sorted(ref.EXT))
        sc['extensions'] = sorted(set(sc['extensions'] or []) | {want})
        if dev == 'ext-null' or r.random() < .5:
            d = p.setdefault('extd', ext_dict(r, sc['extensions']))
            p['flags'] |= 0x80
            for k in sc['extensions']:
                d.setdefault(k, ext_value(r, k))
            if dev == 'ext-null':
                d[want] = None
            else:
                d.pop(want)
        else:
            p.pop('extd', None)
            p['flags'] &= ~0x80
    elif dev == 'ext-bad':
        p['extd'] = odd_map(r, p.get('extd') or ext_dict(r), list(ref.EXT))
        p['flags'] |= 0x80
    elif dev == 'ad-long':
        p['tail'] = r.choice([b'\0', r.randbytes(3), b'\xa0'])
    elif dev == 'no-at':
        p['flags'] &= ~0x40
        if r.random() < .7:
            p.pop('key', None)
    elif dev == 'at':
        p['flags'] ^= 0x40


def odd_map(r, d, keys):
    """A map with something changed: missing, extra or other-typed entries."""
    d = dict(d)
    for _ in range(r.choice([1, 1, 1, 2])):
        x = r.randrange(5)
        if x == 0 and d:
            d.pop(r.choice(list(d)))
        elif x == 1:
            d[cbor_key(r)] = cbor_value(r)
        elif x == 2 and d:
            k = r.choice(list(d))
            d[k] = near(r, d[k])
        else:
            d[r.choice(list(keys))] = cbor_value(r)
    return d


def near(r, v):
    """A value close to v: other type, other length, other spelling."""
    if v is None or r.random() < .15:
        return r.choice([None, cbor_value(r)])
    if type(v) is bool:
        return r.choice([int(v), not v, float(v), 'true', b'\1', None])
    if type(v) is int:
        return r.choice([v + 1, v - 1, -v, float(v) if abs(v) < 2 ** 1000 else 0.0, str(v) if abs(v) < 2 ** 1000 else '1',
                         bool(v), None, any_int(r)])
    if type(v) is float:
        return r.choice([str(v), True, None, [v], int(v)])
    if type(v) is str:
        return r.choice([v.encode('utf-8', 'replace'), v.upper(), v.lower(), v + ' ', v.replace('-', '_'), '', None,
                         [v], any_str(r)])
    if type(v) is bytes:
        return r.choice([v.hex(), v + b'\0', v[:-1], b'\0' + v, b'', None, list(v[:3]), list(v), v.decode('latin1'),
                         [v], any_bytes(r)])
    if type(v) in (list, tuple):
        v = list(v)
        return r.choice([v + [cbor_value(r)], [], (v or [0]) * bounded(size(r, 3, .5), v), v[:-1], [near(r, x) for x in v], None, {0: v}, tuple(v)])
    if type(v) is dict:
        return odd_map(r, v, list(v) or ['x'])
    return cbor_value(r)


def build_ad(r, p, dev):
    if p.get('extd') is not None:
        p['ext'] = enc(p['extd'], r, .1 if r.random() < .2 else 0)
    b = auth_bytes(p)
    if dev == 'ad-short':
        b = b[:r.randrange(len(b))]
    elif dev == 'ad-flip':
        b = flip(r, b)
    return b


ATT_DEV = ['fmt', 'stmt-odd', 'ao-odd', 'ao-flip', 'ao-cut', 'unimpl']
U2F_DEV = ['u2f-sig', 'u2f-certs', 'u2f-cert', 'u2f-curve', 'u2f-key', 'u2f-data']
ANDROID_DEV = ['a-sig', 'a-nocert', 'a-cert', 'a-key', 'a-alg', 'a-noext', 'a-ext', 'a-challenge', 'a-all-sw',
               'a-all-tee', 'a-origin', 'a-noorigin', 'a-sworigin', 'a-purpose', 'a-nopurpose', 'a-swpurpose',
               'a-data', 'a-rsa', 'a-order']
REG_DEV = ['reg-raise', 'reg-answer', 'reg-lib', 'reg-falsy']


def reg_deviate(r, dev, sc):
    sc['registrar'] = {'reg-raise': 'raise', 'reg-answer': 'no', 'reg-lib': 'raise:' + r.choice(
        ['lib', 'base', 'type', 'key', 'stop', 'assert', 'rec']), 'reg-falsy': r.choice([False, 0, '', b'', True, 1] + ['obj:' + x for x in (
            'plain', 'false', 'error', 'list', 'dict', 'tuple', 'bytes', 'func', 'class', 'object', 'float', 'ni', 'dots')])}[dev]


def registration(r, devs=(), fmt=None):
    """A registration scenario with the given deviations (names above)."""
    sc, cd, parts = common(r)
    fmt = fmt or r.choice(['none', 'none', 'fido-u2f', 'android-key'])
    if any(d in U2F_DEV for d in devs):
        fmt = 'fido-u2f'
    if any(d in ANDROID_DEV for d in devs):
        fmt = 'android-key'
    sc['user'], sc['rp'] = user(r), rp(r)
    cd['type'] = 'webauthn.create'
    for d in sorted(devs, key=lambda d: d == 'odd'):
        client_deviate(r, d, sc, cd, parts, 'webauthn.get')
        if d in REG_DEV:
            reg_deviate(r, d, sc)
    cdj = bad_json(r, cd) if 'badjson' in devs else json_bytes(r, shuffled(r, cd))
    cdh = hashlib.sha256(cdj).digest()
    crv = None
    if fmt == 'fido-u2f':
        crv = 'P_256' if 'u2f-key' not in devs else r.choice(['P_384', 'P_521', 'ED25519', 'ED448'])
    ks, priv = key_spec(r, crv, form='Value' if r.random() < .8 else None, extras=r.random() < .2)
    if fmt == 'android-key' and 'a-alg' not in devs and crv in ref.EC:
        pass
    cred_id = r.choice([r.randbytes(16), b'', r.randbytes(64), r.randbytes(255), r.randbytes(256), r.randbytes(1023),
                        r.randbytes(r.randrange(1, 40)), r.randbytes(size(r, 99, .5))])
    if r.random() < .02:
        cred_id = r.randbytes(r.choice([32767, 32768, 65535]))
    p = auth_parts(r, sc, sc['rp']['id'], True, enc(shuffled(r, cose_dict(ks)), r, .1 if r.random() < .2 else 0), cred_id)
    p['count'] = r.choice([0, 0, 1, 255, 256, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)])
    ad_dev = None
    for d in devs:
        auth_deviate(r, d, sc, p)
        if d in ('ad-short', 'ad-flip'):
            ad_dev = d
    ad = build_ad(r, p, ad_dev)
    stmt = {}
    if fmt == 'fido-u2f':
        stmt = u2f_stmt(r, devs, ks, p, cdh, cred_id)
    elif fmt == 'android-key':
        stmt = android_stmt(r, devs, ks, priv, ad, cdh)
    if 'unimpl' in devs:
        fmt, stmt = unimpl_stmt(r, priv, ks, ad, cdh)
    if 'fmt' in devs:
        fmt = r.choice([any_str(r), 'packed', 'none', 'fido-u2f', 'android-key', fmt.upper(), cbor_value(r)])
    if 'stmt-odd' in devs:
        stmt = odd_map(r, stmt, ['alg', 'sig', 'x5c', 'ver', 'ecdaaKeyId', 'response'])
    ao = {'fmt': fmt, 'authData': ad, 'attStmt': stmt}
    if 'ao-odd' in devs:
        ao = odd_map(r, ao, ['fmt', 'authData', 'attStmt'])
    elif r.random() < .1:
        ao['extra'] = 1
    raw = enc(shuffled(r, ao), r, .1 if r.random() < .1 else 0)
    if 'ao-flip' in devs:
        raw = flip(r, raw)
    if 'ao-cut' in devs:
        raw = raw[:r.randrange(len(raw))]
    sc.update(client_data=cdj, attestation_object=raw, raw_id=cred_id[:100])
    return sc


def u2f_stmt(r, devs, ks, p, cdh, cred_id):
    ccrv = 'P_256' if 'u2f-curve' not in devs else r.choice(['P_384', 'P_521', 'ED25519', 'ED448', 'RSA'] + OTHER_CURVES * 2)
    ck = private(r, ccrv) if ccrv[:3] in ('P_2', 'P_3', 'P_5', 'ED2', 'ED4') else other_private(ccrv)
    data = b'\0' + p['rp_hash'] + cdh + cred_id + b'\x04' + ks['x'] + ks.get('y', b'')
    if 'u2f-data' in devs:
        data = r.choice([b'\1' + data[1:], data[1:], data[:1 + 32] + hashlib.sha256(cdh).digest() + data[65:],
                         b'\0' + cdh + p['rp_hash'] + data[65:], data[:65] + b'\x04' + ks['x'] + ks.get('y', b''),
                         data + b'\0', data.replace(b'\x04' + ks['x'], ks['x']),
                         data[:65 + len(cred_id)] + b'\x03' + ks['x'],
                         b'\0' + hashlib.sha256(b'evil').digest() + data[33:]])
    sig = ck.sign(data, PKCS1v15(), hashes.SHA256()) if ccrv == 'RSA' else sign(ck, data, 'ES256')
    if 'u2f-sig' in devs and ccrv == 'P_256':
        sig = sign(private(r, ccrv, 5), data, 'ES256') if r.random() < .15 else bad_sig(r, sig, ck, data, 'ES256')
    certs = [certificate(r, ck.public_key(), ck, None if ccrv.startswith('ED') else hashes.SHA256())]
    if 'u2f-certs' in devs:
        certs = r.choice([[], certs * 2, certs + [b''], [b''] + certs, certs * 3])
    if 'u2f-cert' in devs:
        certs = [bad_cert(r, certs[0] if certs else b'')]
    return {'sig': sig, 'x5c': certs}


def bad_cert(r, c):
    x = r.randrange(6)
    if x == 0:
        return b''
    if x == 1:
        return c[:r.randrange(len(c) + 1)]
    if x == 2:
        return flip(r, c)
    if x == 3:
        return r.randbytes(50)
    if x == 4:
        return c.replace(b'\xa0\x03\x02\x01\x02', b'\xa0\x03\x02\x01\x07')
    return c.replace(bytes.fromhex('06082a8648ce3d030107'), bytes.fromhex('06082a8648ce3d030109'))


_RSA = []


def android_stmt(r, devs, ks, priv, ad, cdh):
    data = ad + cdh
    alg = ks['alg'].split('.')[2]
    if 'a-data' in devs:
        data = r.choice([cdh + ad, ad, cdh, ad + hashlib.sha256(cdh).digest(), data + b'\0', ad[1:] + cdh])
    sk, calg = priv, alg
    if 'a-key' in devs:
        crv = ks['crv'].split('.')[2]
        sk = private(r, r.choice([crv, pick_curve(r)]), 6)
        if isinstance(sk, ec.EllipticCurvePrivateKey) and calg not in ref.HASH:
            calg = 'ES256'
    sig = sign(sk, data, calg if calg in ref.HASH or not isinstance(sk, ec.EllipticCurvePrivateKey) else 'ES256')
    if 'a-sig' in devs:
        sig = bad_sig(r, sig, sk, data, calg)
    p = dict(challenge=cdh, sw={}, tee={1: r.choice([[2], [2, 3], [3, 2], [1, 2, 3], [2, 2]]), 702: 0},
             noise=r.choice([0, .1, .4]))
    if 'a-challenge' in devs:
        p['challenge'] = r.choice([b'', flip(r, cdh), ad, cdh + b'\0', cdh[:31], hashlib.sha256(cdh).digest()])
    if 'a-all-sw' in devs:
        p['sw'][600] = None
    if 'a-all-tee' in devs:
        p['tee'][600] = None
    if 'a-origin' in devs:
        p['tee'][702] = r.choice([1, 2, 3, -1, 256, 4])
    if 'a-noorigin' in devs or 'a-sworigin' in devs:
        p['tee'].pop(702)
    if 'a-sworigin' in devs:
        p['sw'][702] = 0
    if 'a-purpose' in devs:
        p['tee'][1] = r.choice([[3], [0], [1, 3], [], [258], [0, 1, 3, 4, 5], [-2]])
    if 'a-nopurpose' in devs or 'a-swpurpose' in devs:
        p['tee'].pop(1)
    if 'a-swpurpose' in devs:
        p['sw'][1] = [2]
    kd = key_description(r, p)
    if 'a-ext' in devs:
        kd = r.choice([b'', flip(r, kd), kd[:-1], b'\x30\x00', r.randbytes(20), kd[:len(kd) // 2], b'\x30\x80' + kd])
    exts = [] if 'a-noext' in devs else [(ref.OID, kd)]
    if r.random() < .2:
        exts = [('1.2.3.4', b'x')] + exts
    if 'a-noext' in devs and r.random() < .5:
        exts = [(r.choice(['1.3.6.1.4.1.11129.2.1.18', '1.3.6.1.4.1.11129.2.1', '1.3.6.1.4.1.11129.2.1.17.1']), kd)]
    h = hashes.SHA256() if isinstance(sk, ec.EllipticCurvePrivateKey) else None
    if 'a-rsa' in devs:
        if not _RSA:
            _RSA.append(rsa.generate_private_key(65537, 2048, BK))
        c = certificate(r, _RSA[0].public_key(), _RSA[0], hashes.SHA256(), exts)
    else:
        c = certificate(r, sk.public_key(), sk, h, exts)
    if 'a-cert' in devs:
        c = bad_cert(r, c)
    certs = [c] + [c for _ in range(r.choice([0, 0, 1, 2]))]
    if r.random() < .3:
        certs = [c, b'junk']
    if 'a-nocert' in devs:
        certs = []
    if 'a-order' in devs:
        o = private(r, 'P_256', 7)
        certs = [certificate(r, o.public_key(), o, hashes.SHA256(), exts), c]
    a = value_of(ks['alg'])
    if 'a-alg' in devs:
        a = r.choice([-7, -35, -36, -8, 'ES256', 'EdDSA'])
    return {'alg': a, 'sig': sig, 'x5c': certs}


def unimpl_stmt(r, priv, ks, ad, cdh):
    alg = ks['alg'].split('.')[2]
    sig = sign(priv, ad + cdh, alg)
    a = value_of(ks['alg'])
    x = r.randrange(7)
    c = certificate(r, priv.public_key(), priv,
                    hashes.SHA256() if isinstance(priv, ec.EllipticCurvePrivateKey) else None)
    tpm = {'alg': a, 'sig': sig, 'ver': '2.0', 'certInfo': b'c', 'pubArea': b'p'}
    return [('packed', {'alg': a, 'sig': sig}), ('packed', {'alg': a, 'sig': sig, 'x5c': [c]}),
            ('packed', {'alg': a, 'sig': sig, 'ecdaaKeyId': b'k'}), ('tpm', tpm), ('tpm', dict(tpm, x5c=[c])),
            ('tpm', dict(tpm, ecdaaKeyId=b'k')), ('android-safetynet', {'ver': '1', 'response': b'r'})][x]


def like_client_data(r, b):
    """Byte strings some may take for the same client data."""
    out = [b.strip(), b.lstrip(), b.rstrip(), b.replace(b' ', b''), b.lower(), b + b' ', b' ' + b, b[:-1], b[:128],
           b[:64], b'']
    try:
        d = json.loads(b)
        out += [json.dumps(d).encode(), json.dumps(d, separators=(',', ':')).encode(),
                json.dumps(d, sort_keys=True).encode(), json.dumps(d, ensure_ascii=False).encode('utf-8', 'replace')]
        if type(d) is dict:
            for k in sorted(d):
                if r.random() < .5:
                    out.append(json.dumps({x: y for x, y in d.items() if x != k}).encode())
            out.append(json.dumps({k: d[k] for k in ('type', 'challenge', 'origin') if k in d}).encode())
            out.append(str(d.get('challenge')).encode('utf-8', 'replace'))
    except (ValueError, RecursionError):
        pass
    return out


def like_ad(r, b):
    return [b[:37], b[:32] + bytes([b[32] & r.choice([1, 5, 0x41, 0xc5, 0x3f])]) + b[33:] if len(b) > 33 else b'',
            b[:33] + b'\0\0\0\0' + b[37:], b[32:], b.rstrip(b'\0'), b.strip(), b[:r.randrange(len(b) + 1)],
            b[:-1], b + b'\0']


ASS_DEV = ['not-allowed', 'empty-allow', 'lookup-raise', 'unknown', 'user-id', 'no-handle', 'handle', 'no-rp',
           'rp-id', 'sig', 'sig-data', 'sig-key', 'sig-alg', 'count', 'count-eq', 'count-zero', 'bad-point',
           'swap-raw', 'key-form', 'attested-key']


def assertion(r, devs=()):
    sc, cd, parts = common(r)
    cd['type'] = 'webauthn.get'
    for d in sorted(devs, key=lambda d: d == 'odd'):
        client_deviate(r, d, sc, cd, parts, 'webauthn.create')
        if d in REG_DEV:
            reg_deviate(r, d, sc)
    cdj = bad_json(r, cd) if 'badjson' in devs else json_bytes(r, shuffled(r, cd))
    if 'sig-data' in devs and r.random() < .4:
        cdj = r.choice([b'', b' ', b'\n', b'\r\n\t']) + cdj + r.choice([b'', b' ', b'\n', b'  \n'])
    ks, priv = key_spec(r)
    alg = ks['alg'].split('.')[2]
    if ks['cls'] == 'OKP' and r.random() < .2:
        ks['alg'] = None
    u, rpe = user(r), rp(r)
    raw_id = r.choice([b'id', r.randbytes(16), b'', r.randbytes(64), b'\0id', b'id\0', r.randbytes(size(r, 99, .3))])
    sup = r.random() < .5
    uh = u['id'] if not sup or r.random() < .5 else None
    rp_sup, rp_rec = r.choice([(1, 1), (1, 0), (0, 1)])
    count = r.choice([None, 0, 0, 1, 5, 2 ** 31, 2 ** 32 - 2, r.randrange(2 ** 32 - 1)])
    new = 0 if count == 0 and r.random() < .5 else r.choice([0, 1, 7, 2 ** 32 - 1]) if count is None else \
        r.choice([count + 1, 2 ** 32 - 1, r.randrange(count + 1, 2 ** 32)])
    ignore = r.random() < .2
    same_user = {**u, 'name': r.choice([u['name'], 'other'])}
    sc.update(raw_id=raw_id, allow=None, user=same_user if sup else None, user_handle=uh,
              rp={**rpe, 'name': r.choice([rpe['name'], 'other'])} if rp_sup else None, ignore_clone=ignore)
    if r.random() < .4:
        al = many(r, size(r, 3, .1), lambda: r.randbytes(8)) + [raw_id]
        r.shuffle(al)
        sc['allow'] = al
    rec = dict(key=ks, count=count, user=u, rp=rpe if rp_rec else None)
    aks, apriv = key_spec(r, form='Value')
    p = auth_parts(r, sc, rpe['id'], r.random() < .1 or 'attested-key' in devs, enc(cose_dict(aks)),
                   raw_id if 'attested-key' in devs or r.random() < .5 else b'cid')
    p['count'] = new
    sk, salg, data_dev = priv, alg, None
    for d in devs:
        auth_deviate(r, d, sc, p)
        if d == 'not-allowed':
            sc['allow'] = many(r, 1 + size(r, 3, .2), lambda: r.choice([r.randbytes(8), near_bytes(r, raw_id)]))
            sc['allow'] = [x for x in sc['allow'] if x != raw_id] or [raw_id + b'x']
        elif d == 'empty-allow':
            sc['allow'] = []
        elif d == 'lookup-raise':
            rec = 'raise'
        elif d == 'unknown':
            rec = None
        elif d == 'user-id' and isinstance(rec, dict):
            o = near_bytes(r, u['id'])
            sc['user'] = dict(u, id=o)
            sc['user_handle'] = r.choice([None, u['id'], o])
        elif d == 'no-handle':
            sc['user'] = sc['user_handle'] = None
        elif d == 'handle':
            sc['user_handle'] = near_bytes(r, u['id'])
        elif d == 'no-rp' and isinstance(rec, dict):
            sc['rp'] = rec['rp'] = None
        elif d == 'rp-id' and isinstance(rec, dict):
            o = dict(rpe, id=r.choice(['evil.com', rpe['id'] + 'x', near_text(r, rpe['id']), near_text(r, rpe['id'])]))
            sc['rp'], rec['rp'] = (o, rpe) if r.random() < .5 else (rpe, o)
            p['rp_hash'] = hashlib.sha256(r.choice([o, rpe])['id'].encode('utf-8', 'replace')).digest()
        elif d in ('count', 'count-eq', 'count-zero'):
            c = r.choice([1, 5, 2 ** 31, 2 ** 32 - 1, r.randrange(1, 2 ** 32)])
            if d == 'count-zero':
                rec = dict(rec, count=c) if isinstance(rec, dict) else rec
                p['count'] = 0
            elif d == 'count-eq':
                rec = dict(rec, count=c) if isinstance(rec, dict) else rec
                p['count'] = c
            else:
                rec = dict(rec, count=c) if isinstance(rec, dict) else rec
                p['count'] = r.choice([c - 1, r.randrange(c), c // 2])
            sc['ignore_clone'] = r.random() < .2
        elif d == 'attested-key':
            sk, salg = apriv, aks['alg'].split('.')[2]
        elif d == 'sig-key':
            sk, salg = private(r, ks['crv'].split('.')[2], 8), alg
        elif d == 'sig-alg' and ks['cls'] == 'EC2':
            salg = r.choice([a for a in ref.HASH if a != alg])
        elif d == 'sig-data':
            data_dev = True
        elif d == 'bad-point' and isinstance(rec, dict):
            rec['key'] = dict(ks, x=flip(r, ks['x']))
        elif d == 'swap-raw':
            pass
    ad_dev = next((d for d in devs if d in ('ad-short', 'ad-flip')), None)
    ad = build_ad(r, p, ad_dev)
    h = hashlib.sha256(cdj).digest()
    data = ad + h
    if data_dev and r.random() < .6:
        a2, c2 = (ad, r.choice(like_client_data(r, cdj))) if r.random() < .7 else (r.choice(like_ad(r, ad)), cdj)
        data = a2 + hashlib.sha256(c2).digest()
    elif data_dev:
        data = r.choice([h + ad, ad, h, ad + cdj, data + b'\0', ad + hashlib.sha256(h).digest(), ad[:-1] + h,
                         ad + hashlib.sha256(cdj + b' ').digest(), ad + hashlib.sha1(cdj).digest(), flip(r, ad) + h,
                         ad[:37] + h if len(ad) > 37 else b'',
                         ad[:32] + bytes([ad[32] ^ 4]) + ad[33:] + h if len(ad) > 33 else b''])
    sig = sign(sk, data, salg)
    if 'sig' in devs:
        sig = bad_sig(r, sig, sk, data, salg)
    sc.update(client_data=cdj, authenticator_data=ad, signature=sig, record=rec)
    return sc
