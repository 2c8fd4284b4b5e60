"""Which cases explore which property."""
import random
import hashlib

from . import data, gen, ref
from .gen import *


def maybe(r, p, l):
    return [r.choice(l)] if r.random() < p else []


def reg_honest(r):
    yield 'registration', registration(r, fmt=r.choice(['none', 'fido-u2f', 'android-key']))


def reg_with(devs, fmt=None):
    def g(r):
        d = [r.choice(devs)]
        if r.random() < .15:
            d.append(r.choice(devs))
        yield 'registration', registration(r, d, fmt(r) if callable(fmt) else fmt)
    return g


def ass_honest(r):
    yield 'assertion', assertion(r)


def ass_with(devs):
    def g(r):
        d = [r.choice(devs)]
        if r.random() < .15:
            d.append(r.choice(devs))
        yield 'assertion', assertion(r, d)
    return g


FMT0 = lambda r: r.choice(['none', 'none', 'none', 'fido-u2f'])


def origins(r):
    yield 'origin', {'origin': origin_string(r)}


def client(r):
    sc, cd, parts = common(r)
    cd['type'] = r.choice(['webauthn.create', 'webauthn.get', any_str(r)])
    x = r.random()
    if x < .25:
        yield 'client_data', {'bytes': json_bytes(r, cd)}
    elif x < .7:
        d = odd_client_data(r, cd)
        if r.random() < .2:
            d = odd_client_data(r, d)
        yield 'client_data', {'bytes': json_bytes(r, d)}
    elif x < .9:
        yield 'client_data', {'bytes': bad_json(r, cd)}
    else:
        yield 'client_data', {'bytes': r.choice([gen.flip(r, json_bytes(r, cd)), r.randbytes(r.randrange(20)),
                                                 json_bytes(r, json_value(r, 3))])}


def std64(r, b):
    s = base64.b64encode(b).decode()
    return s


def credentials(r):
    b = lambda: std64(r, any_bytes(r))
    if r.random() < .5:
        resp = {'clientDataJSON': b(), 'attestationObject': b()}
    else:
        resp = {'clientDataJSON': b(), 'authenticatorData': b(), 'signature': b()}
        x = r.random()
        if x < .4:
            resp['userHandle'] = b()
        elif x < .6:
            resp['userHandle'] = None
    d = {'id': any_str(r), 'type': r.choice(['public-key', any_str(r)]), 'rawId': b(), 'response': shuffled(r, resp)}
    d = shuffled(r, d)
    x = r.random()
    every = ['id', 'type', 'rawId', 'response', 'clientDataJSON', 'attestationObject', 'authenticatorData',
             'signature', 'userHandle']
    if x < .35:
        pass
    elif x < .6:
        d['response'] = odd_map(r, d['response'], every)
    elif x < .8:
        d = odd_map(r, d, every)
    elif x < .9:
        k = r.choice(['rawId'] + list(resp))
        m = d if k == 'rawId' else d['response']
        m[k] = r.choice(['YQ', 'Y', '=', 'é', 'YQ=', 'YQ==YQ==', '-_-_', 'Y Q = =', any_str(r), 'YQ===', '\ud800'])
    else:
        d['response'] = json_value(r)
    yield 'credential', {'dict': d}


def key_maps(r):
    s, _ = key_spec(r, extras=r.random() < .7)
    d = cose_dict(s)
    x = r.random()
    every = [1, 2, 3, 4, 5, -1, -2, -3]
    if x < .3:
        pass
    elif x < .75:
        d = odd_map(r, d, every)
    elif x < .85:
        d[r.choice([1, 3, -1])] = r.choice([v for t in gen.TAB.values() for e in t.values() for v in e] +
                                           [any_int(r), any_str(r)])
    elif x < .92:
        k = r.choice([-2, -3])
        d[k] = r.randbytes(r.choice([0, 31, 32, 33, 47, 48, 49, 56, 57, 58, 65, 66, 67]))
    else:
        d[4] = [r.choice([v for e in ref.KEYOP.values() for v in e] + [any_int(r), any_str(r), None, cbor_value(r)])
                for _ in range(size(r, 3))]
    return shuffled(r, d), s['cls']


def foreign(r, ks):
    """A key with the curve or the algorithm of another kind."""
    f = r.choice(['Value', 'Name'])
    if r.random() < .6:
        ks['crv'] = r.choice(['EC2Curve.%s.%s' % (f, c) for c in ref.EC2CRV] +
                             ['OKPCurve.%s.%s' % (f, c) for c in ref.OKPCRV])
    else:
        ks['alg'] = 'COSEAlgorithmIdentifier.%s.%s' % (f, r.choice(list(ref.ALG)))
    return ks


def cose_cases(r):
    if r.random() < .12:
        s, _ = key_spec(r)
        yield 'valid_key', {'key': foreign(r, s) if r.random() < .7 else s}
        return
    d, cls = key_maps(r)
    x = r.random()
    if x < .25:
        yield 'cose', {'key': d}
    elif x < .4:
        yield 'cose_typed', {'key': d, 'cls': cls if r.random() < .8 else r.choice(['EC2', 'OKP'])}
    elif x < .8:
        yield 'cose', {'key': safe_enc(r, d)}
    else:
        yield 'cose', {'key': raw_cbor(r, d)}


def safe_enc(r, v):
    try:
        return enc(v, r, .15 if r.random() < .2 else 0)
    except Exception:
        return b'\xf6'


def raw_cbor(r, d):
    """CBOR input with odd items spliced in, cut, flipped or followed by something."""
    d = dict(d) if type(d) is dict else {}
    x = r.randrange(6)
    if x == 0:
        return r.choice(ODD)
    if x == 1:
        d[r.choice(list(d) + [any_str(r)])] = Raw(r.choice(ODD))
        return safe_enc(r, d)
    if x == 2:
        b = safe_enc(r, d)
        return b[:r.randrange(len(b) + 1)]
    if x == 3:
        return gen.flip(r, safe_enc(r, d))
    if x == 4:
        return safe_enc(r, d) + r.choice([b'\0', b'\xff', r.randbytes(3), r.choice(ODD)])
    body = b''.join(safe_enc(r, k) + safe_enc(r, v) for k, v in d.items())
    k = r.choice(ODD[:20])
    return enc_head(5, len(d) + 1) + body + k + b'\x01'


def key_encoding(r):
    s, _ = key_spec(r, extras=r.random() < .8)
    yield 'encode_key', {'key': s}


def ad_cases(r):
    sc = dict(uv=False, extensions=None)
    attested = r.random() < .6
    x = r.random()
    ks, _ = key_spec(r, form='Value' if r.random() < .7 else None)
    kb = enc(shuffled(r, cose_dict(ks)), r, .1 if r.random() < .2 else 0)
    if attested and x < .3:
        d, _ = key_maps(r)
        kb = safe_enc(r, d) if r.random() < .7 else raw_cbor(r, d)
    p = auth_parts(r, sc, 'a', attested, kb, r.choice([b'', r.randbytes(16), r.randbytes(r.randrange(300))]) if r.random() < .96 else
                   r.randbytes(r.choice([255, 256, 1023, 1024, 32767, 32768, 65535])))
    p['flags'] = p['flags'] & 0xc0 | r.randrange(64) if r.random() < .8 else r.randrange(256)
    p['count'] = r.choice([0, 1, 255, 256, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)])
    if p.get('extd') is not None:
        p['ext'] = enc(p['extd'], r, .1 if r.random() < .2 else 0)
        y = r.random()
        if y < .25:
            p['ext'] = safe_enc(r, odd_map(r, p['extd'], list(ref.EXT)))
        elif y < .4:
            p['ext'] = raw_cbor(r, p['extd'])
        elif y < .45:
            p['ext'] = safe_enc(r, cbor_value(r))
    if attested and r.random() < .1:
        p['id_len'] = r.choice([0, len(p['cred_id']) + 1, 65535, max(0, len(p['cred_id']) - 1), 256])
    if r.random() < .1:
        p['tail'] = r.choice([b'\0', r.randbytes(r.randrange(1, 5)), b'\xa0'])
    b = auth_bytes(p)
    x = r.random()
    if x < .1:
        b = b[:r.randrange(len(b))]
    elif x < .16:
        b = b[:r.choice([0, 36, 37, 38, 52, 53, 54, 55, 56])]
    elif x < .22:
        b = gen.flip(r, b)
    yield 'auth_data', {'bytes': b}


def stmts(r):
    c = r.choice(list(ref.STMT))
    alg = r.choice([v for e in ref.ALG.values() for v in e])
    f = {'alg': alg, 'sig': any_bytes(r), 'x5c': many(r, size(r, 3), lambda: any_bytes(r)), 'ver': any_str(r),
         'certInfo': any_bytes(r), 'pubArea': any_bytes(r), 'ecdaaKeyId': any_bytes(r), 'response': any_bytes(r)}
    keys = list(ref.STMT[c][0])
    if '{}' in ref.STMT[c][1]:
        keys += r.choice([[], ['x5c'], ['ecdaaKeyId'], ['x5c', 'ecdaaKeyId']] if r.random() < .3 else
                         [[], ['x5c'], ['ecdaaKeyId']])
    s = shuffled(r, {k: f[k] for k in keys})
    if r.random() < .55:
        s = odd_map(r, s, list(f))
    elif r.random() < .3 and 'x5c' in s:
        s['x5c'] = r.choice([s['x5c'] + [cbor_value(r)], [], b'x', [None], [[b'x']], 'x', {}])
    return c, s


def stmt_cases(r):
    c, s = stmts(r)
    yield 'statement', {'fmt': c, 'stmt': s}


def ao_cases(r):
    c, s = stmts(r)
    t = {v: k for k, v in ref.FMT.items()}[c]
    sc = dict(uv=False, extensions=None)
    ks, _ = key_spec(r, form='Value')
    p = auth_parts(r, sc, 'a', r.random() < .8, enc(cose_dict(ks)), r.randbytes(16))
    if p.get('extd') is not None:
        p['ext'] = enc(p['extd'])
    ad = auth_bytes(p)
    x = r.random()
    if x < .15:
        ad = r.choice([ad + b'\0', ad[:-1], gen.flip(r, ad), b''])
    d = {'fmt': t, 'authData': ad, 'attStmt': s}
    if r.random() < .3:
        d = odd_map(r, d, ['fmt', 'authData', 'attStmt'])
    elif r.random() < .15:
        d['fmt'] = r.choice(list(ref.FMT) + [any_str(r), any_int(r), None])
    d = shuffled(r, d)
    yield 'att_obj', {'bytes': safe_enc(r, d) if r.random() < .8 else raw_cbor(r, d)}


def ext_cases(r):
    d = ext_dict(r)
    x = r.random()
    if x < .3:
        pass
    elif x < .75:
        d = odd_map(r, d, list(ref.EXT))
    elif x < .9:
        d['loc'] = odd_map(r, {n: r.choice([0, 1.5, -2]) for n in ref.LOC if r.random() < .4}, list(ref.LOC))
    else:
        d[r.choice(['uvm', 'exts'])] = r.choice([[[1, True]], [[1.0]], [['1']], [(1,)], ([1],), [1], 'abc', [b'a'],
                                                 ('a',), [None], [[]], [], {}, [{}], [['a']], [['a', b'b']]])
    yield 'extensions', {'dict': d}


def sig_cases(r):
    ks, priv = key_spec(r)
    alg = ks['alg'].split('.')[2]
    data = any_bytes(r) if r.random() < .97 else r.randbytes(r.choice([1000, 4096, 65536, 70000]))
    x = r.random()
    sg = sign(priv, data, alg)
    if x < .45:
        pass
    elif x < .55:
        data = gen.flip(r, data) + (b'' if data else b'x')
    elif x < .65:
        sg = gen.bad_sig(r, sg, priv, data, alg)
    elif x < .75:
        if ks['cls'] == 'EC2':
            sg = sign(priv, data, r.choice(list(ref.HASH)))
    elif x < .8:
        sg = sign(private(r, ks['crv'].split('.')[2], 9), data, alg)
    elif x < .87:
        k = r.choice(['x', 'y'] if ks['cls'] == 'EC2' else ['x'])
        ks[k] = r.choice([b'\0' + ks[k], ks[k][1:], ks[k] + b'\0', ks[k][:-1], ks[k].lstrip(b'\0'), b'',
                          gen.flip(r, ks[k]), b'\0' * len(ks[k]), b'\xff' * len(ks[k]), ks[k][::-1]])
    elif x < .92 and ks['cls'] == 'EC2':
        ks['x'], ks['y'] = ks['y'], ks['x']
    elif x < .96:
        ks['alg'] = None
    elif r.random() < .5:
        alg = ks['alg']
        ks = foreign(r, ks)
        if ks['cls'] == 'EC2':
            ks['alg'] = alg
    elif ks['cls'] == 'OKP':
        ks['alg'] = 'COSEAlgorithmIdentifier.Value.' + r.choice(list(ref.ALG))
    yield 'verify', {'key': ks, 'signature': sg, 'data': data}
    if r.random() < .3:
        yield 'convert_key', {'key': ks}
    if r.random() < .01:
        yield 'other_key', {}


def attest_case(fmt, devs):
    def g(r):
        dv = maybe(r, .75, devs)
        if dv and r.random() < .15:
            dv.append(r.choice(devs))
        sc = registration(r, dv, fmt)
        c = ref.cbor(sc['attestation_object'])
        if c is None or type(c[0]) is not dict:
            return
        d = c[0]
        if type(d.get('authData')) is not bytes or type(d.get('attStmt')) is not dict:
            return
        yield 'attest', {'auth_data': d['authData'], 'fmt': ref.FMT[fmt], 'stmt': d['attStmt'],
                         'hash': hashlib.sha256(sc['client_data']).digest()}
        if r.random() < .2:
            yield 'registration', sc
    return g


def both(*gs):
    w = [g if isinstance(g, tuple) else (1, g) for g in gs]
    fs = [f for n, f in w for _ in range(n)]

    def g(r):
        yield from r.choice(fs)(r)
    return g


PARSERS = [origins, client, credentials, cose_cases, ad_cases, stmt_cases, ao_cases, ext_cases]


SIMPLE = [origins, client, credentials, cose_cases, ad_cases, stmt_cases, ao_cases, ext_cases, sig_cases,
          key_encoding] + data.SIMPLE
HEAVY = [reg_honest, ass_honest, reg_with(gen.CLIENT_DEV + gen.AUTH_DEV + gen.REG_DEV),
         ass_with(gen.CLIENT_DEV + gen.AUTH_DEV + gen.ASS_DEV), attest_case('fido-u2f', gen.U2F_DEV),
         attest_case('android-key', gen.ANDROID_DEV)]


def crossed(r, a, b):
    """Cases of one kind that agree in part: some fields of b in a, or one field slightly changed."""
    (k, x), (_, y) = a, b
    x, y = dict(x), dict(y)
    names = [n for n in x if n in y]
    if r.random() < .6 and len(names) > 1:
        for n in r.sample(names, r.randrange(1, len(names))):
            x[n] = y[n]
        return k, x
    n = r.choice(names)
    v = x[n]
    if type(v) is bytes:
        x[n] = r.choice([near_bytes(r, v), gen.flip(r, v), y[n]]) if type(y[n]) is bytes else near_bytes(r, v)
    elif type(v) is str and n == 'origin':
        x[n] = r.choice([near_text(r, v), v.replace('https', 'http') if v.startswith('https') else v])
    elif type(v) is dict and n in ('key', 'record', 'user', 'rp') and type(y[n]) is dict and v and \
            v.get('cls') == y[n].get('cls'):
        f = r.choice(list(v))
        x[n] = {**v, f: y[n].get(f, v[f])}
    else:
        x[n] = y[n]
    return k, x


def histories(r):
    """Steps that repeat, share parts with, or merely surround each other."""
    steps = []
    for _ in range(r.choice([1, 1, 2])):
        g = r.choice(SIMPLE if r.random() < .5 else HEAVY)
        a, b = [], []
        for _ in range(20):
            a = a or list(g(r))
            b = [c for c in list(g(r)) if a and c[0] == a[0][0]]
            if a and b:
                break
        if not (a and b):
            continue
        a, b = a[0], b[0]
        mix = [a, b]
        for _ in range(r.randrange(1, 5)):
            x, y = r.choice(mix), r.choice(mix)
            mix.append(crossed(r, x, y))
        if r.random() < .25:
            mix += [r.choice(mix)] * r.randrange(1, 8)
        steps += mix
    for _ in range(r.randrange(3)):
        steps += list(r.choice(SIMPLE + HEAVY)(r))[:1]
    r.shuffle(steps)
    yield 'history', {'steps': steps}


def replayed(r, case):
    """The same ceremony with little else than its signature, key or challenge kept."""
    k, d = case
    d = dict(d)
    x = r.random()
    ad = d.get('authenticator_data')
    if type(ad) is bytes and len(ad) >= 37 and x < .5:
        n = int.from_bytes(ad[33:37], 'big')
        d['authenticator_data'] = r.choice([
            ad[:33] + min(n + r.choice([1, 5]), 2 ** 32 - 1).to_bytes(4, 'big') + ad[37:],
            ad[:32] + bytes([ad[32] ^ r.choice([4, 2])]) + ad[33:], ad[:-1] + bytes([ad[-1] ^ 1])])
    elif x < .7 and type(d.get('client_data')) is bytes:
        d['client_data'] = d['client_data'] + r.choice([b' ', b'\n'])
    elif x < .8 and type(d.get('record')) is dict:
        ks, _ = gen.key_spec(r)
        d['record'] = dict(d['record'], key=ks)
    elif type(d.get('challenge')) is bytes:
        d['challenge'] = gen.flip(r, d['challenge']) or b'x'
    return k, d


def twins(r, kind):
    """A ceremony and one that differs from it in a single respect, both made and signed properly."""
    seed, n = r.random(), r.choice([1, 1, 2, 3])
    out = []
    for i in range(n + 1):
        q = random.Random(seed)
        if kind == 'assertion':
            sc = gen.assertion(q, [] if i == 0 else [r.choice(CL + AU + gen.ASS_DEV)])
        else:
            fmt = 'none' if seed < .5 else 'fido-u2f' if seed < .8 else 'android-key'
            devs = CL + AU + {'none': [], 'fido-u2f': gen.U2F_DEV, 'android-key': gen.ANDROID_DEV}[fmt]
            sc = gen.registration(q, [] if i == 0 else [r.choice(devs)], fmt)
        out.append((kind, sc))
    if r.random() < .2:
        out.append(out[0])
    return out


def sequences(g, p=.06):
    """Now and then, related cases one after another."""
    def h(r):
        if r.random() >= p:
            yield from g(r)
            return
        a, b = [], []
        for _ in range(12):
            a = a or list(g(r))[:1]
            b = [c for c in list(g(r)) if a and c[0] == a[0][0]]
            if a and b:
                break
        if not (a and b):
            return
        mix = [a[0], b[0]]
        twin = a[0][0] in ('registration', 'assertion') and r.random() < .6
        if twin:
            mix = twins(r, a[0][0])
        for _ in range(0 if twin else r.randrange(1, 5)):
            x = r.choice(mix)
            mix.append(x if x[0] == 'encode_key' else replayed(r, x) if r.random() < .5 else crossed(r, x, r.choice(mix)))
        if r.random() < .3:
            r.shuffle(mix)
        yield 'sequence', {'steps': mix}
    return h


CL, AU = gen.CLIENT_DEV, gen.AUTH_DEV
PLANS = {
    'C01': both((4, reg_with(CL, FMT0)), (1, reg_with(CL + AU, FMT0))),
    'C02': both((4, reg_with(AU, FMT0)), (1, reg_with(CL + AU, FMT0))),
    'C03': both((3, reg_with(gen.ATT_DEV)), (3, reg_with(gen.U2F_DEV)), (3, reg_with(gen.ANDROID_DEV)), reg_honest,
                (1, attest_case('fido-u2f', gen.U2F_DEV)), (1, attest_case('android-key', gen.ANDROID_DEV))),
    'C04': both((4, ass_with(CL)), (1, ass_with(CL + AU))),
    'C05': both((4, ass_with(AU)), (1, ass_with(CL + AU))),
    'C06': both((4, ass_with(['sig', 'sig-data', 'sig-key', 'sig-alg', 'bad-point', 'attested-key'])), ass_honest),
    'C07': both((5, ass_with(['not-allowed', 'empty-allow', 'user-id', 'no-handle', 'handle', 'no-rp', 'rp-id',
                              'unknown', 'lookup-raise'])), (2, ass_honest)),
    'C08': both((4, ass_with(['count', 'count-eq', 'count-zero'])), (3, ass_honest)),
    'C09': both((3, reg_with(CL + AU + gen.ATT_DEV + gen.U2F_DEV + gen.ANDROID_DEV + gen.REG_DEV * 4)),
                (3, ass_with(CL + AU + gen.ASS_DEV + gen.REG_DEV * 4)), reg_honest, ass_honest),
    'C10': both((3, reg_honest), (3, ass_honest)),
    'C11': both((3, reg_with(CL + AU + gen.ATT_DEV + gen.U2F_DEV + gen.ANDROID_DEV + gen.REG_DEV)),
                (3, ass_with(CL + AU + gen.ASS_DEV + gen.REG_DEV))),
    'C12': origins,
    'C13': credentials,
    'C14': client,
    'C15': both((5, ad_cases), (1, cose_cases)),
    'C16': both((5, cose_cases), (1, ad_cases)),
    'C17': key_encoding,
    'C18': sig_cases,
    'C19': attest_case('fido-u2f', gen.U2F_DEV),
    'C20': attest_case('android-key', gen.ANDROID_DEV),
    'C21': both(stmt_cases, ao_cases),
    'C22': ext_cases,
    'C25': both(*PARSERS),
    'C26': histories,
}
PLANS = {k: g if k == 'C26' else sequences(g) for k, g in PLANS.items()}
PLANS.update(data.PLANS)
