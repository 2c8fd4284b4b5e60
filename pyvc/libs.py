"""Assumed contracts of the libraries the package calls.

Everything here is part of the trusted base: each library function is a total
or partial uninterpreted function (`*_ok` decides success, the value function
gives the result, the documented exceptions are raised otherwise).
"""
import enum
import types as pytypes
import z3
from . import terms as tm
from .terms import And, Or, Not, Implies, asb, V
from .values import *
from .ops import ok, err, known, subseq, seq_at, byte_at, native, message, NotConcrete, conc, as_int

ANDROID_OID = '1.3.6.1.4.1.11129.2.1.17'


def sterm(I, st, v):
    """Str term of a value that is a (guarded) string."""
    if isinstance(v, U):
        t = None
        for g, x in v.alts:
            y = sterm(I, st, x)
            t = y if t is None else z3.If(asb(g), y, t)
        return t
    return term(v)


def split_bytes(I, st, v, exc=TypeError):
    """-> ([(state, bytes term)], error results) for a bytes parameter"""
    good, bad = I.split_kind(st, v, 'bytes')
    out = []
    for s, x in bad:
        out += err(s, exc, 'a bytes-like object is required')
    return [(s, term(x)) for s, x in good], out


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


# ------------------------------------------------------------- text encoding
def encode(I, st, r, args, kw):
    enc, errors = arg(args, kw, 0, 'encoding', 'utf-8'), arg(args, kw, 1, 'errors', 'strict')
    if not isinstance(enc, str) or not isinstance(errors, str):
        raise Unsupported('encode')
    enc = enc.lower().replace('_', '-')
    t = term(r)
    if enc in ('utf-8', 'utf8'):
        if errors != 'strict':
            return ok(st, T('bytes', tm.uf('utf8_enc_' + errors, tm.Str, tm.Bytes)(t)))
        out = []
        for s, b in I.branch(st, tm.utf8_encodable(t)):
            out += ok(s, T('bytes', tm.utf8_enc(t))) if b else err(s, UnicodeEncodeError, 'surrogates')
        return out
    okf, f = tm.uf('encodable_' + enc, tm.Str, tm.Bool), tm.uf('enc_' + enc, tm.Str, tm.Bytes)
    if errors != 'strict':
        raise Unsupported('encode errors')
    out = []
    for s, b in I.branch(st, okf(t)):
        out += ok(s, T('bytes', f(t))) if b else err(s, UnicodeEncodeError, 'encode')
    return out


def decode(I, st, r, args, kw):
    enc, errors = arg(args, kw, 0, 'encoding', 'utf-8'), arg(args, kw, 1, 'errors', 'strict')
    if not isinstance(enc, str) or not isinstance(errors, str):
        raise Unsupported('decode')
    enc = enc.lower().replace('_', '-')
    t = term(r)
    if z3.is_app(t) and t.decl().eq(tm.b64_enc) and enc in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'latin-1',
                                                            'latin1'):
        return ok(st, T('str', tm.ascii_dec(t)))
    enc = {'utf8': 'utf-8', 'us-ascii': 'ascii'}.get(enc, enc)
    if enc == 'utf-8' and errors == 'strict':
        out = []
        for s, b in I.branch(st, tm.utf8_ok(t)):
            out += ok(s, T('str', tm.utf8_dec(t))) if b else err(s, UnicodeDecodeError, 'decode')
        return out
    f = tm.uf('dec_%s_%s' % (enc, errors), tm.Bytes, tm.Str)
    if errors != 'strict':
        return ok(st, T('str', f(t)))
    okf = tm.uf('decodable_' + enc, tm.Bytes, tm.Bool)
    out = []
    for s, b in I.branch(st, okf(t)):
        out += ok(s, T('str', f(t))) if b else err(s, UnicodeDecodeError, 'decode')
    return out


# ------------------------------------------------------------------- base64
def pieces(t):
    """A text or byte string as the list of the pieces it is put together from."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in pieces(c)]
    return [t]


def all_padding(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return all_padding(t.arg(1)) and all_padding(t.arg(2))
    return z3.is_string_value(t) and not set(t.as_string()) - {'='} or t.eq(tm.B(b'='))


def b64_split(I, st, t):
    """(head, padding): t is the text head with only padding behind it."""
    if t.decl().name() == 'latin':
        t = t.arg(0)
    head, *cs = pieces(t)
    cs = [z3.simplify(c) for c in cs]
    while cs and not all(all_padding(c) for c in cs):
        head, cs = z3.Concat(head, cs[0]) if head.sort() == cs[0].sort() else None, cs[1:]
    return head, sum([z3.Length(c) for c in cs], z3.IntVal(0))


def enough(I, st, t, pads):
    return I.entailed(st, z3.Or(pads >= 2, (z3.Length(t) + pads) % 4 == 0))


def b64_inverse(I, st, t, a):
    """x when t is base64(x, alphabet a) without some of its padding and with extra padding behind it: the decoder
    then yields x (assumed of the library; it stops at the padding and does not mind too much of it). At least two
    characters of padding are enough, and so is padding to a multiple of four characters."""
    t, pads = b64_split(I, st, t)
    if t is None:
        return None
    if t.decl().name() in ('str_rstrip_=', 'bytes_rstrip_='):
        if not enough(I, st, t, pads):
            return None
        t = t.arg(0)
    if t.decl().eq(tm.ascii_dec):
        t = t.arg(0)
    if t.decl().eq(tm.b64_enc) and t.arg(1).eq(a):
        return t.arg(0)
    return None


def b64_canonical(I, st, t, a):
    """(ok, decoded, facts) for a text with padding behind it. The decoder does not mind too much padding (three
    characters are always enough), the padding adds no data, and for a text that is base64, padded or not, padding to
    a multiple of four is enough as well."""
    if t.sort() != tm.Str:
        return None
    head, pads = b64_split(I, st, t)
    if head is None:
        return None
    full = z3.Concat(head, tm.S('==='))
    okf, dec = tm.b64_ok(full, a), tm.b64_dec(full, a)
    if I.entailed(st, pads >= 3):
        return okf, dec, []
    if I.entailed(st, (z3.Length(head) + pads) % 4 == 0):
        okp = tm.uf('b64_ok_padded', tm.Str, tm.Str, tm.Bool)(head, a)
        return okp, dec, [z3.Implies(okp, okf), z3.Implies(tm.b64_text(head, a), okp)]
    return None


def b64decode(alt_default):
    import binascii

    def model(I, st, args, kw, fid):
        alt = arg(args, kw, 1, 'altchars') if alt_default == '' else None
        validate = arg(args, kw, 2, 'validate', False) if alt_default == '' else False
        if alt is None:
            alt = alt_default
        elif isinstance(alt, bytes):
            alt = alt.decode('latin-1')
        else:
            raise Unsupported('altchars')
        if alt == '+/':
            alt = ''
        if not isinstance(validate, bool):
            raise Unsupported('validate')
        name = alt + ('!' if validate else '')
        out = []
        for s, x in I.spread(st, arg(args, kw, 0, 's')):
            for s2, y in (I.spread_any(s, x) if kind_of(x) == 'any' else [(s, x)]):
                if kind_of(y) == 'str':
                    t = term(y)
                elif kind_of(y) == 'bytes':
                    t = tm.uf('latin', tm.Bytes, tm.Str)(term(y))
                elif y is None or kind_of(y) in ('int', 'bool'):
                    out += err(s2, TypeError, 'argument should be a bytes-like object or ASCII string')
                    continue
                elif kind_of(y) == 'any':
                    out += err(s2, TypeError, 'argument should be a bytes-like object or ASCII string')
                    continue
                else:
                    raise Unsupported('b64decode of %r' % (y,))
                if isinstance(y, (str, bytes)):
                    r = native(I, s2, __import__('base64').b64decode, [y, alt.encode() or None, validate])
                    out += r
                    continue
                a = tm.S(name)
                back = b64_inverse(I, s2, t, a)
                if back is not None:
                    out += ok(s2, T('bytes', back))
                    continue
                okt, dec, facts = b64_canonical(I, s2, t, a) or (tm.b64_ok(t, a), tm.b64_dec(t, a), [])
                for s3, b in I.branch(s2.assume(*facts) if facts else s2, okt):
                    if b:
                        out += ok(s3, T('bytes', dec))
                    else:
                        # ValueError for non-ASCII text, binascii.Error otherwise
                        out += [(s3, 'x', ExcV(ValueError, ('base64',), known=False,
                                               origin=tm.uf('b64_errkind', tm.Str, tm.Int)(t)))]
        return I.merge_results(out)
    return model


def b64encode(alt_default):
    def model(I, st, args, kw, fid):
        alt = arg(args, kw, 1, 'altchars') if alt_default == '' else None
        alt = alt_default if alt is None else alt.decode('latin-1') if isinstance(alt, bytes) else None
        if alt is None:
            raise Unsupported('altchars')
        if alt == '+/':
            alt = ''
        good, out = split_bytes(I, st, arg(args, kw, 0, 's'))
        for s, t in good:
            r = native(I, s, lambda b: __import__('base64').b64encode(b, alt.encode() or None),
                       [arg(args, kw, 0, 's')])
            if r is not None:
                out += r
                continue
            out += ok(s, T('bytes', tm.b64_enc(t, tm.S(alt))))
        return out
    return model


# --------------------------------------------------------------- cbor / json
def cbor_fail(I, st, t):
    import cbor2
    e = tm.cbor_err(t)
    out = []
    for k, cls, kn in ((0, cbor2.CBORDecodeEOF, True), (1, cbor2.CBORDecodeValueError, True),
                       (2, Exception, False)):
        c = e == k if k < 2 else And(e != 0, e != 1)
        if I.feasible(st, c):
            out += [(st.assume(c), 'x', ExcV(cls, ('cbor',), known=kn, origin=None if kn else e))]
    return out


def cbor_loads(I, st, args, kw, fid):
    good, out = split_bytes(I, st, args[0])
    if len(args) > 1 or kw:
        raise Unsupported('cbor2.loads options')
    for s, t in good:
        for s2, b in I.branch(s, tm.cbor_ok(t)):
            if b:
                out += ok(s2.assume(tm.cbor_len(t) >= 1, tm.cbor_len(t) <= z3.Length(t)),
                          T('any', tm.cbor_val(t)))
            else:
                out += cbor_fail(I, s2, t)
    return out


def cbor_load(I, st, args, kw, fid):
    if len(args) != 1 or kw:
        raise Unsupported('cbor2.load options')
    out = []
    for s, f in I.spread(st, args[0]):
        if not (isinstance(f, Ref) and s.heap[f.id].kind == 'bytesio'):
            raise Unsupported('cbor2.load')
        content, pos = s.heap[f.id].data
        c, p = term(content), term(pos)
        n = z3.Length(c)
        rest = subseq(c, p, n - p)
        for s2, b in I.branch(s, And(p < n, tm.cbor_ok(rest))):
            if b:
                ln = tm.cbor_len(rest)
                s3 = s2.assume(ln >= 1, p + ln <= n)
                s3 = s3.put(f, s3.heap[f.id].with_((content, T('int', z3.simplify(p + ln)))))
                out += ok(s3, T('any', tm.cbor_val(rest)))
            else:
                q = tm.fresh(tm.Int, 'pos')
                s3 = s2.assume(q >= p, q <= n)
                s3 = s3.put(f, s3.heap[f.id].with_((content, T('int', q))))
                for s4, _, e in cbor_fail(I, s3, rest):
                    out.append((s4, 'x', e))
    return out


def lift_value(I, st, v):
    """V term for a value stored in an encoded map, with facts."""
    if isinstance(v, U):
        t, facts = None, []
        for g, x in v.alts:
            if not I.feasible(st, g):
                continue
            y, f = lift_value(I, st.assume(g), x)
            facts += [Implies(asb(g), c) for c in f]
            t = y if t is None else z3.If(asb(g), y, t)
        return t, facts
    if isinstance(v, Ref):
        h = st.heap[v.id]
        if h.kind == 'list':
            l = tm.fresh(V, 'lst')
            facts = [V.is_vlist(l), tm.llen(l) == len(h.data)]
            for i, x in enumerate(h.data):
                y, f = lift_value(I, st, x)
                facts += f + [tm.lat(l, tm.I(i)) == y]
            return l, facts
        if h.kind == 'symlist':
            n, k, x = h.data
            if not I.feasible(st, n != 0):
                y, f = V.vnone, []
            else:
                y, f = lift_value(I, st, x)
            if f:
                raise Unsupported('nested containers')
            l = tm.fresh(V, 'lst')
            j = z3.Int('j!lst')
            return l, [V.is_vlist(l), tm.llen(l) == n,
                       z3.ForAll([j], Implies(And(j >= 0, j < n),
                                              tm.lat(l, j) == z3.substitute(y, (k, j))),
                                 patterns=[tm.lat(l, j)])]
        raise Unsupported('encoding of %s' % h.kind)
    return lift(v), []


def cbor_dumps(I, st, args, kw, fid):
    if len(args) != 1 or kw:
        raise Unsupported('cbor2.dumps options')
    v = args[0]
    if not (isinstance(v, Ref) and st.heap[v.id].kind == 'dict'):
        raise Unsupported('cbor2.dumps')
    b = tm.fresh(tm.Bytes, 'dump')
    d = tm.cbor_val(b)
    facts = [tm.cbor_ok(b), tm.cbor_len(b) == z3.Length(b), V.is_vdict(d), z3.Length(b) > 0]
    keys = []
    for k, x in st.heap[v.id].data.items():
        if isinstance(k, bool) or not isinstance(k, (int, str)):
            raise Unsupported('map key')
        kt = tm.lift(k)
        keys.append(kt)
        ab = asb(I.is_absent(x))
        y = x
        if isinstance(x, U):
            y = U([(g, w) for g, w in x.alts if w is not UNBOUND])
        if x is UNBOUND:
            facts.append(Not(tm.dhas(d, kt)))
            continue
        yt, f = lift_value(I, st, y)
        facts += [tm.dhas(d, kt) == Not(ab), Implies(Not(ab), And(tm.dget(d, kt) == yt, *f))]
    q = z3.Const('q!dump', V)
    facts.append(z3.ForAll([q], Implies(tm.dhas(d, q), Or(*[q == k for k in keys])),
                           patterns=[tm.dhas(d, q)]))
    return ok(st.assume(*facts), T('bytes', b))


json_bytes_ok = tm.uf('json_bytes_ok', tm.Bytes, tm.Bool)
json_bytes_val = tm.uf('json_bytes_val', tm.Bytes, V)


def json_loads(I, st, args, kw, fid):
    import json
    if len(args) != 1 or kw:
        raise Unsupported('json.loads options')
    out = []
    for s, x in I.spread_any(st, args[0]):
        k = kind_of(x)
        if k == 'str':
            t = term(x)
            okc, val, e = tm.json_ok(t), tm.json_val(t), tm.json_err(t)
        elif k == 'bytes':
            t = term(x)
            okc, val, e = json_bytes_ok(t), json_bytes_val(t), tm.uf('json_bytes_err', tm.Bytes, tm.Int)(t)
        elif x is None or k in ('int', 'bool', 'any'):
            out += err(s, TypeError, 'the JSON object must be str, bytes or bytearray')
            continue
        else:
            raise Unsupported('json.loads')
        for s2, b in I.branch(s, okc):
            if b:
                s2 = s2.assume(Not(V.is_vbytes(val)), Not(V.is_vtuple(val)), Not(V.is_vother(val)))
                out += ok(s2, T('any', val, 'json'))
                continue
            kinds = [(e == 0, json.JSONDecodeError), (e == 1, ValueError),
                     (And(e != 0, e != 1), RecursionError)]
            if k == 'bytes':
                kinds[1] = (e == 1, UnicodeDecodeError)
            for c, cls in kinds:
                if I.feasible(s2, c):
                    out += err(s2.assume(c), cls, 'json')
    return out


# -------------------------------------------------------------------- BytesIO
def new_bytesio(I, st, args, kw, fid):
    x = args[0] if args else kw.get('initial_bytes', b'')
    good, out = split_bytes(I, st, x)
    for s, t in good:
        s, r = I.alloc(s, HObj('bytesio', __import__('io').BytesIO, (T('bytes', t), 0)))
        out += ok(s, r)
    return out


def bytesio_method(I, st, r, name, args, kw):
    h = st.heap[r.id]
    content, pos = h.data
    c, p = term(content), term(pos)
    n = z3.Length(c)
    if name in ('read', 'read1'):
        k = args[0] if args else kw.get('size', -1)
        if isinstance(k, U):
            raise Unsupported('read size')
        end = T('int', n)
        if k is None or isinstance(k, int) and not isinstance(k, bool) and k < 0:
            return ok(st.put(r, h.with_((content, end))), T('bytes', subseq(c, p, n - p)))
        if kind_of(k) == 'any':
            good, bad = I.split_kind(st, k, 'int')
            out = []
            for s, y in good:
                out += bytesio_method(I, s, r, name, [y], {})
            for s, y in bad:
                out += err(s, TypeError, 'argument should be integer or None')
            return out
        if kind_of(k) != 'int':
            return err(st, TypeError, 'argument should be integer or None')
        kt = term(k)
        out = []
        if I.feasible(st, kt < 0):
            s = st.assume(kt < 0)
            out += ok(s.put(r, h.with_((content, end))), T('bytes', subseq(c, p, n - p)))
            st = st.assume(kt >= 0)
            if not I.feasible(st):
                return out
        br = I.branch(st, p + kt <= n)
        if len(br) == 2:
            q = tm.fresh(tm.Int, 'pos')
            s = st.assume(q == z3.If(p + kt <= n, p + kt, n))
            return out + ok(s.put(r, h.with_((content, T('int', q)))), T('bytes', subseq(c, p, q - p)))
        for s, b in br:
            if b:
                v = b'' if isinstance(k, int) and k == 0 else T('bytes', subseq(c, p, kt))
                out += ok(s.put(r, h.with_((content, T('int', z3.simplify(p + kt))))), v)
            else:
                out += ok(s.put(r, h.with_((content, end))), T('bytes', subseq(c, p, n - p)))
        return out
    if name == 'tell':
        return ok(st, pos)
    if name == 'getvalue':
        return ok(st, content)
    if name == 'close':
        return ok(st, None)
    if name == 'seek' and len(args) == 1 and kind_of(args[0]) == 'int' and \
            known(I, st, And(term(args[0]) >= 0, term(args[0]) <= n)):
        return ok(st.put(r, h.with_((content, args[0]))), args[0])
    raise Unsupported('BytesIO.%s' % name)


# --------------------------------------------------------------------- hashes
def new_hash(alg):
    def model(I, st, args, kw, fid):
        x = args[0] if args else b''
        kw = {k: v for k, v in kw.items() if k != 'usedforsecurity'}
        if kw or len(args) > 1:
            raise Unsupported('hash arguments')
        good, out = split_bytes(I, st, x)
        for s, t in good:
            s, r = I.alloc(s, HObj('hash', None, (alg, T('bytes', t))))
            out += ok(s, r)
        return out
    return model


def hashlib_new(I, st, args, kw, fid):
    if not isinstance(args[0], str):
        raise Unsupported('hash name')
    return new_hash(args[0].lower().replace('-', ''))(I, st, args[1:], kw, fid)


def hash_method(I, st, r, name, args, kw):
    h = st.heap[r.id]
    alg, data = h.data
    if name == 'digest' and not args:
        import hashlib
        f = tm.sha256 if alg == 'sha256' else tm.uf(alg, tm.Bytes, tm.Bytes)
        t = f(term(data))
        n = hashlib.new(alg).digest_size
        return ok(st.assume(z3.Length(t) == n), T('bytes', t))
    if name == 'hexdigest':
        return ok(st, T('str', tm.uf('hex_' + alg, tm.Bytes, tm.Str)(term(data))))
    if name == 'update':
        good, out = split_bytes(I, st, args[0])
        for s, t in good:
            cur = t if isinstance(data, bytes) and not data else z3.Concat(term(data), t)
            if z3.is_app(term(data)) and term(data).decl().kind() == z3.Z3_OP_SEQ_EMPTY:
                cur = t
            out += ok(s.put(r, h.with_((alg, T('bytes', cur)))), None)
        return out
    raise Unsupported('hash.%s' % name)


# ------------------------------------------------------------------- integers
def uint_facts(t, n):
    """Defining facts of the big-endian value of n bytes."""
    v = tm.be_uint(t)
    fs = [v >= 0]
    if n is not None:
        fs.append(v < tm.I(256 ** n))
        if n <= 4:
            e = [seq_at(t, tm.I(i)) for i in range(n)]
            fs.append(v == z3.Sum([e[i] * (256 ** (n - 1 - i)) for i in range(n)]))
            fs += [And(x >= 0, x <= 255) for x in e]
    return fs


def int_from_bytes(I, st, args, kw, fid):
    order = arg(args, kw, 1, 'byteorder', 'big')
    signed = kw.get('signed', False)
    if not isinstance(order, str) or signed is not False:
        raise Unsupported('int.from_bytes')
    good, out = split_bytes(I, st, args[0])
    for s, t in good:
        r = native(I, s, lambda b: int.from_bytes(b, order), [args[0]])
        if r is not None:
            out += r
        elif order == 'big':
            n = None
            for k in (1, 2, 4):
                if known(I, s, z3.Length(t) == k):
                    n = k
            if n == 1:
                out += ok(*byte_at(s, t, tm.I(0)))
                continue
            out += ok(s.assume(*uint_facts(t, n)), T('int', tm.be_uint(t)))
        elif order == 'little':
            out += ok(s.assume(tm.le_uint(t) >= 0), T('int', tm.le_uint(t)))
        else:
            out += err(s, ValueError, 'byteorder')
    return out


def int_to_bytes(I, st, r, args, kw):
    n, order = arg(args, kw, 0, 'length', 1), arg(args, kw, 1, 'byteorder', 'big')
    if not isinstance(n, int) or order != 'big' or kw.get('signed'):
        raise Unsupported('int.to_bytes')
    x = native(I, st, int.to_bytes, [r, n, order])
    if x is not None:
        return x
    t = term(r)
    out = []
    for s, b in I.branch(st, And(t >= 0, t < tm.I(256 ** n))):
        if b:
            y = tm.uf('to_be_%d' % n, tm.Int, tm.Bytes)(t)
            out += ok(s.assume(z3.Length(y) == n, tm.be_uint(y) == t, *uint_facts(y, n)), T('bytes', y))
        else:
            out += err(s, OverflowError, 'int too big to convert')
    return out


def struct_unpack(I, st, args, kw, fid, offset=None, exact=True):
    import struct
    fmt, data = args[0], args[1]
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str):
        raise Unsupported('struct format')
    size = struct.calcsize(fmt)
    order, codes = (fmt[0], fmt[1:]) if fmt[:1] in '@=<>!' else ('@', fmt)
    good, out = split_bytes(I, st, data)
    for s, t in good:
        if not exact:
            off = offset if offset is not None else 0
            okc = z3.Length(t) >= term(off) + size
        else:
            off, okc = 0, z3.Length(t) == size
        for s2, b in I.branch(s, okc):
            if not b:
                out += err(s2, struct.error, 'unpack requires a buffer of %d bytes' % size)
                continue
            r = native(I, s2, struct.unpack, [fmt, data]) if exact else None
            if r is not None:
                out += r
                continue
            vals, p = [], term(off)
            num = ''
            for ch in codes:
                if ch.isdigit():
                    num += ch
                    continue
                rep = int(num) if num else 1
                if ch == 's':
                    vals.append(T('bytes', subseq(t, p, tm.I(rep))))
                    p = p + rep
                elif ch == 'x':
                    p = p + rep
                else:
                    if ch not in 'BHILQbhilq' or order == '@' and len(codes) > 1:
                        raise Unsupported('struct code %s' % ch)
                    w = struct.calcsize(order + ch)
                    for _ in range(rep):
                        piece = t if exact and w == size else subseq(t, p, tm.I(w))
                        s2 = s2.assume(z3.Length(piece) == w)
                        if w == 1:
                            s2, v = byte_at(s2, piece, tm.I(0))
                            v = v.t
                        elif order in '>!':
                            s2 = s2.assume(*uint_facts(piece, w))
                            v = tm.be_uint(piece)
                        else:
                            v = tm.le_uint(piece)
                            s2 = s2.assume(v >= 0, v < tm.I(256 ** w), v == z3.Sum(
                                [piece[i] * (256 ** i) for i in range(w)]),
                                *[And(piece[i] >= 0, piece[i] <= 255) for i in range(w)])
                        if ch in 'bhilq':
                            v = z3.If(v >= tm.I(256 ** w // 2), v - tm.I(256 ** w), v)
                        vals.append(T('int', v))
                        p = p + w
                num = ''
            out += ok(s2, tuple(vals))
    return out


def struct_unpack_from(I, st, args, kw, fid):
    return struct_unpack(I, st, args[:2], kw, fid, arg(args, kw, 2, 'offset', 0), exact=False)


# ------------------------------------------------------------------------ URL
def urlparse(which):
    def model(I, st, args, kw, fid):
        if len(args) != 1 or kw:
            raise Unsupported('urlparse options')
        good, bad = I.split_kind(st, args[0], 'str')
        if bad:
            raise Unsupported('urlparse of a non-string')
        out = []
        for s, x in good:
            if isinstance(x, str):
                t = tm.S(x)
            else:
                t = term(x)
            for s2, b in I.branch(s, tm.url_ok(t)):
                out += ok(s2, Tag(which, T('str', t))) if b else err(s2, ValueError, 'Invalid URL')
        return out
    return model


def url_getattr(I, st, v, name):
    t = v.args[0].t
    if name in tm.url_part:
        if v.name == 'urlsplit' and name == 'params':
            return err(st, AttributeError, name)
        if v.name == 'urlsplit' and name == 'path':
            p = tm.uf('urlsplit_path', tm.Str, tm.Str)(t)
            # the path of urlsplit is the path and the parameters of urlparse
            return ok(st.assume((z3.Length(p) == 0) == And(z3.Length(tm.url_part['path'](t)) == 0,
                                                           z3.Length(tm.url_part['params'](t)) == 0)),
                      T('str', p))
        return ok(st, T('str', tm.url_part[name](t)))
    if name == 'port':
        out = []
        for s, b in I.branch(st, tm.url_port_ok(t)):
            if not b:
                out += err(s, ValueError, 'Port out of range 0-65535')
                continue
            p = tm.url_port(t)
            out += ok(s.assume(p >= 0, p <= 65535),
                      U([(tm.url_has_port(t), T('int', p)), (Not(tm.url_has_port(t)), None)]))
        return out
    if name == 'hostname':
        h = tm.url_hostname(t)
        return ok(st.assume(Implies(tm.url_has_hostname(t), z3.Length(h) > 0)),
                  U([(tm.url_has_hostname(t), T('str', h)), (Not(tm.url_has_hostname(t)), None)]))
    if name in ('username', 'password'):
        has = tm.uf('url_has_' + name, tm.Str, tm.Bool)(t)
        at = z3.Contains(tm.url_part['netloc'](t), tm.S('@'))
        # user information is present exactly when the netloc contains '@'
        st = st.assume(has == at) if name == 'username' else st.assume(Implies(has, at))
        return ok(st, U([(has, T('str', tm.uf('url_' + name, tm.Str, tm.Str)(t))), (Not(has), None)]))
    raise Unsupported('url attribute %s' % name)


# --------------------------------------------------------------- cryptography
def crypto():
    from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, rsa, dsa
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography import x509, exceptions
    return ec, ed25519, ed448, rsa, dsa, hashes, serialization, x509, exceptions


def pk_value(t):
    return T('opq', t, 'pk')


def pk_class_kind(c):
    ec, ed25519, ed448, rsa, dsa = crypto()[:5]
    return {ec.EllipticCurvePublicKey: 'EC', ec.EllipticCurvePublicKeyWithSerialization: 'EC',
            ed25519.Ed25519PublicKey: 'Ed25519', ed448.Ed448PublicKey: 'Ed448',
            rsa.RSAPublicKey: 'RSA', dsa.DSAPublicKey: 'DSA'}.get(c)


def opq_isinstance(v, c):
    if c is object:
        return True
    if v.cls == 'pk':
        k = pk_class_kind(c)
        if k:
            return tm.pk_kind(v.t) == tm.S(k)
        if c in (int, str, bytes, bool, dict, list, tuple, type(None)):
            return False
    elif v.cls == 'x509':
        x509 = crypto()[7]
        if c is x509.Certificate:
            return True
        if c in (int, str, bytes, bool, dict, list, tuple, type(None)):
            return False
    raise Unsupported('type of an opaque value')


def curve_size(st, curve):
    n = tm.uf('curve_size', tm.Str, tm.Int)(curve)
    ec = crypto()[0]
    return ok(st.assume(n > 0, *[Implies(curve == tm.S(x), n == getattr(ec, c).key_size) for c, x in CURVES.items()]),
              T('int', n))


def opq_getattr(I, st, v, name):
    if v.cls == 'pk':
        if name in ('curve', 'key_size'):
            out = []
            for s, b in I.branch(st, tm.pk_kind(v.t) == tm.S('EC')):
                if b and name == 'curve':
                    out += ok(s, Tag('pkcurve', T('str', tm.pk_curve(v.t))))
                elif b:
                    out += curve_size(s, tm.pk_curve(v.t))
                elif name == 'key_size':
                    raise Unsupported('key_size')
                else:
                    out += err(s, AttributeError, name)
            return out
        return ok(st, Method(v, name))
    if v.cls == 'x509':
        x509 = crypto()[7]
        if name == 'extensions':
            okc = tm.uf('x509_exts_ok', tm.O, tm.Bool)(v.t)
            out = []
            for s, b in I.branch(st, okc):
                if b:
                    out += ok(s, Tag('x509exts', v))
                    continue
                dup = tm.uf('x509_exts_dup', tm.O, tm.Bool)(v.t)
                for s2, d in I.branch(s, dup):
                    out += err(s2, x509.DuplicateExtension if d else ValueError, 'extensions')
            return out
        if name in ('public_key', 'fingerprint', 'public_bytes'):
            return ok(st, Method(v, name))
        raise Unsupported('certificate attribute %s' % name)
    if isinstance(v.cls, AsnType):
        return ok(st, Method(v, name))
    raise Unsupported('attribute of an opaque value')


def hash_name(I, st, v):
    if isinstance(v, U):
        t = None
        for g, x in v.alts:
            y = hash_name(I, st, x)
            t = y if t is None else z3.If(asb(g), y, t)
        return t
    if isinstance(v, Tag) and v.name == 'hashalg':
        return tm.S(v.args[0])
    raise Unsupported('hash algorithm %r' % (v,))


def opq_method(I, st, r, name, args, kw, fid):
    ec, ed25519, ed448, rsa, dsa, hashes, ser, x509, exceptions = crypto()
    if r.cls == 'pk':
        if name == 'verify':
            out = []
            args = list(args)
            for n in ('signature', 'data', 'signature_algorithm')[len(args):]:
                if n in kw:
                    args.append(kw[n])
            groups = [(tm.pk_kind(r.t) == tm.S('EC'), 'EC'),
                      (Or(tm.pk_kind(r.t) == tm.S('Ed25519'), tm.pk_kind(r.t) == tm.S('Ed448')), 'Ed')]
            other = Not(Or(groups[0][0], groups[1][0]))
            if I.feasible(st, other):
                raise Unsupported('verify with another kind of key')
            for g, k in groups:
                if not I.feasible(st, g):
                    continue
                s = st.assume(g)
                if len(args) != (3 if k == 'EC' else 2):
                    out += err(s, TypeError, 'verify() arguments')
                    continue
                for s1, sig in I.spread(s, args[0]):
                    for s2, data in I.spread(s1, args[1]):
                        good1, bad1 = split_bytes(I, s2, sig)
                        out += bad1
                        for s3, sg in good1:
                            good2, bad2 = split_bytes(I, s3, data)
                            out += bad2
                            for s4, dt in good2:
                                if k == 'Ed':
                                    scheme = tm.S('EdDSA')
                                else:
                                    scheme = ecdsa_scheme(I, s4, args[2])
                                for s5, b in I.branch(s4, tm.sig_ok(r.t, sg, dt, scheme)):
                                    out += ok(s5, None) if b else err(s5, exceptions.InvalidSignature)
            return out
        if name == 'public_bytes':
            args = list(args)
            for n in ('encoding', 'format')[len(args):]:
                if n in kw:
                    args.append(kw[n])
            if len(args) == 2 and all(isinstance(a, enum.Enum) for a in args):
                e, f = args
                if (e, f) == (ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo):
                    return ok(st, T('bytes', tm.spki(r.t)))
                return ok(st, T('bytes', tm.uf('pk_bytes_%s_%s' % (e.name, f.name), tm.O, tm.Bytes)(r.t)))
            raise Unsupported('public_bytes')
        if name == 'public_numbers':
            return ok(st, Tag('pknumbers', r))
    if r.cls == 'x509' and name == 'public_key' and not args:
        pk = tm.x509_pk(r.t)
        kind = tm.uf('x509_pk_err', tm.O, tm.Int)(r.t)
        out = []
        for s, b in I.branch(st, tm.uf('x509_pk_ok', tm.O, tm.Bool)(r.t)):
            if b:
                out += ok(s, pk_value(pk))
            else:
                for s2, c in I.branch(s, kind == 0):
                    out += err(s2, ValueError if c else exceptions.UnsupportedAlgorithm, 'public key')
        return out
    if isinstance(r.cls, AsnType):
        return asn_method(I, st, r, name, args)
    raise Unsupported('method %s of an opaque value' % name)


def ecdsa_scheme(I, st, v):
    if isinstance(v, U):
        t = None
        for g, x in v.alts:
            y = ecdsa_scheme(I, st, x)
            t = y if t is None else z3.If(asb(g), y, t)
        return t
    if isinstance(v, Tag) and v.name == 'ecdsa':
        return z3.Concat(tm.S('ECDSA-'), hash_name(I, st, v.args[0])) if not isinstance(v.args[0], Tag) \
            else tm.S('ECDSA-' + v.args[0].args[0])
    raise Unsupported('signature algorithm')


def load_cert(I, st, args, kw, fid):
    ec, ed25519, ed448, rsa, dsa, hashes, ser, x509, exceptions = crypto()
    good, out = split_bytes(I, st, arg(args, kw, 0, 'data'))
    for s, t in good:
        for s2, b in I.branch(s, tm.x509_ok(t)):
            if b:
                out += ok(s2, T('opq', tm.x509(t), 'x509'))
            else:
                k = tm.uf('x509_err', tm.Bytes, tm.Int)(t)
                for s3, c in I.branch(s2, k == 0):
                    if c:
                        out += err(s3, ValueError, 'Unable to load certificate')
                    else:
                        out += [(s3, 'x', ExcV(x509.InvalidVersion, ('version', 0)))]
    return out


CURVES = {'SECP256R1': 'secp256r1', 'SECP384R1': 'secp384r1', 'SECP521R1': 'secp521r1',
          'SECP256K1': 'secp256k1', 'SECP224R1': 'secp224r1', 'SECP192R1': 'secp192r1'}


def ecpn(I, st, args, kw, fid):
    args = list(args)
    for n in ('x', 'y', 'curve')[len(args):]:
        if n not in kw:
            return err(st, TypeError, 'missing argument')
        args.append(kw[n])
    out = []
    for s, c in I.spread(st, args[2]):
        if not (isinstance(c, Tag) and c.name == 'ec_curve'):
            out += err(s, TypeError, 'curve must provide the EllipticCurve interface.')
            continue
        if any(kind_of(x) != 'int' for x in args[:2]):
            out += err(s, TypeError, 'x and y must be integers.')
            continue
        out += ok(s, Tag('ecpn', args[0], args[1], c))
    return I.merge_results(out)


def ec_public_key(I, st, n):
    x, y, c = n.args
    name = tm.S(CURVES[c.args[0]])
    tx, ty = term(x), term(y)
    pk = tm.ec_pk(name, tx, ty)
    out = []
    for s, b in I.branch(st, tm.on_curve(name, tx, ty)):
        if b:
            out += ok(s.assume(tm.pk_kind(pk) == tm.S('EC'), tm.pk_curve(pk) == name), pk_value(pk))
        else:
            out += err(s, ValueError, 'Invalid EC key.')
    return out


def ed_from_bytes(name):
    def model(I, st, args, kw, fid):
        good, out = split_bytes(I, st, args[0])
        for s, t in good:
            n = tm.S(name)
            pk = tm.ed_pk(n, t)
            for s2, b in I.branch(s, tm.ed_ok(n, t)):
                if b:
                    out += ok(s2.assume(tm.pk_kind(pk) == n), pk_value(pk))
                else:
                    out += err(s2, ValueError, 'An %s public key' % name)
        return out
    return model


# --------------------------------------------------------------------- pyasn1
class AsnType:
    """Static ASN.1 type of a decoded value; `sure` when it always has a value."""

    def __init__(self, spec, sure):
        self.spec, self.sure = spec, sure

    def __eq__(self, o):
        return isinstance(o, AsnType) and o.spec is self.spec and o.sure == self.sure

    def __hash__(self):
        return id(self.spec)


def asn_decode(I, st, args, kw, fid):
    from pyasn1.error import PyAsn1Error
    spec = arg(args, kw, 1, 'asn1Spec')
    if not (isinstance(spec, Tag) and spec.name == 'asnspec'):
        raise Unsupported('decode without a specification')
    cls = spec.args[0]
    good, out = split_bytes(I, st, args[0])
    for s, t in good:
        n = tm.S(cls.__name__)
        for s2, b in I.branch(s, tm.asn_ok(t, n)):
            if b:
                out += ok(s2, (T('opq', tm.asn_val(t, n), AsnType(cls(), True)),
                               T('bytes', tm.uf('asn_rest', tm.Bytes, tm.Bytes)(t))))
            else:
                out += [(s2, 'x', ExcV(PyAsn1Error, ('asn1',)))]
    return out


def asn_field(ty, name):
    """-> AsnType or None"""
    nts = getattr(ty.spec, 'componentType', None)
    if isinstance(name, int):
        raise Unsupported('positional ASN.1 access')
    if nts is None or name not in nts:
        return None
    nt = nts[nts.getPositionByName(name)]
    return AsnType(nt.asn1Object, not nt.isOptional and not nt.isDefaulted)


def opq_getitem(I, st, x, k):
    if isinstance(x.cls, AsnType):
        out = []
        for s, key in I.spread(st, k):
            if not isinstance(key, str):
                raise Unsupported('ASN.1 subscript')
            f = asn_field(x.cls, key)
            if f is None:
                out += err(s, KeyError, key)
                continue
            if not x.cls.sure and not known(I, s, tm.asn_hasvalue(x.t)):
                raise Unsupported('field of an optional sequence')
            t = tm.asn_item(x.t, tm.S(key))
            if f.sure:
                s = s.assume(tm.asn_hasvalue(t))
            out += ok(s, T('opq', t, f))
        return out
    raise Unsupported('subscript of an opaque value')


def asn_value(I, st, r):
    """-> [(state, has a value)]"""
    if r.cls.sure:
        return [(st, True)]
    return I.branch(st, tm.asn_hasvalue(r.t))


def asn_method(I, st, r, name, args):
    from pyasn1.error import PyAsn1Error
    from pyasn1.type import univ
    ty = r.cls
    if name == 'hasValue':
        return ok(st, True if ty.sure else T('bool', tm.asn_hasvalue(r.t)))
    if name == 'isValue':
        return ok(st, True if ty.sure else T('bool', tm.asn_hasvalue(r.t)))
    if not hasattr(ty.spec, name) and name != 'asOctets':
        return err(st, AttributeError, name)
    out = []
    for s, b in asn_value(I, st, r):
        if not b:
            out += [(s, 'x', ExcV(PyAsn1Error, ('no value',)))]
            continue
        if name == 'asOctets' and isinstance(ty.spec, univ.OctetString):
            out += ok(s, T('bytes', tm.asn_octets(r.t)))
        elif name == 'count' and len(args) == 1 and isinstance(ty.spec, (univ.SetOf, univ.SequenceOf)) \
                and kind_of(args[0]) == 'int':
            c = tm.asn_count(r.t, term(args[0]))
            out += ok(s.assume(c >= 0), T('int', c))
        elif name == '__int__' and isinstance(ty.spec, univ.Integer):
            out += ok(s, T('int', tm.asn_int(r.t)))
        else:
            raise Unsupported('ASN.1 method %s' % name)
    return out


def asn_present(I, st, x):
    """The value is one the decoder filled in (an absent optional field raises when used)."""
    if not isinstance(x.cls, AsnType) or not (x.cls.sure or known(I, st, tm.asn_hasvalue(x.t))):
        raise Unsupported('use of an optional ASN.1 field')


def asn_eq(I, st, a, b):
    from pyasn1.type import univ
    for x in (a, b):
        if kind_of(x) == 'opq':
            asn_present(I, st, x)
    is_int = lambda x: kind_of(x) == 'int' or kind_of(x) == 'opq' and isinstance(x.cls.spec, univ.Integer)
    is_oct = lambda x: kind_of(x) == 'bytes' or kind_of(x) == 'opq' and isinstance(x.cls.spec, univ.OctetString)
    if is_int(a) and is_int(b):
        return asn_number(a) == asn_number(b)
    if is_oct(a) and is_oct(b):
        f = lambda x: tm.asn_octets(x.t) if kind_of(x) == 'opq' else term(x)
        return f(a) == f(b)
    raise Unsupported('comparison of an ASN.1 value')


def asn_number(x):
    return tm.asn_int(x.t) if kind_of(x) == 'opq' else term(x)


def asn_iterate(I, st, x):
    """Elements of a SET OF / SEQUENCE OF INTEGER, tied to count()."""
    from pyasn1.type import univ
    if not isinstance(x.cls, AsnType) or not isinstance(x.cls.spec, (univ.SetOf, univ.SequenceOf)):
        raise Unsupported('iteration over an opaque value')
    asn_present(I, st, x)
    elem = x.cls.spec.componentType
    if not isinstance(elem, univ.Integer):
        raise Unsupported('iteration over %r' % (elem,))
    n, i, v = tm.asn_len(x.t), z3.Int('i!asn'), z3.Int('v!asn')
    idx = tm.uf('asn_index', tm.O, tm.Int, tm.Int)(x.t, v)
    at = lambda k: tm.asn_elem(x.t, k)
    st = st.assume(
        n >= 0, n < 2 ** 63,
        z3.ForAll([i], Implies(And(i >= 0, i < n), tm.asn_count(x.t, tm.asn_int(at(i))) >= 1), patterns=[at(i)]),
        z3.ForAll([v], And(tm.asn_count(x.t, v) >= 0,
                           Implies(tm.asn_count(x.t, v) >= 1, And(idx >= 0, idx < n, tm.asn_int(at(idx)) == v))),
                  patterns=[tm.asn_count(x.t, v)]))
    ty = AsnType(elem, True)
    return ok(st, ('sym', n, lambda k: T('opq', at(k), ty)))


# ----------------------------------------------------------- bytearray
def bytearray_method(I, st, r, name, args):
    h = st.heap[r.id]
    if h.pre:
        raise Unsupported('input bytearray')
    if name in ('extend', '__iadd__'):
        out = []
        for s, x in I.spread(st, args[0]):
            if kind_of(x) != 'bytes':
                raise Unsupported('bytearray.extend')
            out += ok(s.put(r, h.with_(T('bytes', z3.Concat(h.data.t, term(x))))), None)
        return out
    if name == 'append' and kind_of(args[0]) == 'int':
        out = []
        for s, b in I.branch(st, And(term(args[0]) >= 0, term(args[0]) <= 255)):
            out += ok(s.put(r, h.with_(T('bytes', z3.Concat(h.data.t, z3.Unit(term(args[0])))))), None) if b else \
                err(s, ValueError, 'byte must be in range(0, 256)')
        return out
    raise Unsupported('bytearray.%s' % name)


# ----------------------------------------------------------- structured values
def tag_isinstance(v, c, exact):
    rel = (lambda k: k is c) if exact else (lambda k: isinstance(c, type) and issubclass(k, c))
    ec, ed25519, ed448, rsa, dsa, hashes, ser, x509, exceptions = crypto()
    if v.name == 'pkcurve':
        out = []
        for n, s in CURVES.items():
            if rel(getattr(ec, n)):
                out.append(v.args[0].t == tm.S(s))
        if c in (ec.EllipticCurve, object):
            return True
        return Or(*out)
    if v.name == 'ec_curve':
        return rel(getattr(ec, v.args[0]))
    if v.name == 'hashalg':
        return rel(next(k for k in vars(hashes).values()
                        if isinstance(k, type) and getattr(k, 'name', None) == v.args[0]))
    if v.name == 'ecdsa':
        return rel(ec.ECDSA)
    if v.name == 'x509extval':
        if c is x509.UnrecognizedExtension:
            if v.args[1] == ANDROID_OID:
                return True
            return tm.x509_ext_unrec(v.args[0].t, tm.S(v.args[1]))
        raise Unsupported('type of an extension')
    if v.name in ('url', 'urlsplit'):
        import urllib.parse
        return rel(urllib.parse.ParseResult if v.name == 'url' else urllib.parse.SplitResult)
    simple = {'gen': pytypes.GeneratorType, 'frozenlist': list, 'frozensym': list, 'range': range,
              'dkeys': type({}.keys()), 'dvalues': type({}.values()), 'ditems': type({}.items())}
    if v.name in simple:
        return rel(simple[v.name])
    if v.name == 'asnspec':
        return rel(v.args[0])
    if v.name == 'registrar' and exact is False:
        from webauthn_rp.registrars import CredentialsRegistrar
        return c in (CredentialsRegistrar, object)
    raise Unsupported('type of %s' % v.name)


def tag_getattr(I, st, v, name):
    if v.name in ('url', 'urlsplit'):
        return url_getattr(I, st, v, name)
    if v.name == 'pkcurve':
        if name == 'name':
            return ok(st, v.args[0])
        if name == 'key_size':
            return curve_size(st, v.args[0].t)
        raise Unsupported('curve attribute')
    if v.name == 'ec_curve' and name == 'name':
        return ok(st, CURVES[v.args[0]])
    if v.name == 'ec_curve' and name == 'key_size':
        return ok(st, getattr(crypto()[0], v.args[0]).key_size)
    if v.name == 'hashalg' and name == 'name':
        return ok(st, v.args[0])
    if v.name == 'ecpn':
        if name in ('x', 'y', 'curve'):
            return ok(st, v.args[('x', 'y', 'curve').index(name)])
        return ok(st, Method(v, name))
    if v.name == 'x509ext':
        if name == 'value':
            return ok(st, Tag('x509extval', *v.args))
        raise Unsupported('extension attribute')
    if v.name == 'x509extval':
        if name == 'value':
            return ok(st, T('bytes', tm.x509_ext_bytes(v.args[0].t, tm.S(v.args[1]))))
        raise Unsupported('extension attribute')
    if v.name in ('gen', 'frozenlist', 'frozensym', 'dkeys', 'dvalues', 'ditems', 'x509exts', 'registrar',
                  'object'):
        return ok(st, Method(v, name))
    raise Unsupported('attribute %s of %s' % (name, v.name))


def tag_method(I, st, r, name, args, kw, fid):
    ec, ed25519, ed448, rsa, dsa, hashes, ser, x509, exceptions = crypto()
    if r.name == 'registrar':
        return r.args[0](I, st, name, args, kw)
    if r.name == 'object' and name in ('__init__', '__init_subclass__'):
        return ok(st, None)
    if r.name == 'ecpn' and name == 'public_key':
        return ec_public_key(I, st, r)
    if r.name == 'x509exts' and name in ('get_extension_for_oid',):
        oid = args[0]
        d = getattr(oid, 'dotted_string', None)
        if not isinstance(d, str):
            raise Unsupported('extension OID')
        c = r.args[0]
        out = []
        for s, b in I.branch(st, tm.x509_has_ext(c.t, tm.S(d))):
            if b:
                out += ok(s, Tag('x509ext', c, d))
            else:
                out += [(s, 'x', ExcV(x509.ExtensionNotFound, ('not found', oid)))]
        return out
    if r.name == 'frozenlist' and name == 'count' and len(args) == 1:
        return ok(st, T('int', z3.Sum([tm.I(0)] + [z3.If(asb(I.eq(st, y, args[0])), tm.I(1), tm.I(0))
                                                   for y in r.args])))
    if r.name == 'dkeys' and name in ('difference', 'isdisjoint'):
        if name == 'isdisjoint':
            ea, eb = I.as_set(st, r), I.as_set(st, args[0])
            return ok(st, I.mkbool(Not(asb(I.set_nonempty(st, (('and', ea, eb),))))))
        return err(st, AttributeError, name)
    raise Unsupported('method %s of %s' % (name, r.name))


def tag_getitem(I, st, x, k):
    raise Unsupported('subscript of %s' % x.name)


PURE = ('cryptography.hazmat._oid', 'cryptography.x509', 'builtins', 're', 'enum', 'struct', 'urllib.parse',
        'datetime', 'decimal', 'fractions', 'uuid', 'ipaddress', '_struct')


def pure_receiver(r):
    m = type(r).__module__ or ''
    return any(m == p or m.startswith(p + '.') for p in PURE)
