"""Logic side of the verifier: sorts, uninterpreted functions and term helpers."""
import itertools
import re
import z3

Int, Bool, Str = z3.IntSort(), z3.BoolSort(), z3.StringSort()
Bytes = z3.SeqSort(Int)
O = z3.DeclareSort('O')          # objects of external libraries

_V = z3.Datatype('V')            # values decoded from JSON / CBOR
_V.declare('vnone')
_V.declare('vbool', ('ub', Bool))
_V.declare('vint', ('ui', Int))
_V.declare('vflt', ('uf', Int))
_V.declare('vstr', ('us', Str))
_V.declare('vbytes', ('uy', Bytes))
_V.declare('vlist', ('ul', Int))
_V.declare('vtuple', ('ut', Int))
_V.declare('vdict', ('ud', Int))
_V.declare('vother', ('uo', Int))
V = _V.create()

_fresh = itertools.count()


def reset_fresh():
    global _fresh
    _fresh = itertools.count()


def fresh(sort, base='f'):
    return z3.Const('%s!%d' % (base, next(_fresh)), sort)


_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


# containers inside V
llen = uf('llen', V, Int)
lat = uf('lat', V, Int, V)
dhas = uf('dhas', V, V, Bool)
dget = uf('dget', V, V, V)
dlen = uf('dlen', V, Int)
dkey = uf('dkey', V, Int, V)
fltnz = uf('flt_nonzero', Int, Bool)
flt_isint = uf('flt_isint', Int, Bool)
flt_int = uf('flt_int', Int, Int)

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def I(n):
    return z3.IntVal(n)


def S(s):
    # z3 decodes \u{..} escapes itself
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '\\' or o < 32 or o > 126:
            out.append('\\u{%x}' % o)
        else:
            out.append(ch)
    return z3.StringVal(''.join(out))


def text(t):
    """Python string of a literal."""
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t.as_string())


def B(b):
    if len(b) == 0:
        return z3.Empty(Bytes)
    us = [z3.Unit(z3.IntVal(x)) for x in b]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def vs(s):
    return V.vstr(S(s))


def lift(x):
    """Concrete scalar -> V term."""
    if x is None:
        return V.vnone
    if isinstance(x, bool):
        return V.vbool(z3.BoolVal(x))
    if isinstance(x, int):
        return V.vint(I(x))
    if isinstance(x, str):
        return V.vstr(S(x))
    if isinstance(x, bytes):
        return V.vbytes(B(x))
    raise ValueError(x)


def And(*xs):
    xs = [x for x in xs if x is not True and not z3.is_true(x)] if xs else []
    if any(x is False for x in xs):
        return FALSE
    xs = [z3.BoolVal(x) if isinstance(x, bool) else x for x in xs]
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    if any(x is True for x in xs):
        return TRUE
    xs = [x for x in xs if x is not False and not (not isinstance(x, bool) and z3.is_false(x))]
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


def Implies(a, b):
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if z3.is_true(a):
        return b
    if z3.is_true(b):
        return b
    return z3.Implies(a, b)


def asb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def symbols(exprs):
    """All uninterpreted declaration names occurring in the expressions."""
    seen, names, todo = set(), set(), [e for e in exprs if z3.is_ast(e)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(e.decl().name())
            todo.extend(e.children())
    return names


_hq = {}


def has_quantifier(e):
    r = _hq.get(e.get_id())
    if r is None:
        r = _hq[e.get_id()] = (_has_quantifier(e), e)
    return r[0]


def _has_quantifier(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def has_ite(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT,
                                                z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ):
            return True
        todo.extend(x.children())
    return False


# ----- spec / library functions (uninterpreted, with facts added on use) -----
utf8_ok = uf('utf8_ok', Bytes, Bool)
utf8_dec = uf('utf8_dec', Bytes, Str)
utf8_enc = uf('utf8_enc', Str, Bytes)
utf8_encodable = uf('utf8_encodable', Str, Bool)
json_ok = uf('json_ok', Str, Bool)
json_val = uf('json_val', Str, V)
json_err = uf('json_err', Str, Int)      # 0 JSONDecodeError 1 ValueError 2 RecursionError
cbor_ok = uf('cbor_ok', Bytes, Bool)
cbor_val = uf('cbor_val', Bytes, V)
cbor_len = uf('cbor_len', Bytes, Int)
cbor_err = uf('cbor_err', Bytes, Int)    # 0 EOF 1 CBORDecodeValueError 2 another exception
b64_ok = uf('b64_ok', Str, Str, Bool)    # text, altchars ('' for standard)
b64_text = uf('b64_text', Str, Str, Bool)    # the text is base64, padded or not
b64_dec = uf('b64_dec', Str, Str, Bytes)
b64_enc = uf('b64_enc', Bytes, Str, Bytes)
ascii_dec = uf('ascii_dec', Bytes, Str)
sha256 = uf('sha256', Bytes, Bytes)
be_uint = uf('be_uint', Bytes, Int)
le_uint = uf('le_uint', Bytes, Int)

url_ok = uf('url_ok', Str, Bool)
url_part = {p: uf('url_' + p, Str, Str) for p in
            ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')}
url_port_ok = uf('url_port_ok', Str, Bool)
url_has_port = uf('url_has_port', Str, Bool)
url_port = uf('url_port', Str, Int)
url_has_hostname = uf('url_has_hostname', Str, Bool)
url_hostname = uf('url_hostname', Str, Str)

# cryptography
ec_pk = uf('ec_pk', Str, Int, Int, O)
on_curve = uf('on_curve', Str, Int, Int, Bool)
ed_pk = uf('ed_pk', Str, Bytes, O)
ed_ok = uf('ed_ok', Str, Bytes, Bool)
pk_kind = uf('pk_kind', O, Str)          # 'EC' 'Ed25519' 'Ed448' or other
pk_curve = uf('pk_curve', O, Str)
sig_ok = uf('sig_ok', O, Bytes, Bytes, Str, Bool)   # key, signature, data, scheme
spki = uf('spki', O, Bytes)
x509_ok = uf('x509_ok', Bytes, Bool)
x509 = uf('x509', Bytes, O)
x509_pk = uf('x509_pk', O, O)
x509_has_ext = uf('x509_has_ext', O, Str, Bool)
x509_ext_unrec = uf('x509_ext_unrec', O, Str, Bool)
x509_ext_bytes = uf('x509_ext_bytes', O, Str, Bytes)
# pyasn1
asn_ok = uf('asn_ok', Bytes, Str, Bool)
asn_val = uf('asn_val', Bytes, Str, O)
asn_item = uf('asn_item', O, Str, O)
asn_hasvalue = uf('asn_hasvalue', O, Bool)
asn_int = uf('asn_int', O, Int)
asn_count = uf('asn_count', O, Int, Int)
asn_len = uf('asn_len', O, Int)
asn_elem = uf('asn_elem', O, Int, O)
asn_octets = uf('asn_octets', O, Bytes)
