"""Operators, subscripting and methods of built-in types."""
import ast
import enum
import operator
import re
import string
import types as pytypes
import z3
from . import terms as tm
from .terms import And, Or, Not, Implies, asb, V
from .values import *


def ok(st, v):
    return [(st, 'v', v)]


def err(st, cls, *args):
    return [(st, 'x', ExcV(cls, args))]


class NotConcrete(Exception):
    pass


def conc(I, st, v):
    """Concrete Python value of an engine value, or NotConcrete."""
    if v is None or isinstance(v, (bool, int, str, bytes, float, enum.Enum)):
        return v
    if isinstance(v, (tuple,)):
        return tuple(conc(I, st, x) for x in v)
    if isinstance(v, (list, dict, set, frozenset, type, pytypes.ModuleType, pytypes.FunctionType,
                      pytypes.BuiltinFunctionType)):
        return v
    if isinstance(v, Ref):
        h = st.heap[v.id]
        if h.kind == 'list':
            return [conc(I, st, x) for x in h.data]
        if h.kind == 'dict':
            if any(I.is_absent(x) is not False for x in h.data.values()):
                raise NotConcrete
            return {k: conc(I, st, x) for k, x in h.data.items()}
        if h.kind == 'set':
            if all(e[0] == 'e' and z3.is_true(asb(e[1])) for e in h.data):
                return set(conc(I, st, e[2]) for e in h.data)
    if isinstance(v, (T, U, Ref, SObj, NTup, Tag, TypeOf, ExcV, Closure, Bound, Method, SuperV, Marker)):
        raise NotConcrete
    return v


def unconc(I, st, v):
    """Native result -> engine value (containers become heap cells)."""
    if isinstance(v, list):
        items = []
        for x in v:
            st, y = unconc(I, st, x)
            items.append(y)
        return I.alloc(st, HObj('list', None, tuple(items)))
    if isinstance(v, dict):
        d = {}
        for k, x in v.items():
            st, d[k] = unconc(I, st, x)
        return I.alloc(st, HObj('dict', None, d))
    if isinstance(v, (set, frozenset)):
        return I.alloc(st, HObj('set', None, tuple(('e', True, x) for x in sorted(v, key=repr))))
    if type(v) in (dict().keys().__class__, dict().values().__class__, dict().items().__class__):
        return unconc(I, st, list(v))
    return st, v


def native(I, st, f, args, kw=None):
    try:
        a = [conc(I, st, x) for x in args]
        k = {n: conc(I, st, x) for n, x in (kw or {}).items()}
    except NotConcrete:
        return None
    try:
        r = f(*a, **k)
    except Exception as e:
        return err(st, type(e), *[str(x) for x in e.args])
    st, r = unconc(I, st, r)
    return ok(st, r)


# ------------------------------------------------------------------ strings
int_str_ok = tm.uf('int_str_ok', tm.Int, tm.Bool)
val_str_ok = tm.uf('val_str_ok', V, tm.Bool)


def unprintable(I, st, v, seen=0):
    """Condition under which str()/format() of the value raises ValueError
    (Python refuses to convert integers of more than 4300 digits)."""
    if isinstance(v, U):
        return Or(*[And(g, asb(unprintable(I, st, x))) for g, x in v.alts])
    if isinstance(v, T):
        if v.cls == 'json':
            return False
        if v.kind == 'int':
            return And(Not(int_str_ok(v.t)), Or(v.t > tm.I(2 ** 64), v.t < tm.I(-2 ** 64)))
        if v.kind == 'any':
            t = v.t
            return Or(And(V.is_vint(t), Not(int_str_ok(V.ui(t))),
                          Or(V.ui(t) > tm.I(2 ** 64), V.ui(t) < tm.I(-2 ** 64))),
                      And(Or(V.is_vlist(t), V.is_vtuple(t), V.is_vdict(t), V.is_vother(t)),
                          Not(val_str_ok(t))))
        return False
    if isinstance(v, Ref):
        h = st.heap[v.id]
        if h.kind == 'list':
            return Or(*[asb(unprintable(I, st, x)) for x in h.data])
        if h.kind == 'dict':
            return Or(*[asb(unprintable(I, st, x)) for x in h.data.values() if x is not UNBOUND])
        if h.kind in ('set', 'symlist', 'filtlist'):
            if h.kind != 'symlist' and not _loose_set(I, st, h.data):
                return False
            if h.kind == 'symlist' and kind_of(h.data[2]) in ('str', 'bytes', 'enum', 'bool'):
                return False
            return tm.fresh(tm.Bool, 'unp')
        return False
    if isinstance(v, (tuple, NTup)):
        return Or(*[asb(unprintable(I, st, x)) for x in (v.vals if isinstance(v, NTup) else v)])
    if isinstance(v, ExcV):
        if v.known:
            return Or(*[asb(unprintable(I, st, x)) for x in v.args]) if v.args else False
        return False
    if isinstance(v, Tag) and v.name in ('dkeys', 'dvalues', 'ditems'):
        x = v.args[0]
        if isinstance(x, T):
            return False if x.cls == 'json' else tm.fresh(tm.Bool, 'unp')
        return unprintable(I, st, x)
    return False


def _loose_set(I, st, entries):
    for e in entries:
        if e[0] == 'dk' and (len(e) < 3 or e[2] != 'json'):
            return True
        if e[0] in ('diff', 'and') and _loose_set(I, st, e[1]):
            return True
        if e[0] in ('e', 'q'):
            x = e[2] if e[0] == 'e' else e[3]
            if isinstance(x, T) and x.kind in ('any', 'int') and x.cls != 'json':
                return True
    return False


def message(I, st, vals):
    """A string whose contents are irrelevant: error messages."""
    c = Or(*[asb(unprintable(I, st, v)) for v in vals]) if vals else False
    out = []
    for s, b in I.branch(st, c):
        if b:
            out += err(s, ValueError, 'integer string conversion')
        else:
            out += ok(s, T('str', tm.fresh(tm.Str, 'msg')))
    return out


def format_fstring(I, st, e, vals):
    r = native(I, st, lambda *a: None, vals)
    if r is not None:
        out, i = '', 0
        simple = True
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                if p.format_spec is not None:
                    simple = False
                    break
                x = conc(I, st, vals[i])
                i += 1
                x = {-1: lambda y: y, 115: str, 114: repr, 97: ascii}[p.conversion](x)
                out += format(x)
            else:
                out += p.value
        if simple:
            return ok(st, out)
    parts, i = [], 0
    for p in e.values:
        if isinstance(p, ast.FormattedValue):
            plain = p.conversion in (-1, 115) and p.format_spec is None
            parts.append((vals[i], plain))
            i += 1
        else:
            parts.append((p.value, True))
    return compose(I, st, parts)


def compose(I, st, parts):
    """A string put together from (value, written as str(value)) parts; other writings are not interpreted."""
    if not all(plain and (kind_of(x) == 'str' or isinstance(x, T) and x.kind == 'any') for x, plain in parts):
        return message(I, st, [x for x, _ in parts])
    odd, res = [], ''
    for x, _ in parts:
        if kind_of(x) != 'str':
            odd.append(x)
            x = T('str', z3.If(V.is_vstr(x.t), V.us(x.t), tm.fresh(tm.Str, 'msg')))
        res = strcat(res, x)
    return [(s, k, res if k == 'v' else v) for s, k, v in (message(I, st, odd) if odd else ok(st, res))]


def format_parts(text, args, kw):
    """The parts of text.format(*args, **kw), or None."""
    parts, auto = [], 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(text):
            if lit:
                parts.append((lit, True))
            if name is None:
                continue
            if name == '':
                name, auto = str(auto), auto + 1
            x = args[int(name)] if name.isdigit() else kw[name]
            parts.append((x, not spec and conv in (None, 's')))
    except (ValueError, KeyError, IndexError):
        return None
    return parts


def percent_parts(text, args):
    """The parts of text % args, or None."""
    parts, n, bytes_ = [], 0, isinstance(text, bytes)
    for m in re.finditer(rb'(?s)%(.)|([^%]+)' if bytes_ else r'(?s)%(.)|([^%]+)', text):
        c, lit = m.groups()
        if lit is not None:
            parts.append((lit, True))
        elif c in ('%', b'%'):
            parts.append((c, True))
        elif n >= len(args) or c not in ((b's', b'b') if bytes_ else ('s', 'd', 'r', 'x', 'i', 'a')):
            return None
        else:
            parts.append((args[n], c in ('s', b's', b'b')))
            n += 1
    return parts if n == len(args) and not text.endswith(b'%' if bytes_ else '%') else None


def strcat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == '':
        return b
    if isinstance(b, str) and b == '':
        return a
    return T('str', z3.Concat(term(a), term(b)))


# ---------------------------------------------------------------- sequences
def known(I, st, c):
    """The path condition implies c."""
    c = asb(c)
    if z3.is_true(z3.simplify(c)):
        return True
    return not I.feasible(st, Not(c))


def subseq(t, off, n):
    """t[off:off+n] for a range known to lie inside t; nested ranges are
    flattened so that equal ranges have equal terms."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        b, o, _ = t.children()
        return subseq(b, z3.simplify(o + off), n)
    off, n = z3.simplify(off), z3.simplify(n)
    return z3.Extract(t, off, n)


def slice_term(I, st, t, lo, hi):
    """Python slice t[lo:hi] of a z3 sequence; lo, hi ints or None."""
    n = z3.Length(t)

    def norm(x, default):
        if x is None:
            return default
        c = term(x)
        if isinstance(x, int):
            if x >= 0:
                return c if known(I, st, n >= c) else z3.If(n >= c, c, n)
            return n + c if known(I, st, n + c >= 0) else z3.If(n + c >= 0, n + c, tm.I(0))
        d = z3.If(c < 0, z3.If(n + c < 0, tm.I(0), n + c), z3.If(c > n, n, c))
        if known(I, st, And(c >= 0, c <= n)):
            return c
        return d
    a, b = norm(lo, tm.I(0)), norm(hi, n)
    if known(I, st, b >= a):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and not known(
                I, st, And(t.arg(1) >= 0, t.arg(1) + t.arg(2) <= z3.Length(t.arg(0)), t.arg(2) >= 0)):
            return z3.Extract(t, z3.simplify(a), z3.simplify(b - a))
        return subseq(t, a, b - a)
    return z3.Extract(t, a, z3.If(b >= a, b - a, tm.I(0)))


def slice_(I, st, v, lo, hi, step):
    out = []
    for s, x in I.spread(st, v):
        r = native(I, s, lambda a, l, h, k: a[l:h:k], [x, lo, hi, step])
        if r is not None and not isinstance(x, Ref):
            out += r
            continue
        if step is not None:
            raise Unsupported('slice step')
        if isinstance(lo, U) or isinstance(hi, U):
            raise Unsupported('slice bounds')
        if isinstance(x, T) and x.kind == 'any':
            for s2, y in I.spread_any(s, x):
                if kind_of(y) in ('str', 'bytes'):
                    out += slice_(I, s2, y, lo, hi, None)
                elif y is None or kind_of(y) in ('int', 'bool'):
                    out += err(s2, TypeError, 'not subscriptable')
                else:
                    raise Unsupported('slice of an unknown value')
            continue
        k = kind_of(x)
        if k in ('str', 'bytes'):
            for b in (lo, hi):
                if b is not None and kind_of(b) != 'int':
                    raise Unsupported('slice bounds')
            out += ok(s, T(k, slice_term(I, s, term(x), lo, hi)))
            continue
        if isinstance(x, (tuple, NTup)) and all(b is None or isinstance(b, int) for b in (lo, hi)):
            vals = x.vals if isinstance(x, NTup) else x
            out += ok(s, tuple(vals[lo:hi]))
            continue
        if isinstance(x, Ref) and s.heap[x.id].kind == 'list' and \
                all(b is None or isinstance(b, int) for b in (lo, hi)):
            s, r = I.alloc(s, HObj('list', None, tuple(s.heap[x.id].data[lo:hi])))
            out += ok(s, r)
            continue
        if x is None or kind_of(x) in ('int', 'bool'):
            out += err(s, TypeError, 'not subscriptable')
            continue
        raise Unsupported('slice of %r' % (x,))
    return out


def seq_at(t, i):
    """t[i] for an index known to lie inside t; ranges are flattened."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        b, o, _ = t.children()
        return seq_at(b, z3.simplify(o + i))
    return t[i]


def byte_at(st, t, i):
    e = seq_at(t, i)
    return st.assume(And(e >= 0, e <= 255)), T('int', e)


def index(I, st, n, k):
    """-> [(state, index term or None when out of range)]"""
    c = term(k)
    if isinstance(k, bool) or kind_of(k) == 'bool':
        raise Unsupported('bool index')
    if isinstance(k, int):
        inr = n > c if k >= 0 else n + c >= 0
        i = c if k >= 0 else n + c
    else:
        inr = And(c >= -n, c < n)
        i = c if known(I, st, c >= 0) else z3.If(c >= 0, c, n + c)
    return [(s, i if b else None) for s, b in I.branch(st, inr)]


def unhashable(t):
    return Or(V.is_vlist(t), V.is_vdict(t), And(V.is_vtuple(t), tm.uf('tuple_unhashable', V, tm.Bool)(t)))


def hash_check(I, st, k):
    """-> (hashable states, error results)"""
    if isinstance(k, T) and k.kind == 'any':
        good, bad = [], []
        for s, b in I.branch(st, unhashable(k.t)):
            if b:
                bad += err(s, TypeError, 'unhashable')
            else:
                good.append(s)
        return good, bad
    if isinstance(k, Ref) and st.heap[k.id].kind in ('list', 'symlist', 'dict', 'set', 'enumset'):
        return [], err(st, TypeError, 'unhashable')
    return [st], []


def sub_any(v, t):
    return T('any', t, v.cls)


def getitem(I, st, c, k):
    out = []
    for s, x in I.spread(st, c):
        for s2, kk in I.spread(s, k):
            for s3, k3 in known_type(I, s2, x, kk):
                out += getitem1(I, s3, x, k3)
    return I.merge_results(out)


def known_type(I, st, x, k):
    """The classes among the keys of x that k, the type of an unknown value, may be."""
    if not isinstance(k, TypeOf):
        return [(st, k)]
    keys = st.heap[x.id].data if isinstance(x, Ref) and st.heap[x.id].kind == 'dict' else x
    out, rest = [], []
    for c in keys if isinstance(keys, dict) else ():
        if isinstance(c, type):
            g = asb(I.type_is(k, c))
            if I.feasible(st, g):
                out.append((st.assume(g), c))
            rest.append(Not(g))
    if I.feasible(st, And(*rest)):
        out.append((st.assume(And(*rest)), object()))
    return out


def url_items(I, st, v):
    """The parts of a split URL, which is a tuple as well."""
    from . import libs
    out = []
    for n in ('scheme', 'netloc', 'path') + (('params', ) if v.name == 'url' else ()) + ('query', 'fragment'):
        s, _, x = libs.url_getattr(I, st, v, n)[0]
        if s is not st:
            raise Unsupported('parts of urlsplit')
        out.append(x)
    return tuple(out)


def getitem1(I, st, x, k):
    if x is POISON or k is POISON:
        raise NeedBounded('loop-carried value')
    if isinstance(x, enum.EnumMeta):
        if isinstance(k, str):
            return ok(st, x[k]) if k in x.__members__ else err(st, KeyError, k)
        if kind_of(k) == 'str':
            return pick(I, st, [(n, m) for n, m in x.__members__.items()], k, KeyError)
        raise Unsupported('enum subscript')
    if isinstance(x, type) or hasattr(x, '__origin__') or type(x).__module__ == 'typing':
        try:
            return ok(st, x[k])            # typing subscript
        except Exception:
            raise Unsupported('subscript of a class')
    if isinstance(x, Tag) and x.name in ('url', 'urlsplit'):
        return getitem1(I, st, url_items(I, st, x), k)
    if isinstance(x, dict):
        good, bad = hash_check(I, st, k)
        out = bad
        for s in good:
            if not isinstance(k, (T, NTup, Tag, Ref)):
                try:
                    out += ok(s, x[k]) if k in x else err(s, KeyError, k)
                    continue
                except TypeError:
                    pass
            out += pick(I, s, list(x.items()), k, KeyError)
        return out
    if isinstance(x, (tuple, list, str, bytes, NTup)):
        vals = x.vals if isinstance(x, NTup) else x
        if isinstance(k, int):
            if -len(vals) <= k < len(vals):
                return ok(st, vals[k])
            return err(st, IndexError, 'out of range')
        if isinstance(k, T) and k.kind == 'int':
            n = len(vals)
            return pick(I, st, [(i, vals[i]) for i in range(n)] + [(i - n, vals[i]) for i in range(n)], k,
                        IndexError)
        if isinstance(k, T) and k.kind == 'any':
            raise Unsupported('index of unknown type')
        return err(st, TypeError, 'index type')
    if isinstance(x, Ref):
        h = st.heap[x.id]
        if h.kind == 'list':
            return getitem1(I, st, tuple(h.data), k)
        if h.kind == 'acc':
            raise NeedBounded('accumulator read in loop')
        if h.kind == 'symlist':
            n, kv, val = h.data
            out = []
            if kind_of(k) != 'int':
                raise Unsupported('list index')
            for s, i in index(I, st.assume(n >= 0), n, k):
                out += err(s, IndexError, 'out of range') if i is None else ok(s, subst(val, kv, i))
            return out
        if h.kind == 'dict':
            good, bad = hash_check(I, st, k)
            out = bad
            for s in good:
                if not isinstance(k, T):
                    if k in h.data:
                        out += I.bound(s, h.data[k], k, KeyError)
                    else:
                        out += err(s, KeyError, k)
                else:
                    out += [y for r in pick(I, s, list(h.data.items()), k, KeyError)
                            for y in (I.bound(r[0], r[2], 'key', KeyError) if r[1] == 'v' else [r])]
            return out
        if h.kind == 'obj':
            gi = getattr(h.cls, '__getitem__', None)
            if isinstance(gi, pytypes.FunctionType):
                return I.call1(st, gi, [x, k], {}, None)
        return err(st, TypeError, 'not subscriptable')
    if isinstance(x, T):
        if x.kind == 'bytes':
            if kind_of(k) != 'int':
                raise Unsupported('bytes index')
            out = []
            for s, i in index(I, st, z3.Length(x.t), k):
                if i is None:
                    out += err(s, IndexError, 'out of range')
                else:
                    out += ok(*byte_at(s, x.t, i))
            return out
        if x.kind == 'str':
            if kind_of(k) != 'int':
                raise Unsupported('str index')
            out = []
            for s, i in index(I, st, z3.Length(x.t), k):
                out += err(s, IndexError, 'out of range') if i is None else \
                    ok(s, T('str', z3.SubString(x.t, i, 1)))
            return out
        if x.kind == 'any':
            t = x.t
            out = []
            for s, y in I.spread_any(st, x):
                if not (isinstance(y, T) and y.kind == 'any'):
                    if y is None or kind_of(y) in ('int', 'bool'):
                        out += err(s, TypeError, 'not subscriptable')
                    else:
                        out += getitem1(I, s, y, k)
                    continue
                if I.feasible(s, V.is_vdict(t)):
                    s1 = s.assume(V.is_vdict(t))
                    good, bad = hash_check(I, s1, k)
                    out += bad
                    for s2 in good:
                        kt = I.key_term(k)
                        for s3, b in I.branch(s2, tm.dhas(t, kt) if kt is not None else False):
                            out += ok(s3, sub_any(x, tm.dget(t, kt))) if b else err(s3, KeyError, k)
                seq = Or(V.is_vlist(t), V.is_vtuple(t))
                if I.feasible(s, seq):
                    s1 = s.assume(seq, tm.llen(t) >= 0, tm.llen(t) < 2 ** 63)
                    if kind_of(k) == 'int':
                        for s2, i in index(I, s1, tm.llen(t), k):
                            out += err(s2, IndexError, 'out of range') if i is None else \
                                ok(s2, sub_any(x, tm.lat(t, i)))
                    elif kind_of(k) == 'any':
                        raise Unsupported('index of unknown type')
                    else:
                        out += err(s1, TypeError, 'index type')
                if I.feasible(s, V.is_vflt(t)):
                    out += err(s.assume(V.is_vflt(t)), TypeError, 'not subscriptable')
                if I.feasible(s, V.is_vother(t)):
                    out += err(s.assume(V.is_vother(t)), TypeError, 'not subscriptable')
            return out
        if x.kind == 'opq':
            from . import libs
            return libs.opq_getitem(I, st, x, k)
        return err(st, TypeError, 'not subscriptable')
    if isinstance(x, Tag):
        if x.name == 'frozenlist':
            return getitem1(I, st, tuple(x.args), k)
        if x.name == 'frozensym':
            n, kv, val = x.args
            out = []
            for s, i in index(I, st, n.t, k):
                out += err(s, IndexError, 'out of range') if i is None else ok(s, subst(val, kv.t, i))
            return out
        from . import libs
        return libs.tag_getitem(I, st, x, k)
    if x is None or isinstance(x, (int, float, SObj)):
        return err(st, TypeError, 'not subscriptable')
    raise Unsupported('subscript of %r' % (x,))


def pick(I, st, items, k, exc):
    """Look a symbolic key up among concrete (key, value) items."""
    out, seen = [], []
    for key, v in items:
        c = asb(I.eq(st, k, key))
        if z3.is_false(c):
            continue
        g = And(c, *[Not(x) for x in seen]) if exc is IndexError else c
        if I.feasible(st, g):
            out += ok(st.assume(g), v)
        seen.append(c)
    none = And(*[Not(c) for c in seen])
    if I.feasible(st, none):
        out += err(st.assume(none), exc, 'key')
    return I.merge_results(out)


def literal_cases(t, g=tm.TRUE):
    """[(guard, literal)] of a text term that selects between literals, else None."""
    if z3.is_string_value(t):
        return [(g, tm.text(t))]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a = literal_cases(t.arg(1), And(g, t.arg(0)))
        b = literal_cases(t.arg(2), And(g, Not(t.arg(0))))
        if a is not None and b is not None:
            return a + b
    return None


def setitem(I, st, c, k, v):
    if isinstance(k, T) and k.kind == 'str':
        cases = literal_cases(k.t)
        if cases:
            k = cases[0][1] if len(cases) == 1 else U(cases)
    if isinstance(k, T) and k.kind == 'any' and I.entailed(st, V.is_vstr(k.t)):
        k = T('str', V.us(k.t))
    if isinstance(k, U):
        k = U([(g, T('str', V.us(x.t)) if isinstance(x, T) and x.kind == 'any' and
                I.entailed(st.assume(g), V.is_vstr(x.t)) else x) for g, x in k.alts])
        if all(kind_of(x) == 'str' for _, x in k.alts) and any(isinstance(x, T) for _, x in k.alts):
            t = term(k.alts[-1][1])
            for g, x in reversed(k.alts[:-1]):
                t = z3.If(asb(g), term(x), t)
            return setitem(I, st, c, T('str', t), v)
        out = []
        for s, x in I.spread(st, k):
            out += setitem(I, s, c, x, v)
        return out
    out = []
    for s, x in I.spread(st, c):
        if isinstance(x, Ref):
            h = s.heap[x.id]
            if h.pre:
                s = s.event('write', 'item of an input object')
            if h.kind == 'dict':
                if isinstance(k, (T, U)):
                    if not h.data and not h.pre and h.cls is None and isinstance(k, T) and k.kind == 'str':
                        out.append((s.put(x, HObj('wdict', dict, ())), 'n', None))
                        continue
                    raise Unsupported('symbolic dictionary key')
                d = dict(h.data)
                d[I.dict_key(k)] = v
                out.append((s.put(x, h.with_(d)), 'n', None))
                continue
            if h.kind == 'list' and isinstance(k, int):
                if -len(h.data) <= k < len(h.data):
                    l = list(h.data)
                    l[k] = v
                    out.append((s.put(x, h.with_(tuple(l))), 'n', None))
                else:
                    out += err(s, IndexError, 'out of range')
                continue
            if h.kind == 'acc' and h.cls is dict:
                out.append((s.put(x, h.with_(h.data + ((tm.TRUE, (k, v)),))), 'n', None))
                continue
            if h.kind == 'acc':
                raise NeedBounded('accumulator write')
            if h.kind in ('symlist', 'enumset'):
                raise input_write(I, st, x)
            raise Unsupported('item assignment')
        if isinstance(x, T) and x.kind == 'any':
            raise input_write(I, st, x)
        if isinstance(x, (dict, list)):
            raise FrameBroken('write to a module-level container')
        if x is None or isinstance(x, (T, tuple, NTup)):
            out += err(s, TypeError, 'item assignment')
            continue
        raise Unsupported('item assignment to %r' % (x,))
    return out


# ---------------------------------------------------------------- operators
_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
        ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_,
        ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.MatMult: operator.matmul}


def unop(I, st, op, v):
    out = []
    for s, x in I.spread(st, v):
        f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(op)]
        r = native(I, s, f, [x])
        if r is not None:
            out += r
        elif kind_of(x) == 'int':
            t = term(x)
            out += ok(s, T('int', {ast.USub: lambda: -t, ast.UAdd: lambda: t,
                                   ast.Invert: lambda: -t - 1}[type(op)]()))
        else:
            raise Unsupported('unary operator')
    return out


def as_int(x):
    k = kind_of(x)
    if k == 'int':
        return term(x)
    if k == 'bool':
        t = term(x)
        return z3.If(t, tm.I(1), tm.I(0))
    return None


def binop(I, st, op, a, b, inplace=False):
    out = []
    for s, x in I.spread(st, a):
        for s2, y in I.spread(s, b):
            for s3, x1 in (I.spread_any(s2, x) if isinstance(x, T) and x.kind == 'any' else [(s2, x)]):
                for s4, y1 in (I.spread_any(s3, y) if isinstance(y, T) and y.kind == 'any' else [(s3, y)]):
                    out += binop1(I, s4, op, x1, y1, inplace)
    return I.merge_results(out)


def binop1(I, st, op, a, b, inplace):
    if a is POISON or b is POISON:
        raise NeedBounded('loop-carried value')
    o = type(op)
    if inplace and isinstance(a, Ref) and st.heap[a.id].kind == 'bytearray' and o is ast.Add:
        r = call_method(I, st, a, '__iadd__', [b], {}, None)
        return [(s, k, a if k == 'v' else v) for s, k, v in r]
    if inplace and isinstance(a, Ref) and st.heap[a.id].kind in ('list', 'set', 'dict', 'acc', 'symlist',
                                                                 'enumset'):
        if o is ast.Add:
            r = call_method(I, st, a, 'extend', [b], {}, None)
            return [(s, k, a if k == 'v' else v) for s, k, v in r]
        if o is ast.BitOr:
            r = call_method(I, st, a, 'update', [b], {}, None)
            return [(s, k, a if k == 'v' else v) for s, k, v in r]
        raise Unsupported('in-place operator')
    if not isinstance(a, Ref) and not isinstance(b, Ref):
        r = native(I, st, _BIN[o], [a, b])
        if r is not None:
            return r
    ka, kb = kind_of(a), kind_of(b)
    ia, ib = as_int(a), as_int(b)
    if ia is not None and ib is not None:
        if o is ast.Add:
            return ok(st, T('int', ia + ib))
        if o is ast.Sub:
            return ok(st, T('int', ia - ib))
        if o is ast.Mult:
            return ok(st, T('int', ia * ib))
        if o in (ast.Mod, ast.FloorDiv):
            if isinstance(b, int) and b > 0:
                return ok(st, T('int', ia % b if o is ast.Mod else ia / b))
            raise Unsupported('division')
        if o is ast.LShift and isinstance(b, int) and b >= 0:
            return ok(st, T('int', ia * (2 ** b)))
        if o is ast.RShift and isinstance(b, int) and b >= 0:
            return ok(st, T('int', ia / (2 ** b)))
        if o is ast.BitAnd:
            if isinstance(a, int) and not isinstance(b, int):
                a, b, ia, ib = b, a, ib, ia
            if ka == 'bool' and kb == 'bool':
                return ok(st, T('bool', And(term(a), term(b))))
            if isinstance(b, int) and b >= 0:       # floor division: also right for negative numbers
                parts, bit = [], 0
                while (1 << bit) <= b:
                    if b & (1 << bit):
                        parts.append(((ia / (1 << bit)) % 2) * (1 << bit))
                    bit += 1
                return ok(st, T('int', z3.Sum(parts) if len(parts) > 1 else (parts[0] if parts else tm.I(0))))
        if o is ast.BitOr:
            if ka == 'bool' and kb == 'bool':
                return ok(st, T('bool', Or(term(a), term(b))))
            # disjoint bits: a multiple of 2**n plus a number below 2**n
            for x, y in ((ia, ib), (ib, ia)):
                for n in (8, 16, 24):
                    if known(I, st, And(x % (1 << n) == 0, y >= 0, y < (1 << n), x >= 0)):
                        return ok(st, T('int', x + y))
        if ka == 'bool' and kb == 'bool' and o is ast.BitXor:
            return ok(st, T('bool', term(a) != term(b)))
        raise Unsupported('integer operator %s' % o.__name__)
    if o is ast.Add:
        if ka == kb == 'str':
            return ok(st, strcat(a, b))
        if ka == kb == 'bytes':
            if isinstance(a, bytes) and not a:
                return ok(st, b)
            if isinstance(b, bytes) and not b:
                return ok(st, a)
            return ok(st, T('bytes', z3.Concat(term(a), term(b))))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return ok(st, a + b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = st.heap[a.id], st.heap[b.id]
            if ha.kind == hb.kind == 'list':
                st, r = I.alloc(st, HObj('list', None, ha.data + hb.data))
                return ok(st, r)
            raise Unsupported('list concatenation')
        if ka in ('str', 'bytes', 'int', 'bool') and (kb in ('str', 'bytes', 'int', 'bool') or b is None) or \
                a is None and kb:
            return err(st, TypeError, 'unsupported operand')
    if o is ast.Mod and ka in ('str', 'bytes'):
        vals = list(b) if isinstance(b, tuple) else [b]
        parts = percent_parts(a, vals) if isinstance(a, (str, bytes)) else None
        if ka == 'bytes' and parts is not None and all(kind_of(x) == 'bytes' for x, _ in parts):
            pieces = [term(x) for x, _ in parts]
            return ok(st, T('bytes', z3.Concat(*pieces) if len(pieces) > 1 else pieces[0]) if pieces else b'')
        if ka == 'str':
            return message(I, st, vals) if parts is None else compose(I, st, parts)
    if o is ast.Mult and (ka, kb) in (('str', 'int'), ('bytes', 'int'), ('int', 'str'), ('int', 'bytes')):
        if ka == 'int':
            a, b = b, a
        if isinstance(a, (str, bytes)) and len(a) == 1 and isinstance(b, T):
            # repeated single character of small symbolic count
            out = []
            for n in range(5):
                g = b.t == n if n else b.t <= 0
                if I.feasible(st, g):
                    out += ok(st.assume(g), a * n)
            if I.feasible(st, b.t > 4):
                raise Unsupported('repetition')
            return out
        raise Unsupported('repetition')
    if o in (ast.Sub, ast.BitAnd, ast.BitOr) and (setlike(st, a) or setlike(st, b)):
        if not (setlike(st, a) and setlike(st, b)):
            return err(st, TypeError, 'unsupported operand')
        return set_op(I, st, {ast.Sub: 'difference', ast.BitAnd: 'intersection', ast.BitOr: 'union'}[o], a, b)
    if o is ast.BitOr and isinstance(a, Ref) and isinstance(b, Ref):
        da, db = I.concrete_dict(st, a), I.concrete_dict(st, b)
        d = dict(da)
        I.overlay(d, db)
        st, r = I.alloc(st, HObj('dict', None, d))
        return ok(st, r)
    if a is None or b is None:
        return err(st, TypeError, 'unsupported operand')
    raise Unsupported('operator %s on %r, %r' % (o.__name__, a, b))


def setlike(st, v):
    return isinstance(v, (set, frozenset)) or isinstance(v, Tag) and v.name == 'dkeys' or \
        isinstance(v, Ref) and st.heap[v.id].kind in ('set', 'enumset')


def set_op(I, st, name, a, b):
    ea, eb = I.as_set(st, a), I.as_set(st, b)
    if name == 'difference':
        data = (('diff', ea, eb),)
    elif name == 'intersection':
        data = (('and', ea, eb),)
    else:
        data = ea + eb
    st, r = I.alloc(st, HObj('set', None, data))
    return ok(st, r)


def subset(I, st, a, b):
    """a <= b for set entries."""
    return Not(asb(I.set_nonempty(st, (('diff', a, b),))))


_CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def compare(I, st, op, l, r):
    o = type(op)
    if l is POISON or r is POISON:
        raise NeedBounded('loop-carried value')
    if o in (ast.Eq, ast.NotEq):
        c = I.eq(st, l, r)
        return ok(st, c if o is ast.Eq else (not c if isinstance(c, bool) else Not(c)))
    if o in (ast.Is, ast.IsNot):
        c = identical(I, st, l, r)
        return ok(st, c if o is ast.Is else (not c if isinstance(c, bool) else Not(c)))
    if o in (ast.In, ast.NotIn):
        out = []
        for s, k, c in contains(I, st, r, l):
            if k == 'v' and o is ast.NotIn:
                c = not c if isinstance(c, bool) else Not(c)
            out.append((s, k, c))
        return out
    out = []
    for s, x in I.spread(st, l):
        for s2, y in I.spread(s, r):
            for s3, x1 in (I.spread_any(s2, x) if isinstance(x, T) and x.kind == 'any' else [(s2, x)]):
                for s4, y1 in (I.spread_any(s3, y) if isinstance(y, T) and y.kind == 'any' else [(s3, y)]):
                    out += order(I, s4, o, x1, y1)
    return out


def order(I, st, o, a, b):
    ia, ib = as_int(a), as_int(b)
    if ia is not None and ib is not None:
        c = _CMP[o](a, b) if isinstance(a, int) and isinstance(b, int) else _CMP[o](ia, ib)
        return ok(st, c)
    if kind_of(a) == 'opq' or kind_of(b) == 'opq':
        ia = tm.asn_int(a.t) if kind_of(a) == 'opq' else ia
        ib = tm.asn_int(b.t) if kind_of(b) == 'opq' else ib
        if ia is not None and ib is not None:
            return ok(st, _CMP[o](ia, ib))
        raise Unsupported('ordering of opaque values')
    if setlike(st, a) and setlike(st, b):
        ea, eb = I.as_set(st, a), I.as_set(st, b)
        if o is ast.LtE:
            return ok(st, subset(I, st, ea, eb))
        if o is ast.GtE:
            return ok(st, subset(I, st, eb, ea))
        raise Unsupported('set ordering')
    r = native(I, st, _CMP[o], [a, b])
    if r is not None:
        return r
    ka, kb = kind_of(a), kind_of(b)
    if a is None or b is None or ka != kb and ka and kb and 'any' not in (ka, kb):
        return err(st, TypeError, 'not ordered')
    if ka == kb == 'str':
        ta, tb = term(a), term(b)
        return ok(st, {ast.Lt: ta < tb, ast.LtE: ta <= tb, ast.Gt: tb < ta, ast.GtE: tb <= ta}[o])
    raise Unsupported('ordering of %r, %r' % (a, b))


def identical(I, st, a, b):
    if isinstance(a, U):
        return Or(*[And(g, asb(identical(I, st, x, b))) for g, x in a.alts])
    if isinstance(b, U):
        return Or(*[And(g, asb(identical(I, st, a, x))) for g, x in b.alts])
    if a is POISON or b is POISON:
        raise NeedBounded('loop-carried value')
    if a is None or b is None:
        return I.is_none(b if a is None else a)
    if isinstance(a, bool) or isinstance(b, bool):
        k, x = (a, b) if isinstance(a, bool) else (b, a)
        if isinstance(x, bool):
            return x is k
        if kind_of(x) == 'bool':
            return x.t if k else Not(x.t)
        if kind_of(x) == 'any':
            return And(V.is_vbool(x.t), V.ub(x.t) if k else Not(V.ub(x.t)))
        return False
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        return I.type_is(a, b) if isinstance(a, TypeOf) else I.type_is(b, a)
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'enum' or kb == 'enum':
        return I.eq(st, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if ka in ('int', 'str', 'bytes', 'any', 'opq', 'bool') and ka == kb or 'any' in (ka, kb):
        if isinstance(a, T) and isinstance(b, T) and a.t.eq(b.t):
            return True
        raise Unsupported('identity of scalars')
    if isinstance(a, (SObj, NTup)) and isinstance(b, (SObj, NTup)) and a is not b:
        raise Unsupported('identity of structured values')
    return a is b


def contains(I, st, c, x):
    """x in c -> results with conditions"""
    out = []
    for s, cc in I.spread(st, c):
        out += contains1(I, s, cc, x)
    return out


def contains1(I, st, c, x):
    if isinstance(c, U):
        raise Unsupported('internal')
    if isinstance(c, (set, frozenset, dict)) or isinstance(c, Ref) and \
            st.heap[c.id].kind in ('set', 'enumset', 'dict') or isinstance(c, Tag) and c.name == 'dkeys':
        out = []
        for s0, xx in I.spread(st, x):
            good, bad = hash_check(I, s0, xx)
            out += bad
            for s in good:
                if isinstance(c, Tag) and not isinstance(c.args[0], Ref):
                    out += ok(s, dict_has(I, s, c.args[0], xx))
                else:
                    out += ok(s, I.set_member(s, I.as_set(s, c), xx))
        return out
    if isinstance(c, (tuple, list, NTup)):
        vals = c.vals if isinstance(c, NTup) else c
        return ok(st, Or(*[asb(I.eq(st, x, y)) for y in vals]))
    if isinstance(c, Ref):
        h = st.heap[c.id]
        if h.kind == 'list':
            return ok(st, Or(*[asb(I.eq(st, x, y)) for y in h.data]))
        if h.kind in ('symlist', 'filtlist'):
            return ok(st, I.set_member(st, I.as_set(st, c), x))
        if h.kind == 'acc':
            raise NeedBounded('accumulator read in loop')
        if h.kind == 'obj' and not hasattr(h.cls, '__contains__') and not hasattr(h.cls, '__iter__'):
            return err(st, TypeError, 'not iterable')
    if isinstance(c, Tag) and c.name == 'dvalues' and isinstance(c.args[0], Ref):
        return contains1(I, st, tuple(v for v in st.heap[c.args[0].id].data.values()), x)
    if isinstance(c, Tag) and c.name == 'gen':
        raise Unsupported('membership in a generator')
    if isinstance(c, Tag):
        r = I.iterate1(st, c)
        if len(r) == 1 and r[0][1] == 'v' and r[0][2][0] == 'conc':
            return ok(r[0][0], Or(*[asb(I.eq(st, x, y)) for y in r[0][2][1]]))
        raise Unsupported('membership in %s' % c.name)
    if isinstance(c, enum.EnumMeta):
        if kind_of(x) == 'enum':
            return ok(st, Or(*[asb(I.eq(st, x, m)) for m in c]))
        return ok(st, Or(*[asb(I.eq(st, x, m.value)) for m in c]))
    if isinstance(c, T) and c.kind == 'any':
        t = c.t
        out = []
        for s, y in I.spread_any(st, c):
            if not (isinstance(y, T) and y.kind == 'any'):
                if y is None or kind_of(y) in ('int', 'bool'):
                    out += err(s, TypeError, 'not iterable')
                else:
                    out += contains1(I, s, y, x)
                continue
            if I.feasible(s, V.is_vdict(t)):
                s1 = s.assume(V.is_vdict(t))
                for s0, xx in I.spread(s1, x):
                    good, bad = hash_check(I, s0, xx)
                    out += bad
                    for s2 in good:
                        out += ok(s2, dict_has(I, s2, y, xx))
            seq = Or(V.is_vlist(t), V.is_vtuple(t))
            if I.feasible(s, seq):
                j = tm.fresh(tm.Int, 'j')
                c2 = z3.Exists([j], And(j >= 0, j < tm.llen(t), asb(I.eq(s, T('any', tm.lat(t, j)), x))))
                out += ok(s.assume(seq), c2)
            rest = Or(V.is_vflt(t), V.is_vother(t))
            if I.feasible(s, rest):
                out += err(s.assume(rest), TypeError, 'not iterable')
        return out
    kc = kind_of(c)
    if kc == 'str':
        good, bad = I.split_kind(st, x, 'str')
        out = []
        for s, y in good:
            if isinstance(c, str) and isinstance(y, str):
                out += ok(s, y in c)
            else:
                out += ok(s, z3.Contains(term(c), term(y)))
        for s, y in bad:
            out += err(s, TypeError, 'in <string>')
        return out
    if kc == 'bytes':
        if kind_of(x) == 'bytes':
            return ok(st, z3.Contains(term(c), term(x)))
        if kind_of(x) == 'int':
            return ok(st, z3.Contains(term(c), z3.Unit(term(x))))
        raise Unsupported('membership in bytes')
    if c is None or kc in ('int', 'bool'):
        return err(st, TypeError, 'not iterable')
    raise Unsupported('membership in %r' % (c,))


def dict_has(I, st, d, x):
    """x in (decoded dictionary T)"""
    if isinstance(x, T) and x.kind == 'any':
        return tm.dhas(d.t, dkey_norm(x.t))
    if x is None or is_scalar(x) or isinstance(x, T) and x.kind in ('int', 'str', 'bytes', 'bool'):
        if isinstance(x, float):
            raise Unsupported('float key')
        if kind_of(x) == 'bool' and isinstance(x, T):
            return tm.dhas(d.t, V.vint(as_int(x)))
        return tm.dhas(d.t, I.key_term(x))
    return False


def dkey_norm(key):
    """Dictionary lookup identifies True with 1 and 1.0 with 1."""
    return z3.If(V.is_vbool(key), V.vint(z3.If(V.ub(key), tm.I(1), tm.I(0))),
                 z3.If(And(V.is_vflt(key), tm.flt_isint(V.uf(key))), V.vint(tm.flt_int(V.uf(key))), key))


# ------------------------------------------------------------------ methods
def call_method(I, st, recv, name, args, kw, fid):
    out = []
    for s, r in I.spread(st, recv):
        out += method1(I, s, r, name, list(args), dict(kw), fid)
    return I.merge_results(out)


def method1(I, st, r, name, args, kw, fid):
    from . import libs
    if name in ('__getitem__', '__contains__') and len(args) == 1 and not kw and (
            isinstance(r, (dict, tuple, list, str, bytes)) or isinstance(r, Ref) and st.heap[r.id].kind != 'obj' or
            isinstance(r, T) and r.kind == 'any' and known(I, st, V.is_vdict(r.t))):
        return getitem(I, st, r, args[0]) if name == '__getitem__' else contains(I, st, r, args[0])
    if isinstance(r, Ref):
        return heap_method(I, st, r, name, args, kw, fid)
    if isinstance(r, Tag):
        I.used_models.add('%s.%s' % (r.name, name))
        return libs.tag_method(I, st, r, name, args, kw, fid)
    if isinstance(r, T) and r.kind == 'opq':
        I.used_models.add('%s.%s' % (r.cls, name))
        return libs.opq_method(I, st, r, name, args, kw, fid)
    if isinstance(r, T) and r.kind == 'any':
        return any_method(I, st, r, name, args, kw, fid)
    if isinstance(r, dict):
        if name == 'get':
            d = args[1] if len(args) > 1 else None
            out = []
            for s, k, v in getitem(I, st, r, args[0]):
                out += ok(s, d) if k == 'x' and v.cls is KeyError else [(s, k, v)]
            return I.merge_results(out)
        if name in ('keys', 'values', 'items') and not args:
            return ok(st, Tag('d' + name, r))
        if name in ('update', 'setdefault', 'pop', 'clear', 'popitem'):
            raise FrameBroken('write to a module-level container')
        if name == 'copy':
            st, x = I.alloc(st, HObj('dict', None, dict(r)))
            return ok(st, x)
    if isinstance(r, (list, set)) and name in ('append', 'add', 'extend', 'insert', 'pop', 'remove', 'update',
                                               'clear', 'sort', 'discard'):
        raise FrameBroken('write to a module-level container')
    if isinstance(r, (set, frozenset)) and name in ('difference', 'union', 'intersection', 'issubset',
                                                    'issuperset', 'isdisjoint', 'copy'):
        st, x = I.alloc(st, HObj('set', None, tuple(('e', True, y) for y in r)))
        return heap_method(I, st, x, name, args, kw, fid)
    k = kind_of(r)
    if k == 'str':
        return str_method(I, st, r, name, args, kw)
    if k == 'bytes':
        return bytes_method(I, st, r, name, args, kw)
    if isinstance(r, (tuple, list, float, int, bool)) and not isinstance(r, enum.Enum):
        x = native(I, st, getattr(type(r), name), [r] + args, kw)
        if x is not None:
            return x
        if isinstance(r, (tuple, list)) and name == 'count':
            return ok(st, T('int', z3.Sum([z3.If(asb(I.eq(st, y, args[0])), tm.I(1), tm.I(0)) for y in r])))
    if k == 'int' and name == 'to_bytes':
        return libs.int_to_bytes(I, st, r, args, kw)
    if isinstance(r, NTup):
        if name == '_asdict':
            st, x = I.alloc(st, HObj('dict', None, dict(zip(r.cls._fields, r.vals))))
            return ok(st, x)
        if name == '_replace' and not args:
            fs = r.cls._fields
            if any(n not in fs for n in kw):
                return err(st, ValueError, 'field names')
            return ok(st, NTup(r.cls, [kw.get(n, v) for n, v in zip(fs, r.vals)]))
    if isinstance(r, ExcV):
        return ok(st, r)
    if type(r).__module__ == 'logging':
        return ok(st, None)
    if isinstance(r, (SObj, Closure, Bound)):
        raise Unsupported('method %s' % name)
    m = getattr(r, name, None)
    try:
        mod = I.models.get(m)
    except TypeError:
        mod = None
    if mod is not None:
        I.used_models.add('%s.%s' % (type(r).__name__, name))
        return mod(I, st, args, kw, fid)
    x = native(I, st, m, args, kw) if libs.pure_receiver(r) else None
    if x is not None:
        return x
    raise Unsupported('method %s of %r' % (name, type(r).__name__))


def seq_method(I, st, r, name, args, kw, k):
    """Methods that text and byte strings have in common."""
    t = term(r)
    z = tm.I(0)
    one = len(args) >= 1 and kind_of(args[0]) == k and not kw
    if name in ('startswith', 'endswith') and len(args) == 1 and not kw:
        f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        if kind_of(args[0]) == k:
            return ok(st, T('bool', f(term(args[0]), t)))
        if isinstance(args[0], tuple) and all(kind_of(x) == k for x in args[0]):
            return ok(st, T('bool', Or(*[f(term(x), t) for x in args[0]])))
        if args[0] is None or is_scalar(args[0]):
            return err(st, TypeError, name)
    if name in ('removeprefix', 'removesuffix') and one and len(args) == 1:
        u = term(args[0])
        n = z3.Length(u)
        if name == 'removeprefix':
            return ok(st, T(k, z3.If(z3.PrefixOf(u, t), z3.Extract(t, n, z3.Length(t) - n), t)))
        return ok(st, T(k, z3.If(z3.SuffixOf(u, t), z3.Extract(t, z, z3.Length(t) - n), t)))
    if name in ('find', 'index', 'rfind', 'rindex') and one and len(args) == 1:
        u = term(args[0])
        at = z3.IndexOf(t, u, 0) if name in ('find', 'index') else z3.LastIndexOf(t, u)
        if name in ('find', 'rfind'):
            return ok(st, T('int', at))
        out = []
        for s, b in I.branch(st, z3.Contains(t, u)):
            out += ok(s, T('int', at)) if b else err(s, ValueError, 'substring not found')
        return out
    if name in ('partition', 'rpartition') and one and len(args) == 1:
        u = term(args[0])
        n = z3.Length(u)
        if not known(I, st, n > 0):
            raise Unsupported('%s.%s' % (k, name))
        at = z3.IndexOf(t, u, 0) if name == 'partition' else z3.LastIndexOf(t, u)
        e = {'str': '', 'bytes': b''}[k]
        out = []
        for s, b in I.branch(st, z3.Contains(t, u)):
            if b:
                out += ok(s, (T(k, z3.Extract(t, z, at)), args[0], T(k, z3.Extract(
                    t, at + n, z3.Length(t) - at - n))))
            else:
                out += ok(s, (r, e, e) if name == 'partition' else (e, e, r))
        return out
    if name in ('split', 'rsplit') and one and (len(args) == 1 or args[1] == 1 or args[1] == -1):
        u = term(args[0])
        n = z3.Length(u)
        if not known(I, st, n > 0):
            raise Unsupported('%s.%s' % (k, name))
        if len(args) == 2 and args[1] == 1:
            at = z3.IndexOf(t, u, 0) if name == 'split' else z3.LastIndexOf(t, u)
            out = []
            for s, b in I.branch(st, z3.Contains(t, u)):
                parts = (T(k, z3.Extract(t, z, at)), T(k, z3.Extract(t, at + n, z3.Length(t) - at - n))) if b else (r,)
                s, x = I.alloc(s, HObj('list', None, parts))
                out += ok(s, x)
            return out
        srt = t.sort()
        cnt = tm.uf(APPROXIMATE + 'pieces_' + k, srt, srt, tm.Int)(t, u)
        piece = tm.uf(APPROXIMATE + 'piece_' + k, srt, srt, tm.Int, srt)
        kk = tm.fresh(tm.Int, 'k')
        has = z3.Contains(t, u)
        st = st.assume(cnt >= 1, (cnt == 1) == Not(has),
                       piece(t, u, z) == z3.If(has, z3.Extract(t, z, z3.IndexOf(t, u, 0)), t))
        st, x = I.alloc(st, HObj('symlist', None, (cnt, kk, T(k, piece(t, u, kk)))))
        return ok(st, x)
    if name in ('isdigit', 'isalpha', 'isascii', 'isnumeric', 'isdecimal', 'isalnum', 'islower', 'isupper', 'isspace',
                'isprintable', 'isidentifier', 'istitle') and not args and hasattr({'str': str, 'bytes': bytes}[k], name):
        p = tm.uf(APPROXIMATE + '%s_%s' % (k, name), t.sort(), tm.Bool)(t)
        e = name in ('isascii', 'isprintable')
        return ok(st.assume(Implies(z3.Length(t) == 0, p if e else Not(p))), T('bool', p))
    if name == 'count' and one and len(args) == 1:
        c = tm.uf(APPROXIMATE + 'count_' + k, t.sort(), t.sort(), tm.Int)(t, term(args[0]))
        return ok(st.assume(c >= 0, (c == 0) == Not(z3.Contains(t, term(args[0])))), T('int', c))
    if name == 'replace' and one and len(args) == 2 and kind_of(args[1]) == k:
        f = tm.uf(APPROXIMATE + 'replace_' + k, t.sort(), t.sort(), t.sort(), t.sort())(t, term(args[0]), term(args[1]))
        return ok(st.assume(Implies(Not(z3.Contains(t, term(args[0]))), f == t)), T(k, f))
    if name in ('zfill', 'ljust', 'rjust', 'center', 'translate', 'expandtabs', 'swapcase', 'capitalize') and not kw and \
            all(is_scalar(a) and not isinstance(a, T) for a in args):
        f = tm.uf(APPROXIMATE + '%s_%s_%r' % (k, name, args), t.sort(), t.sort())(t)
        if name in ('zfill', 'ljust', 'rjust') and args and type(args[0]) is int:
            n, w = z3.Length(t), tm.I(args[0])
            st = st.assume(Implies(n >= w, f == t), Implies(n < w, z3.Length(f) == w))
            if name != 'zfill':
                st = st.assume((z3.SuffixOf if name == 'rjust' else z3.PrefixOf)(t, f))
        return ok(st, T(k, f))
    if name in ('strip', 'rstrip', 'lstrip') and not kw and all(isinstance(a, str if k == 'str' else bytes) for a in args):
        cs = list(args[0]) if args else [] if k == 'str' else b' \t\n\r\x0b\f'
        cs = [term(c if k == 'str' else bytes([c])) for c in cs]
        f = '%s_%s' % (k, '_'.join([name] + [a if k == 'str' else a.decode('latin-1') for a in args]))
        f = f if f.endswith('rstrip_=') else APPROXIMATE + f
        if t.decl().name() == f:
            return ok(st, r)
        f = tm.uf(f, t.sort(), t.sort())(t)
        if not cs:
            return ok(st.assume(z3.Contains(t, f)), T(k, f))
        left = And(*[Not(z3.PrefixOf(c, t)) for c in cs]) if name != 'rstrip' else tm.TRUE
        right = And(*[Not(z3.SuffixOf(c, t)) for c in cs]) if name != 'lstrip' else tm.TRUE
        st = st.assume(Implies(And(left, right), f == t),
                       {'strip': z3.Contains(t, f), 'lstrip': z3.SuffixOf(f, t), 'rstrip': z3.PrefixOf(f, t)}[name])
        for c in cs:
            if name != 'rstrip':
                st = st.assume(Not(z3.PrefixOf(c, f)))
            if name != 'lstrip':
                st = st.assume(Not(z3.SuffixOf(c, f)))
        return ok(st, T(k, f))
    return None


# functions of texts of which only some facts are known: a refutation that mentions one does not stand alone
APPROXIMATE = 'approx!'


def str_method(I, st, r, name, args, kw):
    from . import libs
    x = None
    if name != 'format':
        x = native(I, st, getattr(str, name), [r] + args, kw)
    if x is not None:
        return x
    if name == 'format':
        x = native(I, st, str.format, [r] + args, kw)
        if x is not None and not any(isinstance(a, Ref) for a in args):
            return x
        parts = format_parts(r, args, kw) if isinstance(r, str) else None
        return message(I, st, args + list(kw.values())) if parts is None else compose(I, st, parts)
    if name == 'encode':
        return libs.encode(I, st, r, args, kw)
    x = seq_method(I, st, r, name, args, kw, 'str')
    if x is not None:
        return x
    if name in ('lower', 'upper', 'casefold', 'title') and not kw and not args:
        return ok(st, T('str', tm.uf('str_' + name, tm.Str, tm.Str)(term(r))))
    if name == 'join' and len(args) == 1:
        its = I.iterate(st, args[0]) if not (isinstance(args[0], Tag) and args[0].name == 'gen') else None
        if its and len(its) == 1 and its[0][1] == 'v' and its[0][2][0] == 'conc':
            items = its[0][2][1]
            if all(kind_of(i) == 'str' for i in items):
                out = ''
                for n, i in enumerate(items):
                    out = strcat(strcat(out, r) if n else out, i)
                return ok(its[0][0], out)
    raise Unsupported('str.%s' % name)


def bytes_method(I, st, r, name, args, kw):
    from . import libs
    x = native(I, st, getattr(bytes, name), [r] + args, kw)
    if x is not None:
        return x
    if name == 'decode':
        return libs.decode(I, st, r, args, kw)
    x = seq_method(I, st, r, name, args, kw, 'bytes')
    if x is not None:
        return x
    if name in ('lower', 'upper') and not kw and not args:
        return ok(st, T('bytes', tm.uf('bytes_' + name, tm.Bytes, tm.Bytes)(term(r))))
    if name == 'hex' and not args:
        return ok(st, T('str', tm.uf('hex', tm.Bytes, tm.Str)(term(r))))
    if name == 'join' and len(args) == 1:
        its = I.iterate(st, args[0]) if not (isinstance(args[0], Tag) and args[0].name == 'gen') else None
        if its and len(its) == 1 and its[0][1] == 'v' and its[0][2][0] == 'conc':
            items = its[0][2][1]
            if all(kind_of(i) == 'bytes' for i in items) and isinstance(r, bytes):
                parts = []
                for n, i in enumerate(items):
                    if n and r:
                        parts.append(r)
                    parts.append(i)
                parts = [p for p in parts if not (isinstance(p, bytes) and not p)]
                if not parts:
                    return ok(its[0][0], b'')
                if len(parts) == 1:
                    return ok(its[0][0], parts[0])
                return ok(its[0][0], T('bytes', z3.Concat(*[term(p) for p in parts])))
            if any(i is None or kind_of(i) in ('int', 'str', 'bool') for i in items):
                return err(its[0][0], TypeError, 'join')
    raise Unsupported('bytes.%s' % name)


def any_method(I, st, r, name, args, kw, fid):
    t = r.t
    out = []
    for s, y in I.spread_any(st, r):
        if not (isinstance(y, T) and y.kind == 'any'):
            if y is None or not hasattr({'str': str, 'bytes': bytes, 'int': int, 'bool': bool}.get(
                    kind_of(y), object), name):
                out += err(s, AttributeError, name)
            else:
                out += method1(I, s, y, name, args, kw, fid)
            continue
        for p, ty in ((V.is_vdict(t), dict), (V.is_vlist(t), list), (V.is_vtuple(t), tuple),
                      (V.is_vflt(t), float), (V.is_vother(t), None)):
            if not I.feasible(s, p):
                continue
            s1 = s.assume(p)
            if ty is None:
                out += err(s1, AttributeError, name)
            elif not hasattr(ty, name):
                out += err(s1, AttributeError, name)
            elif ty is dict:
                out += anydict_method(I, s1, r, name, args, kw)
            elif name == 'copy' and ty is list:
                out += ok(s1, r)
            elif name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
                raise input_write(I, st, r)
            else:
                raise Unsupported('%s.%s' % (ty.__name__, name))
    return out


LIST_WRITES = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse')


def input_write(I, st, x):
    """The refusal for an in-place change of a container whose later content is not modelled."""
    what = 'write to an input container'
    if isinstance(x, Ref):
        return (FrameBroken if st.heap[x.id].pre else Unsupported)(what)
    todo = [x.t]
    while todo:
        t = todo.pop()
        if t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(t.decl()) in I.input_names:
                return FrameBroken(what)
        elif t.decl().kind() == z3.Z3_OP_ITE:
            todo += [t.arg(1), t.arg(2)]
        elif t.decl().name() in ('dget', 'lat', 'uy', 'vdict', 'vlist'):
            todo.append(t.arg(0))
    return Unsupported('write to a decoded container')


def anydict_method(I, st, r, name, args, kw):
    t = r.t
    if name in ('keys', 'values', 'items') and not args:
        return ok(st, Tag('d' + name, r))
    if name == 'copy':
        return ok(st, r)
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default')
        out = []
        for s0, k in I.spread(st, args[0]):
            good, bad = hash_check(I, s0, k)
            out += bad
            for s in good:
                if isinstance(k, T) and k.kind == 'any':
                    kt = dkey_norm(k.t)
                elif isinstance(k, (Ref, SObj, NTup, tuple, enum.Enum)) or kind_of(k) == 'enum':
                    out += ok(s, d)
                    continue
                else:
                    kt = I.key_term(k) if not (isinstance(k, T) and k.kind == 'bool') else V.vint(as_int(k))
                has = tm.dhas(t, kt)
                if d is None or is_scalar(d) and not isinstance(d, float) or isinstance(d, T) and \
                        d.kind in ('any', 'int', 'str', 'bytes', 'bool'):
                    if known(I, s, has):
                        out += ok(s, sub_any(r, tm.dget(t, kt)))
                    else:
                        out += ok(s, sub_any(r, z3.If(has, tm.dget(t, kt), lift(d))))
                else:
                    for s2, b in I.branch(s, has):
                        out += ok(s2, sub_any(r, tm.dget(t, kt)) if b else d)
        return out
    if name in ('pop', 'update', 'setdefault', 'clear', 'popitem'):
        raise input_write(I, st, r)
    raise Unsupported('dict.%s' % name)


def heap_method(I, st, r, name, args, kw, fid):
    from . import libs
    h = st.heap[r.id]
    writing = name in ('append', 'extend', 'add', 'update', 'insert', 'pop', 'remove', 'discard', 'clear', 'sort',
                       'reverse', 'setdefault', 'popitem')
    if h.pre and writing and h.kind in ('list', 'dict', 'set', 'symlist', 'enumset'):
        st = st.event('write', '%s of an input container' % name)
    if h.kind == 'acc':
        if name == 'append' and h.cls is list or name == 'add' and h.cls is set:
            if h.cls is set:
                good, bad = hash_check(I, st, args[0])
                return bad + [x for s in good for x in ok(
                    s.put(r, h.with_(h.data + ((tm.TRUE, args[0]),))), None)]
            return ok(st.put(r, h.with_(h.data + ((tm.TRUE, args[0]),))), None)
        raise NeedBounded('accumulator read in loop')
    if h.kind == 'list':
        d = h.data
        if name == 'append':
            return ok(st.put(r, h.with_(d + (args[0],))), None)
        if name == 'extend':
            out = []
            for s, k, it in I.iterate(st, args[0]):
                if k != 'v':
                    out.append((s, k, it))
                elif it[0] == 'conc':
                    out += ok(s.put(r, h.with_(d + tuple(it[1]))), None)
                elif not d and it[0] == 'sym':
                    kk = tm.fresh(tm.Int, 'k')
                    out += ok(s.put(r, HObj('symlist', None, (it[1], kk, it[2](kk)), h.pre)), None)
                else:
                    raise Unsupported('extend')
            return out
        if name == 'copy':
            st, x = I.alloc(st, HObj('list', None, d))
            return ok(st, x)
        if name == 'pop' and all(isinstance(a, int) for a in args):
            i = args[0] if args else -1
            if not -len(d) <= i < len(d):
                return err(st, IndexError, 'pop')
            l = list(d)
            v = l.pop(i)
            return ok(st.put(r, h.with_(tuple(l))), v)
        if name == 'insert' and isinstance(args[0], int):
            l = list(d)
            l.insert(args[0], args[1])
            return ok(st.put(r, h.with_(tuple(l))), None)
        if name == 'reverse':
            return ok(st.put(r, h.with_(tuple(reversed(d)))), None)
        if name == 'count':
            return ok(st, T('int', z3.Sum([tm.I(0)] + [z3.If(asb(I.eq(st, y, args[0])), tm.I(1), tm.I(0))
                                                       for y in d])))
        raise Unsupported('list.%s' % name)
    if h.kind == 'symlist':
        if name == 'copy':
            st, x = I.alloc(st, HObj('symlist', h.cls, h.data))
            return ok(st, x)
        if name in LIST_WRITES:
            raise input_write(I, st, r)
        raise Unsupported('list.%s' % name)
    if h.kind in ('set', 'enumset'):
        if name == 'add':
            if h.kind == 'enumset':
                raise input_write(I, st, r)
            good, bad = hash_check(I, st, args[0])
            return bad + [x for s in good for x in ok(s.put(r, h.with_(h.data + (('e', True, args[0]),))), None)]
        if name in ('difference', 'intersection', 'union'):
            cur, s = r, st
            if not args:
                s, x = I.alloc(s, HObj('set', None, I.as_set(s, r)))
                return ok(s, x)
            for a in args:
                s, a = setify(I, s, a)
                (s, _, cur), = set_op(I, s, name, cur, a)
            return ok(s, cur)
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            st, a = setify(I, st, args[0])
            ea, eb = I.as_set(st, r), I.as_set(st, a)
            if name == 'issubset':
                return ok(st, I.mkbool(subset(I, st, ea, eb)))
            if name == 'issuperset':
                return ok(st, I.mkbool(subset(I, st, eb, ea)))
            return ok(st, I.mkbool(Not(asb(I.set_nonempty(st, (('and', ea, eb),))))))
        if name == 'update' and h.kind == 'set':
            for a in args:
                st, a = setify(I, st, a)
                st = st.put(r, st.heap[r.id].with_(st.heap[r.id].data + I.as_set(st, a)))
            return ok(st, None)
        if name in ('discard', 'remove') and h.kind == 'set':
            e = (('diff', h.data, (('e', True, args[0]),)),)
            if name == 'discard':
                return ok(st.put(r, h.with_(e)), None)
            out = []
            for s, b in I.branch(st, I.set_member(st, h.data, args[0])):
                out += ok(s.put(r, h.with_(e)), None) if b else err(s, KeyError, 'remove')
            return out
        if name == 'copy':
            st, x = I.alloc(st, HObj('set', None, I.as_set(st, r)))
            return ok(st, x)
        raise Unsupported('set.%s' % name)
    if h.kind == 'dict':
        if name in ('keys', 'values', 'items') and not args:
            return ok(st, Tag('d' + name, r))
        if name == 'get':
            d = args[1] if len(args) > 1 else None
            out = []
            for s, k, v in getitem(I, st, r, args[0]):
                out += ok(s, d) if k == 'x' and v.cls is KeyError else [(s, k, v)]
            return I.merge_results(out)
        if name == 'copy':
            st, x = I.alloc(st, HObj('dict', None, dict(h.data)))
            return ok(st, x)
        if name == 'update':
            d = dict(h.data)
            for a in args:
                src = I.concrete_dict(st, a)
                I.overlay(d, src)
            d.update(kw)
            return ok(st.put(r, h.with_(d)), None)
        if name == 'setdefault':
            k = I.dict_key(args[0])
            d = args[1] if len(args) > 1 else None
            cur = h.data.get(k, UNBOUND)
            if cur is UNBOUND:
                nd = dict(h.data)
                nd[k] = d
                return ok(st.put(r, h.with_(nd)), d)
            if I.is_absent(cur) is False:
                return ok(st, cur)
        if name == 'pop':
            k = I.dict_key(args[0])
            out = []
            for s, kk, v in I.bound(st, h.data.get(k, UNBOUND), k, KeyError):
                if kk == 'x' and len(args) > 1:
                    out += ok(s, args[1])
                elif kk == 'x':
                    out.append((s, kk, v))
                else:
                    nd = dict(s.heap[r.id].data)
                    nd[k] = UNBOUND
                    out += ok(s.put(r, h.with_(nd)), v)
            return out
        raise Unsupported('dict.%s' % name)
    if h.kind == 'bytearray':
        return libs.bytearray_method(I, st, r, name, args)
    if h.kind == 'bytesio':
        return libs.bytesio_method(I, st, r, name, args, kw)
    if h.kind == 'hash':
        return libs.hash_method(I, st, r, name, args, kw)
    if h.kind == 'obj':
        raise Unsupported('method %s' % name)
    raise Unsupported('method %s of %s' % (name, h.kind))


def setify(I, st, a):
    if setlike(st, a) or isinstance(a, (list, tuple, dict)) or isinstance(a, Ref):
        return st, a
    if isinstance(a, T) and a.kind == 'any' and known(I, st, V.is_vdict(a.t)):
        return st, a
    raise Unsupported('set of %r' % (a,))
