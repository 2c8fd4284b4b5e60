"""Specification values: what a contract says an argument or a result is.

A node can be *built* into an engine value (inputs, results of summarised calls), *matched* against an engine value
(postconditions) and *viewed* from one (arguments at call sites)."""
import enum
import z3
from . import terms as tm
from .terms import And, Or, Not, Implies, asb, V
from .values import *


class Node:
    def build(self, I, st):
        raise NotImplementedError

    def match(self, I, st, v, lab='result'):
        raise NotImplementedError


class Sc(Node):
    """A scalar of the given kind."""
    def __init__(self, kind, t, cls=None):
        self.kind, self.t, self.cls = kind, t, cls

    def build(self, I, st):
        return st, T(self.kind, self.t, self.cls)

    def match1(self, I, st, v):
        if isinstance(v, T) and v.kind == 'any':
            k = self.kind
            f = {'bool': (V.is_vbool, V.ub), 'int': (V.is_vint, V.ui), 'str': (V.is_vstr, V.us),
                 'bytes': (V.is_vbytes, V.uy)}.get(k)
            if f is None:
                return tm.FALSE
            return And(f[0](v.t), f[1](v.t) == self.t)
        if kind_of(v) == self.kind:
            return term(v) == self.t
        return tm.FALSE


class Enm(Sc):
    def __init__(self, t, cls):
        Sc.__init__(self, 'enum', t, cls if isinstance(cls, tuple) else (cls,))


class Any_(Node):
    """A decoded JSON / CBOR value (V term)."""
    def __init__(self, t, cls=None):
        self.t, self.cls = t, cls

    def build(self, I, st):
        return st, T('any', self.t, self.cls)

    def match1(self, I, st, v):
        if isinstance(v, T) and v.kind in ('any', 'bool', 'int', 'str', 'bytes') or is_scalar(v) and \
                not isinstance(v, float):
            return lift(v) == self.t
        if isinstance(v, Tag) and v.name == 'anyview':
            return v.args[0].t == self.t
        return tm.FALSE


class Const(Node):
    def __init__(self, v):
        self.v = v

    def build(self, I, st):
        return st, self.v

    def match1(self, I, st, v):
        if isinstance(v, T) and v.kind == 'any' and is_scalar(self.v):
            return v.t == tm.lift(self.v)
        if isinstance(v, T) and kind_of(self.v) == v.kind:
            return v.t == term(self.v)
        if type(v) is type(self.v) and (v is self.v or v == self.v):
            return tm.TRUE
        return tm.FALSE


NONE = Const(None)


class Cond(Node):
    """Guarded alternatives (exclusive and exhaustive)."""
    def __init__(self, alts):
        self.alts = [(asb(g), s) for g, s in alts]

    def build(self, I, st):
        out = []
        for g, s in self.alts:
            if z3.is_false(g):
                continue
            st, v = s.build(I, st)
            if isinstance(v, U):
                out += [(And(g, h), x) for h, x in v.alts]
            else:
                out.append((g, v))
        return st, (out[0][1] if len(out) == 1 else U(out))


class Obj(Node):
    """An instance of exactly `cls` with these attributes."""
    def __init__(self, cls, fields, pre=False, frozen=False):
        self.cls, self.fields, self.pre, self.frozen = cls, dict(fields), pre, frozen

    def build(self, I, st):
        d = {}
        for n, s in self.fields.items():
            st, d[n] = s.build(I, st)
        if self.frozen:
            return st, SObj(self.cls, d)
        if issubclass(self.cls, tuple):
            return st, NTup(self.cls, [d[n] for n in self.cls._fields])
        return I.alloc(st, HObj('obj', self.cls, d, self.pre))


class Tup(Node):
    def __init__(self, items):
        self.items = list(items)

    def build(self, I, st):
        out = []
        for s in self.items:
            st, v = s.build(I, st)
            out.append(v)
        return st, tuple(out)


class DictOf(Node):
    """A dictionary with exactly these string keys: key -> (condition that it is there, value)."""
    def __init__(self, items):
        self.items = {k: (asb(g), n) for k, (g, n) in items.items()}


class DictComp(Node):
    """A dictionary written by n assignments in this order, the i-th being f(i) = (condition, key, value)."""
    def __init__(self, n, f):
        self.n, self.f = n, f


class Seq(Node):
    """A list or tuple of n elements, element i being f(i)."""
    def __init__(self, n, f):
        self.n, self.f = n, f

    def build(self, I, st):
        k = tm.fresh(tm.Int, 'k')
        st, v = self.f(k).build(I, st)
        return I.alloc(st, HObj('symlist', None, (self.n, k, v)))


def input_names(x, out):
    """Names of the constants that stand for decoded values in an input."""
    if isinstance(x, Any_):
        if x.t.num_args() == 0:
            out.add(str(x.t.decl()))
    elif isinstance(x, Cond):
        for _, y in x.alts:
            input_names(y, out)
    elif isinstance(x, Obj):
        for y in x.fields.values():
            input_names(y, out)
    elif isinstance(x, Tup):
        for y in x.items:
            input_names(y, out)


class EnumSet(Node):
    """A set (or other collection) of enum members; guards: member -> Bool."""
    def __init__(self, guards):
        self.guards = guards

    def build(self, I, st):
        return I.alloc(st, HObj('enumset', None, dict(self.guards), True))


class Raw(Node):
    """Any engine value."""
    def __init__(self, v):
        self.v = v

    def build(self, I, st):
        return st, self.v

    def match1(self, I, st, v):
        if I.same(v, self.v):
            return tm.TRUE
        if isinstance(v, T) and isinstance(self.v, T) and v.kind == self.v.kind:
            return v.t == self.v.t
        return tm.FALSE


class Free(Node):
    """Unconstrained (never checked, never built)."""


# ------------------------------------------------------------------ matching
def match(I, st, v, s, lab='result'):
    """-> list of (label, formula): v is what s says."""
    if isinstance(s, Free):
        return []
    if isinstance(s, Cond):
        out = []
        for g, x in s.alts:
            if z3.is_false(g):
                continue
            out += [(l, Implies(g, f)) for l, f in match(I, st, v, x, lab)]
        return out
    if isinstance(v, U):
        acc = {}
        for g, x in v.alts:
            for l, f in match(I, st, x, s, lab):
                acc.setdefault(l, []).append(Implies(asb(g), f))
        return [(l, And(*fs)) for l, fs in acc.items()]
    if v is POISON or v is UNBOUND:
        raise NeedBounded('value not determined by the invariant')
    if isinstance(s, Obj):
        if isinstance(v, Ref) and st.heap[v.id].kind == 'obj':
            cls, fields = st.heap[v.id].cls, st.heap[v.id].data
        elif isinstance(v, SObj):
            cls, fields = v.cls, v.fields
        elif isinstance(v, NTup):
            cls, fields = v.cls, dict(zip(v.cls._fields, v.vals))
        else:
            return [(lab, tm.FALSE)]
        if cls is not s.cls:
            return [(lab + '.class', tm.FALSE)]
        out = [(lab + '.class', tm.TRUE)]
        for n, x in s.fields.items():
            if isinstance(x, Free):
                continue
            if n not in fields:
                if hasattr(cls, n) and is_scalar(getattr(cls, n)):
                    out += match(I, st, getattr(cls, n), x, lab + '.' + n)
                else:
                    out.append((lab + '.' + n, tm.FALSE))
            else:
                out += match(I, st, fields[n], x, lab + '.' + n)
        return out
    if isinstance(s, Tup):
        if not isinstance(v, tuple) or len(v) != len(s.items):
            return [(lab, tm.FALSE)]
        out = []
        for i, x in enumerate(s.items):
            out += match(I, st, v[i], x, '%s[%d]' % (lab, i))
        return out
    if isinstance(s, Seq):
        return [(lab, And(*match_seq(I, st, v, s)))]
    if isinstance(s, EnumSet):
        raise Unsupported('match set')
    if isinstance(s, DictOf):
        d = None
        if isinstance(v, dict):
            d = v
        elif isinstance(v, Ref) and st.heap[v.id].kind == 'dict':
            d = st.heap[v.id].data
        elif isinstance(v, Ref) and st.heap[v.id].kind in ('wdict', 'symdict', 'acc'):
            raise Unsupported('dictionary written with computed keys')
        if d is None:
            return [(lab, tm.FALSE)]
        out = [(lab + '.no-others', And(*[asb(I.is_absent(d[k])) for k in d if k not in s.items]))]
        for k, (g, n) in s.items.items():
            x = d.get(k, UNBOUND)
            absent = asb(I.is_absent(x))
            out.append(('%s.%s' % (lab, k), absent == Not(g)))
            if x is UNBOUND:
                continue
            if isinstance(x, U):
                for h, y in x.alts:
                    if y is not UNBOUND:
                        out += [(l, Implies(And(h, g), f)) for l, f in match(I, st, y, n, '%s.%s' % (lab, k))]
            else:
                out += [(l, Implies(g, f)) for l, f in match(I, st, x, n, '%s.%s' % (lab, k))]
        return out
    if isinstance(s, DictComp):
        if isinstance(v, dict) and not v or isinstance(v, Ref) and st.heap[v.id].kind == 'dict' and \
                not st.heap[v.id].data:
            j = tm.fresh(tm.Int, 'j')
            return [(lab, z3.ForAll([j], Implies(And(j >= 0, j < s.n), Not(asb(s.f(j)[0])))))]
        if isinstance(v, Ref) and st.heap[v.id].kind == 'symdict':
            n, k, g, key, val = st.heap[v.id].data
            j = tm.fresh(tm.Int, 'j')
            sg, sk, sv = s.f(j)
            fs = [z3.substitute(g, (k, j)) == asb(sg)]
            for x, node in ((key, sk), (val, sv)):
                fs += [Implies(sg, f) for _, f in match(I, st, subst(x, k, j), node)]
            return [(lab, And(asb(n == s.n), z3.ForAll([j], Implies(And(j >= 0, j < s.n), And(*fs)))))]
        if isinstance(v, Ref) and st.heap[v.id].kind in ('dict', 'wdict', 'acc'):
            raise Unsupported('dictionary')
        return [(lab, tm.FALSE)]
    return [(lab, s.match1(I, st, v))]


def match_seq(I, st, v, s):
    if isinstance(v, T) and v.kind == 'any':
        j = tm.fresh(tm.Int, 'j')
        f = And(*[x for _, x in match(I, st, T('any', tm.lat(v.t, j), v.cls), s.f(j))])
        return [Or(V.is_vlist(v.t), V.is_vtuple(v.t)), tm.llen(v.t) == s.n,
                z3.ForAll([j], Implies(And(j >= 0, j < s.n), f))]
    items = None
    if isinstance(v, Ref) and st.heap[v.id].kind == 'list':
        items = st.heap[v.id].data
    elif isinstance(v, tuple):
        items = v
    elif isinstance(v, Tag) and v.name == 'frozenlist':
        items = v.args
    if items is not None:
        out = [asb(s.n == len(items))]
        for i, x in enumerate(items):
            out += [f for _, f in match(I, st, x, s.f(tm.I(i)))]
        return out
    if isinstance(v, Ref) and st.heap[v.id].kind == 'symlist':
        n, k, val = st.heap[v.id].data
        j = tm.fresh(tm.Int, 'j')
        f = And(*[x for _, x in match(I, st, subst(val, k, j), s.f(j))])
        return [asb(n == s.n), z3.ForAll([j], Implies(And(j >= 0, j < s.n), f))]
    if isinstance(v, Ref) and st.heap[v.id].kind == 'filtlist':
        (_, n, k, val, g), = st.heap[v.id].data
        j = tm.fresh(tm.Int, 'j')
        f = And(z3.substitute(asb(g), (k, j)), *[x for _, x in match(I, st, subst(val, k, j), s.f(j))])
        return [asb(n == s.n), z3.ForAll([j], Implies(And(j >= 0, j < s.n), f))]
    return [tm.FALSE]


# ------------------------------------------------------------------- viewing
def view(I, st, v):
    """Engine value -> node (for arguments at a call site)."""
    if v is POISON or v is UNBOUND:
        raise NeedBounded('value not determined by the invariant')
    if isinstance(v, T):
        if v.kind == 'any':
            return Any_(v.t, v.cls)
        if v.kind == 'enum':
            return Enm(v.t, v.cls)
        return Sc(v.kind, v.t, v.cls)
    if isinstance(v, U):
        return Cond([(g, view(I, st, x)) for g, x in v.alts])
    if isinstance(v, enum.Enum):
        return Enm(enum_term(v), type(v))
    if v is None:
        return NONE
    if is_scalar(v) and not isinstance(v, float):
        return Sc(kind_of(v), term(v))
    if isinstance(v, Ref) and st.heap[v.id].kind == 'obj':
        h = st.heap[v.id]
        return Obj(h.cls, {n: view(I, st, x) for n, x in h.data.items()})
    if isinstance(v, SObj):
        return Obj(v.cls, {n: view(I, st, x) for n, x in v.fields.items()})
    if isinstance(v, NTup):
        return Obj(v.cls, {n: view(I, st, x) for n, x in zip(v.cls._fields, v.vals)})
    if isinstance(v, Tag) and v.name == 'frozensym':
        n, k, x = v.args
        return Seq(n.t, lambda i: view(I, st, subst(x, k.t, i)))
    if isinstance(v, Ref) and st.heap[v.id].kind == 'symlist':
        n, k, x = st.heap[v.id].data
        return Seq(n, lambda i: view(I, st, subst(x, k, i)))
    items = None
    if isinstance(v, Ref) and st.heap[v.id].kind == 'list':
        items = st.heap[v.id].data
    elif isinstance(v, tuple):
        items = v
    elif isinstance(v, Tag) and v.name == 'frozenlist':
        items = v.args
    if items is not None:
        return Tup([view(I, st, x) for x in items])
    return Raw(v)


# ------------------------------------------------- questions about a node
def none(s):
    """Condition: the node is None."""
    if isinstance(s, Cond):
        return Or(*[And(g, none(x)) for g, x in s.alts])
    if isinstance(s, Any_):
        return V.is_vnone(s.t)
    return asb(isinstance(s, Const) and s.v is None)


def is_kind(s, kind):
    if isinstance(s, Cond):
        return Or(*[And(g, is_kind(x, kind)) for g, x in s.alts])
    if isinstance(s, Any_):
        return getattr(V, 'is_v' + kind)(s.t)
    if isinstance(s, Sc):
        return asb(s.kind == kind)
    return asb(isinstance(s, Const) and kind_of(s.v) == kind)


DEF = {'bool': tm.FALSE, 'int': tm.I(0), 'str': tm.S(''), 'bytes': z3.Empty(tm.Bytes), 'enum': tm.I(-1)}


def scalar(s, kind):
    """Term of the node where it has the kind (arbitrary elsewhere)."""
    if isinstance(s, Cond):
        r = None
        for g, x in reversed(s.alts):
            t = scalar(x, kind)
            if t is None:
                continue
            r = t if r is None else z3.If(g, t, r)
        return r
    if isinstance(s, Any_):
        return {'bool': V.ub, 'int': V.ui, 'str': V.us, 'bytes': V.uy}[kind](s.t)
    if isinstance(s, Sc) and s.kind == kind:
        return s.t
    if isinstance(s, Const) and kind_of(s.v) == kind:
        return term(s.v)
    return None


def sc(s, kind):
    t = scalar(s, kind)
    if t is None:
        return DEF[kind] if kind in DEF else tm.fresh(tm.O, 'undef')
    return t


def isinst(s, cls):
    if isinstance(s, Cond):
        return Or(*[And(g, isinst(x, cls)) for g, x in s.alts])
    if isinstance(s, Obj):
        return asb(issubclass(s.cls, cls))
    if isinstance(s, Enm):
        cs = [c for c in s.cls if issubclass(c, cls)]
        if len(cs) == len(s.cls):
            return tm.TRUE
        return Or(*[s.t == enum_term(m) for m in members(cs)]) if cs else tm.FALSE
    return tm.FALSE


def fld(s, name):
    if isinstance(s, Cond):
        alts = []
        for g, x in s.alts:
            f = fld(x, name)
            if f is not None:
                alts.append((g, f))
        if not alts:
            return NONE
        return alts[0][1] if len(alts) == 1 else Cond(alts)
    if isinstance(s, Obj):
        return s.fields.get(name)
    return None


def enum_in(s, ms):
    """The node is one of these enum members."""
    t = sc(s, 'enum')
    return Or(*[t == enum_term(m) for m in ms])


def names(cls, *ns):
    """Members with these names in an enum class or Name/Value container."""
    cs = [cls.Name, cls.Value] if not issubclass(cls, enum.Enum) else [cls]
    return [m for c in cs for m in c if m.name in ns]


# ---------------------------------------------------------------- input makers
def fresh_sc(kind, name):
    return Sc(kind, z3.Const(name, {'str': tm.Str, 'bytes': tm.Bytes, 'int': tm.Int, 'bool': tm.Bool}[kind]))


def fresh_any(name):
    return Any_(z3.Const(name, V))


def opt(node, name):
    p = z3.Bool(name + '?')
    return Cond([(p, node), (Not(p), NONE)])


def fresh_enum(cls, name, pre):
    cs = tuple(cls) if isinstance(cls, tuple) else ((cls.Name, cls.Value) if not issubclass(cls, enum.Enum)
                                                    else (cls,))
    t = z3.Int(name)
    pre.append(enum_domain(t, cs))
    return Enm(t, cs)
