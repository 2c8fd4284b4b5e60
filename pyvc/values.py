"""Value and state representation of the symbolic interpreter."""
import enum
import z3
from . import terms as tm
from .terms import And, Or, Not, asb


class Unsupported(Exception):
    """The function uses something outside the verifier's reach."""


class FrameBroken(Unsupported):
    """A write to state that outlives the call or belongs to the caller; what follows is not modelled."""


class NeedBounded(Exception):
    """A loop has no derivable inductive invariant; unroll it with a bound."""


class T:                                   # symbolic scalar / opaque value
    __slots__ = ('kind', 't', 'cls')

    def __init__(self, kind, t, cls=None):
        self.kind, self.t, self.cls = kind, t, cls

    def __repr__(self):
        return 'T(%s,%s)' % (self.kind, self.t)


class U:                                   # guarded union
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'U%r' % (self.alts,)


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%d)' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))


class SObj:                                # immutable structured value
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return 'SObj(%s,%r)' % (getattr(self.cls, '__name__', self.cls), self.fields)


class NTup:                                # named tuple instance
    __slots__ = ('cls', 'vals')

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)

    def __repr__(self):
        return 'NTup(%s,%r)' % (self.cls.__name__, self.vals)


class Tag:                                 # structured library value
    __slots__ = ('name', 'args')

    def __init__(self, name, *args):
        self.name, self.args = name, args

    def __repr__(self):
        return 'Tag(%s,%r)' % (self.name, self.args)


class TypeOf:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class ExcV:
    __slots__ = ('cls', 'args', 'known', 'origin')

    def __init__(self, cls, args=(), known=True, origin=None):
        self.cls, self.args, self.known, self.origin = cls, args, known, origin

    def __repr__(self):
        return 'Exc(%s%s)' % (self.cls.__name__, '' if self.known else '+')


class Closure:
    __slots__ = ('node', 'fid', 'glob', 'cls', 'defaults', 'kwdefaults')

    def __init__(self, node, fid, glob, cls, defaults=(), kwdefaults=None):
        self.node, self.fid, self.glob, self.cls = node, fid, glob, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}


class Bound:
    __slots__ = ('self', 'fn')

    def __init__(self, s, fn):
        self.self, self.fn = s, fn


class Method:                              # method of a builtin-typed value
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperV:
    __slots__ = ('cls', 'self')

    def __init__(self, cls, s):
        self.cls, self.self = cls, s


class Marker:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<%s>' % self.n


UNBOUND = Marker('unbound')
POISON = Marker('loop-carried')


class HObj:
    """Heap cell. kind: obj list dict set symlist enumset bytesio hash acc"""
    __slots__ = ('kind', 'cls', 'data', 'pre')

    def __init__(self, kind, cls, data, pre=False):
        self.kind, self.cls, self.data, self.pre = kind, cls, data, pre

    def with_(self, data):
        return HObj(self.kind, self.cls, data, self.pre)

    def __repr__(self):
        return 'H(%s,%s,%r)' % (self.kind, getattr(self.cls, '__name__', None), self.data)


class State:
    __slots__ = ('pc', 'frames', 'heap', 'events', 'notes')

    def __init__(self, pc=(), frames=None, heap=None, events=(), notes=frozenset()):
        self.pc, self.frames, self.heap = pc, frames or {}, heap or {}
        self.events, self.notes = events, notes

    def copy(self):
        return State(self.pc, self.frames, self.heap, self.events, self.notes)

    def assume(self, *cs):
        cs = [c for c in cs if c is not True and not (not isinstance(c, bool) and z3.is_true(c))]
        if not cs:
            return self
        s = self.copy()
        s.pc = self.pc + tuple(asb(c) for c in cs)
        return s

    def note(self, n):
        s = self.copy()
        s.notes = self.notes | {n}
        return s

    def event(self, *e):
        s = self.copy()
        s.events = self.events + (tuple(e),)
        return s

    def set(self, fid, name, v):
        s = self.copy()
        s.frames = dict(self.frames)
        f = dict(s.frames.get(fid, {}))
        f[name] = v
        s.frames[fid] = f
        return s

    def drop_frame(self, fid):
        s = self.copy()
        s.frames = dict(self.frames)
        s.frames.pop(fid, None)
        return s

    def own_inputs(self):
        """Every cell so far belongs to the caller."""
        s = self.copy()
        s.heap = {i: HObj(h.kind, h.cls, h.data, True) for i, h in self.heap.items()}
        return s

    def put(self, ref, h):
        s = self.copy()
        s.heap = dict(self.heap)
        old = s.heap.get(ref.id)
        if old is not None and old.pre and h.data is not old.data and old.kind not in ('bytesio', 'hash'):
            s.events = s.events + (('write', 'into an input %s' % old.kind),)
        s.heap[ref.id] = h
        if old is not None and h.kind == 'dict' and isinstance(h.cls, Ref):          # obj.__dict__: the object's own attributes
            o = s.heap[h.cls.id]
            if h.data is not old.data:
                if not all(isinstance(k, str) for k in h.data):
                    raise Unsupported('attribute names')
                return s.put(h.cls, o.with_(dict(h.data)))
        return s


# ---------------------------------------------------------------- enumerations
ENUMS = []            # global table of enum members
_enum_idx = {}


def enum_index(m):
    key = (type(m).__module__, type(m).__qualname__, m.name)
    if key not in _enum_idx:
        _enum_idx[key] = len(ENUMS)
        ENUMS.append(m)
    return _enum_idx[key]


def enum_term(m):
    return tm.I(enum_index(m))


def members(cls):
    """Members of an enum class (or of several)."""
    if isinstance(cls, (tuple, list)):
        out = []
        for c in cls:
            out += members(c)
        return out
    return list(cls)


def TEnum(t, cls):
    return T('enum', t, cls if isinstance(cls, tuple) else (cls,))


def enum_domain(t, cls):
    return Or(*[t == enum_term(m) for m in members(cls)])


def is_scalar(x):
    return x is None or isinstance(x, (bool, int, str, bytes, float))


KIND_OF = {bool: 'bool', int: 'int', str: 'str', bytes: 'bytes'}


def kind_of(v):
    if isinstance(v, T):
        return v.kind
    if isinstance(v, enum.Enum):
        return 'enum'
    return KIND_OF.get(type(v))


def term(v):
    """z3 term of a scalar engine value (own sort)."""
    if isinstance(v, T):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, enum.Enum):
        return enum_term(v)
    if isinstance(v, int):
        return tm.I(v)
    if isinstance(v, str):
        return tm.S(v)
    if isinstance(v, bytes):
        return tm.B(v)
    raise Unsupported('no term for %r' % (v,))


def lift(v):
    """V term of an engine value (scalar or any)."""
    if isinstance(v, T):
        if v.kind == 'any':
            return v.t
        f = {'bool': tm.V.vbool, 'int': tm.V.vint, 'str': tm.V.vstr, 'bytes': tm.V.vbytes}.get(v.kind)
        if f is None:
            raise Unsupported('cannot lift %r' % v)
        return f(v.t)
    if is_scalar(v) and not isinstance(v, float):
        return tm.lift(v)
    raise Unsupported('cannot lift %r' % (v,))


def subst(v, k, i):
    """Replace the index variable k by i in a value."""
    if isinstance(v, T):
        return T(v.kind, z3.substitute(v.t, (k, i)), v.cls)
    if isinstance(v, U):
        return U([(z3.substitute(asb(g), (k, i)), subst(x, k, i)) for g, x in v.alts])
    if isinstance(v, SObj):
        return SObj(v.cls, {n: subst(x, k, i) for n, x in v.fields.items()})
    if isinstance(v, NTup):
        return NTup(v.cls, [subst(x, k, i) for x in v.vals])
    if isinstance(v, Tag):
        return Tag(v.name, *[subst(x, k, i) for x in v.args])
    if isinstance(v, tuple):
        return tuple(subst(x, k, i) for x in v)
    if isinstance(v, TypeOf):
        return TypeOf(subst(v.v, k, i))
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (k, i))
    if isinstance(v, Bound):
        return Bound(subst(v.self, k, i), v.fn)
    if isinstance(v, Method):
        return Method(subst(v.recv, k, i), v.name)
    return v
