"""Forking symbolic interpreter over the Python source in /repo.

Each function is executed on fully symbolic inputs; states carry a path
condition, and states that fall together again are merged, so that a function
body yields a small set of (path condition, outcome) pairs covering all inputs.
"""
import ast
import dis
import builtins
import enum
import inspect
import sys
import time
import types as pytypes
import z3
from . import terms as tm
from .absd import ABS
from .terms import And, Or, Not, Implies, asb, V
from .values import *

MAX_STEPS = 60000
WHILE_BOUND = 40


def ok(st, v):
    return [(st, 'v', v)]


def err(st, cls, *args):
    return [(st, 'x', ExcV(cls, args))]


import contextlib
import struct
CONTEXT_HELPER = contextlib.contextmanager(lambda: iter(())).__code__


class Frame:
    __slots__ = ('fid', 'glob', 'cls', 'parent', 'name', 'locals', 'selfname', 'cells', 'hook')

    def __init__(self, fid, glob, cls, parent, name, locs, selfname=None, cells=None):
        self.fid, self.glob, self.cls, self.parent = fid, glob, cls, parent
        self.name, self.locals, self.selfname, self.cells = name, locs, selfname, cells or {}
        self.hook = None                       # what runs at the yield of a context manager


def last_statement(body, n):
    """Is n the last thing done by body (apart from what 'finally' does)?"""
    x = body[-1]
    if x is n:
        return True
    if isinstance(x, ast.Try):
        return not x.orelse and last_statement(x.body, n)
    return isinstance(x, ast.With) and last_statement(x.body, n)


def stored(cls, name):
    """Some method of the class sets this attribute of its instances."""
    fns = [f for c in cls.__mro__ for f in c.__dict__.values() if isinstance(f, pytypes.FunctionType)]
    return any(i.opname == 'STORE_ATTR' and i.argval == name for f in fns if name in f.__code__.co_names
               for i in dis.get_instructions(f.__code__))


class Interp:
    def __init__(self, src, contracts=None, bounded=0, feas_ms=400, deadline=None):
        self.src = src
        self.contracts = contracts or {}       # id(function) -> contract
        self.inline = set()                    # ids whose body must be used
        self.bounded = bounded                 # 0: unbounded, N: unroll limit
        self.frames = {}
        self.nfid = 0
        self.nref = 0
        self.steps = 0
        self.feas_ms = feas_ms
        self.feas_cache = {}
        self.deadline = deadline
        self.used_contracts = set()
        self.used_models = set()
        self.visited = set()                   # functions whose body was interpreted
        self.depth = 0
        self.pruned = 0
        from . import models
        self.models = models.MODELS
        self.modelmod = models
        self.solver_time = 0.0
        self.nchecks = 0
        self.enter = None                      # function whose next call goes into the body

    # ------------------------------------------------------------ utilities
    def newfid(self):
        self.nfid += 1
        return self.nfid

    def alloc(self, st, h):
        self.nref += 1
        r = Ref(self.nref)
        return st.put(r, h), r

    def tick(self):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported('step limit')
        if self.deadline and (self.steps & 31) == 0 and time.time() > self.deadline:
            raise Unsupported('time limit')

    def feasible(self, st, cond=None):
        c = asb(cond) if cond is not None else tm.TRUE
        if z3.is_true(c) and not st.pc:
            return True
        if z3.is_false(c):
            return False
        cs = z3.simplify(c)
        if z3.is_false(cs):
            return False
        key = tuple(x.get_id() for x in st.pc) + (c.get_id(),)
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        if z3.is_true(cs) and len(st.pc) and \
                self.feas_cache.get(tuple(x.get_id() for x in st.pc) + (tm.TRUE.get_id(),), (False,))[0]:
            return True
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.feas_ms)
        s.add(*ABS.formulas([p for p in st.pc + (c,) if not tm.has_quantifier(p)]))
        r = s.check() != z3.unsat
        self.solver_time += time.time() - t0
        self.nchecks += 1
        self.feas_cache[key] = (r, st.pc, c)      # keep the asts alive
        return r

    def possible(self, st, cond):
        """feasible, the quantified facts included where there are any"""
        return self.feasible(st, cond) and not (
            any(tm.has_quantifier(p) for p in st.pc) and self.entailed(st, Not(asb(cond)), 500))

    def entailed(self, st, cond, ms=2000):
        """The path condition, quantified facts included, implies cond."""
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*ABS.formulas(list(st.pc) + [Not(asb(cond))]))
        return s.check() == z3.unsat

    def branch(self, st, cond):
        """-> list of (state, bool)"""
        if isinstance(cond, bool):
            return [(st, cond)]
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        out = []
        a = self.feasible(st, cond)
        nc = Not(cond)
        b = self.feasible(st, nc) if a else True
        self.pruned += not (a and b)
        if a:
            out.append((st.assume(cond) if b else st, True))
        if b:
            out.append((st.assume(nc) if a else st, False))
        return out

    def spread(self, st, v):
        """Split a union into its feasible alternatives."""
        if not isinstance(v, U):
            return [(st, v)]
        out = []
        for g, x in v.alts:
            if self.feasible(st, g):
                out.extend(self.spread(st.assume(g), x))
        return out

    def spread_any(self, st, v):
        """Split a value of unknown type into typed alternatives."""
        res = []
        for s, x in self.spread(st, v):
            if isinstance(x, T) and x.kind == 'any':
                for pred, mk in ((V.is_vnone, lambda t: None),
                                 (V.is_vbool, lambda t: T('bool', V.ub(t))),
                                 (V.is_vint, lambda t: T('int', V.ui(t), x.cls)),
                                 (V.is_vstr, lambda t: T('str', V.us(t))),
                                 (V.is_vbytes, lambda t: T('bytes', V.uy(t)))):
                    if self.feasible(s, pred(x.t)):
                        res.append((s.assume(pred(x.t)), mk(x.t)))
                rest = Or(V.is_vflt(x.t), V.is_vlist(x.t), V.is_vtuple(x.t), V.is_vdict(x.t),
                          V.is_vother(x.t))
                if self.feasible(s, rest):
                    res.append((s.assume(rest), x))
            else:
                res.append((s, x))
        return res

    def split_kind(self, st, v, kind):
        """-> (list of (state, T kind), list of (state, other value))"""
        good, bad = [], []
        for s, x in self.spread(st, v):
            if isinstance(x, T) and x.kind == 'any':
                pred, acc = {'str': (V.is_vstr, V.us), 'bytes': (V.is_vbytes, V.uy),
                             'int': (V.is_vint, V.ui), 'bool': (V.is_vbool, V.ub)}[kind]
                p = pred(x.t)
                if self.feasible(s, p):
                    good.append((s.assume(p), T(kind, acc(x.t))))
                if self.feasible(s, Not(p)):
                    bad.append((s.assume(Not(p)), x))
            elif kind_of(x) == kind:
                good.append((s, x))
            elif isinstance(x, Ref) and s.heap[x.id].kind == 'bytearray':
                raise Unsupported('bytearray argument')
            else:
                bad.append((s, x))
        return good, bad

    # ------------------------------------------------------------- truth, eq
    def truth(self, st, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, str, bytes, float)):
            return bool(v)
        if isinstance(v, U):
            return Or(*[And(g, self.truth(st, x)) for g, x in v.alts])
        if isinstance(v, T):
            k, t = v.kind, v.t
            if k == 'bool':
                return t
            if k == 'int':
                return t != 0
            if k in ('str', 'bytes'):
                return z3.Length(t) > 0
            if k == 'any':
                return And(Not(V.is_vnone(t)),
                           Implies(V.is_vbool(t), V.ub(t)), Implies(V.is_vint(t), V.ui(t) != 0),
                           Implies(V.is_vstr(t), z3.Length(V.us(t)) > 0),
                           Implies(V.is_vbytes(t), z3.Length(V.uy(t)) > 0),
                           Implies(Or(V.is_vlist(t), V.is_vtuple(t)), tm.llen(t) > 0),
                           Implies(V.is_vdict(t), tm.dlen(t) > 0),
                           Implies(V.is_vflt(t), tm.fltnz(V.uf(t))))
            if k == 'opq':
                raise Unsupported('truth of an opaque object')
            return True
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if h.kind == 'list':
                return len(h.data) > 0
            if h.kind == 'symlist':
                return h.data[0] > 0
            if h.kind == 'dict':
                return Or(*[asb(Not(self.is_absent(x))) for x in h.data.values()]) if h.data else False
            if h.kind in ('set', 'filtlist'):
                return self.set_nonempty(st, h.data)
            if h.kind == 'enumset':
                return Or(*h.data.values())
            if h.kind == 'acc':
                raise NeedBounded('accumulator read in loop')
            if h.kind == 'bytearray':
                return z3.Length(h.data.t) > 0
            if h.kind in ('symdict', 'wdict'):
                raise Unsupported('dictionary with computed keys')
            if h.kind == 'obj':
                if hasattr(h.cls, '__bool__') or hasattr(h.cls, '__len__'):
                    raise Unsupported('__bool__/__len__')
                return True
            return True
        if isinstance(v, NTup):
            return len(v.vals) > 0
        if isinstance(v, (tuple, list, dict, set, frozenset)):
            return len(v) > 0
        if isinstance(v, Tag) and v.name in ('range', 'dkeys', 'dvalues', 'ditems'):
            raise Unsupported('truth of view')
        if v is POISON:
            raise NeedBounded('loop-carried value')
        return True

    def is_absent(self, x):
        """Condition under which a dictionary slot is unset."""
        if x is UNBOUND:
            return True
        if isinstance(x, U):
            return Or(*[And(g, self.is_absent(y)) for g, y in x.alts])
        return False

    def is_none(self, v):
        if v is None:
            return True
        if isinstance(v, T) and v.kind == 'any':
            return V.is_vnone(v.t)
        if isinstance(v, U):
            return Or(*[And(g, self.is_none(x)) for g, x in v.alts])
        if v is POISON:
            raise NeedBounded('loop-carried value')
        return False

    def eq(self, st, a, b):
        """Python == as a condition."""
        if isinstance(a, U):
            return Or(*[And(g, self.eq(st, x, b)) for g, x in a.alts])
        if isinstance(b, U):
            return Or(*[And(g, self.eq(st, a, x)) for g, x in b.alts])
        if a is POISON or b is POISON:
            raise NeedBounded('loop-carried value')
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.type_is(a, b) if isinstance(a, TypeOf) else self.type_is(b, a)
        if isinstance(a, enum.Enum) and isinstance(b, enum.Enum):
            return a is b
        ka, kb = kind_of(a), kind_of(b)
        if ka == 'enum' or kb == 'enum':
            if ka == kb:
                return term(a) == term(b)
            return False
        if a is None or b is None:
            o = b if a is None else a
            return self.is_none(o)
        if is_scalar(a) and is_scalar(b):
            return a == b
        if ka == 'any' or kb == 'any':
            if ka != 'any':
                a, b, ka, kb = b, a, kb, ka
            if kb == 'any':
                if a.t.eq(b.t):
                    return True
                return self.veq(a.t, b.t)
            if kb in ('int', 'bool'):
                bt = term(b)
                n = z3.If(bt, tm.I(1), tm.I(0)) if kb == 'bool' else bt
                return Or(And(V.is_vint(a.t), V.ui(a.t) == n),
                          And(V.is_vbool(a.t), n == z3.If(V.ub(a.t), tm.I(1), tm.I(0))),
                          And(V.is_vflt(a.t), tm.flt_isint(V.uf(a.t)), tm.flt_int(V.uf(a.t)) == n))
            if kb in ('str', 'bytes'):
                return a.t == lift(b)
            if isinstance(b, float):
                raise Unsupported('float comparison')
            if isinstance(b, Ref) or isinstance(b, (tuple, list, dict)):
                return self.any_eq_container(st, a.t, b)
            return False
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            ta, tb = term(a), term(b)
            if ka != kb:
                ta = z3.If(ta, tm.I(1), tm.I(0)) if ka == 'bool' else ta
                tb = z3.If(tb, tm.I(1), tm.I(0)) if kb == 'bool' else tb
            return ta == tb
        if ka == 'opq' and kb == 'opq' and getattr(a.cls, 'spec', None) is not None:
            return self.libs_asn_eq(st, a, b)
        if ka and ka == kb:
            return term(a) == term(b)
        if ka and kb:
            if 'opq' in (ka, kb):
                o, n = (a, b) if ka == 'opq' else (b, a)
                return self.libs_asn_eq(st, o, n)
            return False
        if ka == 'opq' or kb == 'opq':
            return a is b
        if isinstance(a, NTup):
            a = a.vals
        if isinstance(b, NTup):
            b = b.vals
        if isinstance(a, Tag) or isinstance(b, Tag):
            if isinstance(a, Tag) and isinstance(b, Tag):
                if a is b:
                    return True
                if a.name in ('ec_curve', 'hash') and b.name == a.name:
                    return And(*[asb(self.eq(st, x, y)) for x, y in zip(a.args, b.args)])
            if (a if isinstance(a, Tag) else b).name in ('dkeys', 'setv'):
                raise Unsupported('comparison of views')
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[asb(self.eq(st, x, y)) for x, y in zip(a, b)])
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.eq_heap(st, a, b)
        if isinstance(a, (Closure, Bound, Method, SObj)) or isinstance(b, (Closure, Bound, Method, SObj)):
            if isinstance(a, SObj) and isinstance(b, SObj):
                raise Unsupported('identity of structured values')
            return a is b
        if isinstance(a, (list, dict, set)) and isinstance(b, (list, dict, set)) or \
                isinstance(a, type) or isinstance(b, type) or callable(a) or callable(b):
            return a == b
        if kb is None and ka is None:
            try:
                return bool(a == b)
            except Exception:
                raise Unsupported('comparison %r %r' % (a, b))
        return False

    def veq(self, a, b):
        num = lambda t: z3.If(V.is_vbool(t), z3.If(V.ub(t), tm.I(1), tm.I(0)), V.ui(t))
        isn = lambda t: Or(V.is_vint(t), V.is_vbool(t))
        return Or(a == b, And(isn(a), isn(b), num(a) == num(b)))

    def any_eq_container(self, st, t, b):
        if isinstance(b, Ref):
            h = st.heap[b.id]
            if h.kind == 'list':
                b = list(h.data)
            elif h.kind == 'dict' and not h.data:
                b = {}
            else:
                raise Unsupported('compare container')
        if isinstance(b, (list, tuple)):
            if any(not (is_scalar(x) or isinstance(x, T)) for x in b):
                raise Unsupported('compare container')
            tag = V.is_vlist(t) if isinstance(b, list) else V.is_vtuple(t)
            return And(tag, tm.llen(t) == len(b),
                       *[asb(self.eq(st, T('any', tm.lat(t, tm.I(i))), x)) for i, x in enumerate(b)])
        if isinstance(b, dict) and not b:
            return And(V.is_vdict(t), tm.dlen(t) == 0)
        raise Unsupported('compare container')

    def libs_asn_eq(self, st, a, b):
        from .libs import asn_eq
        return asn_eq(self, st, a, b)

    def eq_heap(self, st, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        ha = st.heap[a.id] if isinstance(a, Ref) else None
        hb = st.heap[b.id] if isinstance(b, Ref) else None
        if ha is not None and ha.kind == 'obj' or hb is not None and hb.kind == 'obj':
            for h in (ha, hb):
                if h is not None and h.kind == 'obj' and getattr(h.cls, '__eq__', None) is not object.__eq__:
                    raise Unsupported('__eq__')
            if isinstance(a, SObj) or isinstance(b, SObj):
                raise Unsupported('identity of structured values')
            return False
        for h in (ha, hb):
            if h is not None and h.kind == 'acc':
                raise NeedBounded('accumulator read in loop')
            if h is not None and h.kind in ('symdict', 'wdict'):
                raise Unsupported('dictionary with computed keys')
            if h is not None and h.kind == 'bytearray':
                content = lambda x: st.heap[x.id].data if isinstance(x, Ref) and st.heap[x.id].kind == 'bytearray' else x
                return self.eq(st, content(a), content(b))
        la = ha.data if ha is not None and ha.kind == 'list' else (a if isinstance(a, list) else None)
        lb = hb.data if hb is not None and hb.kind == 'list' else (b if isinstance(b, list) else None)
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return False
            return And(*[asb(self.eq(st, x, y)) for x, y in zip(la, lb)])
        if la is not None and hb is not None and hb.kind == 'symlist' or \
                lb is not None and ha is not None and ha.kind == 'symlist':
            l, h = (la, hb) if la is not None else (lb, ha)
            if len(l) == 0:
                return h.data[0] == 0
            raise Unsupported('list comparison')
        for d, o in ((ha, b), (hb, a)):
            if d is not None and d.kind == 'filtlist':
                o = st.heap[o.id].data if isinstance(o, Ref) and st.heap[o.id].kind == 'list' else o
                if o in ([], ()):
                    return Not(asb(self.set_nonempty(st, d.data)))
                raise Unsupported('list comparison')
        if ha is not None and ha.kind in ('dict', 'set', 'symlist', 'enumset') or \
                hb is not None and hb.kind in ('dict', 'set', 'symlist', 'enumset'):
            d = ha if ha is not None else hb
            o = b if ha is not None else a
            if d.kind == 'set' and isinstance(o, Ref) and st.heap[o.id].kind == 'set' \
                    and not st.heap[o.id].data:
                return Not(asb(self.set_nonempty(st, d.data)))
            if d.kind == 'set' and (isinstance(o, (set, frozenset)) or isinstance(o, Ref) and
                                    st.heap[o.id].kind == 'set'):
                ea, eb = d.data, self.as_set(st, o)
                return And(*[Not(asb(self.set_nonempty(st, (('diff', x, y),)))) for x, y in ((ea, eb), (eb, ea))])
            if d.kind == 'dict' and (isinstance(o, dict) and not o or isinstance(o, Ref) and
                                     st.heap[o.id].kind == 'dict' and not st.heap[o.id].data):
                return Not(asb(self.truth(st, Ref(a.id) if ha is not None else b)))
            if o is None or is_scalar(o):
                return False
            raise Unsupported('container comparison')
        return False

    def type_is(self, ty, c):
        """Condition for type(x) is c."""
        if isinstance(c, U):
            return Or(*[And(g, self.type_is(ty, x)) for g, x in c.alts])
        if isinstance(c, TypeOf):
            raise Unsupported('type comparison')
        return self.typetest(ty.v, c, exact=True)

    def typetest(self, v, c, exact, st=None):
        if isinstance(v, U):
            return Or(*[And(g, self.typetest(x, c, exact, st)) for g, x in v.alts])
        if v is POISON:
            raise NeedBounded('loop-carried value')
        rel = (lambda k: k is c) if exact else (lambda k: isinstance(c, type) and issubclass(k, c))
        if isinstance(v, T):
            if v.kind == 'any':
                out = []
                for k, p in ((type(None), V.is_vnone), (bool, V.is_vbool), (int, V.is_vint),
                             (float, V.is_vflt), (str, V.is_vstr), (bytes, V.is_vbytes),
                             (list, V.is_vlist), (tuple, V.is_vtuple), (dict, V.is_vdict)):
                    if rel(k):
                        out.append(p(v.t))
                if not exact and c is object:
                    return True
                if c is not object and not any(rel(k) for k in (type(None), bool, int, float, str, bytes,
                                                                list, tuple, dict)):
                    if c in tm_known_types():
                        return False
                    out.append(And(V.is_vother(v.t), tm.uf('abs_isinst_%s' % getattr(c, '__name__', c),
                                                           tm.V, tm.Bool)(v.t)))
                return Or(*out)
            if v.kind == 'enum':
                return Or(*[v.t == enum_term(m) for m in members(v.cls) if rel(type(m))])
            if v.kind == 'opq':
                return self.modelmod.opq_isinstance(v, c)
            return rel({'bool': bool, 'int': int, 'str': str, 'bytes': bytes}[v.kind])
        if isinstance(v, Ref):
            raise Unsupported('internal: typetest of Ref')
        if isinstance(v, (SObj, NTup)):
            return rel(v.cls)
        if isinstance(v, Tag):
            return self.modelmod.tag_isinstance(v, c, exact)
        if isinstance(v, ExcV):
            if not v.known:
                raise Unsupported('type of unknown exception')
            return rel(v.cls)
        if isinstance(v, (Closure, Bound, Method)):
            return rel(pytypes.FunctionType)
        return rel(type(v))

    def typetest_st(self, st, v, c, exact):
        if isinstance(v, U):
            return Or(*[And(g, self.typetest_st(st, x, c, exact)) for g, x in v.alts])
        if isinstance(v, Ref):
            h = st.heap[v.id]
            k = {'obj': h.cls, 'list': list, 'symlist': h.cls or list, 'dict': dict, 'set': set, 'enumset': set,
                 'acc': h.cls}.get(h.kind, h.cls)
            if k is None:
                raise Unsupported('type of %s' % h.kind)
            return (k is c) if exact else isinstance(c, type) and issubclass(k, c)
        return self.typetest(v, c, exact)

    def isinstance_(self, st, v, c, exact=False):
        if isinstance(c, Ref):
            c = tuple(st.heap[c.id].data)
        if isinstance(c, (tuple, list, set, frozenset)):
            return Or(*[asb(self.isinstance_(st, v, x, exact)) for x in c])
        if isinstance(c, pytypes.UnionType) or getattr(c, '__origin__', None) is __import__('typing').Union:
            return Or(*[asb(self.isinstance_(st, v, x, exact)) for x in c.__args__])
        if not isinstance(c, type):
            raise Unsupported('isinstance with %r' % (c,))
        return self.typetest_st(st, v, c, exact)

    # ------------------------------------------------------------------ sets
    # entries: ('e', guard, value) | ('q', n, k, value, guard) | ('dk', dictterm)
    #          | ('diff', A, B) | ('and', A, B)
    def set_member(self, st, entries, x):
        out = []
        for e in entries:
            if e[0] == 'e':
                out.append(And(e[1], asb(self.eq(st, e[2], x))))
            elif e[0] == 'q':
                _, n, k, v, g = e
                j = tm.fresh(tm.Int, 'j')
                body = And(j >= 0, j < n, z3.substitute(asb(g), (k, j)),
                           asb(self.eq(st, subst(v, k, j), x)))
                out.append(z3.Exists([j], body))
            elif e[0] == 'dk':
                out.append(tm.dhas(e[1], self.key_term(x)))
            elif e[0] == 'diff':
                out.append(And(asb(self.set_member(st, e[1], x)), Not(asb(self.set_member(st, e[2], x)))))
            elif e[0] == 'and':
                out.append(And(asb(self.set_member(st, e[1], x)), asb(self.set_member(st, e[2], x))))
        return Or(*out)

    def set_exists(self, st, entries, pred):
        """exists x in set with pred(value)"""
        out = []
        for e in entries:
            if e[0] == 'e':
                out.append(And(e[1], asb(pred(e[2]))))
            elif e[0] == 'q':
                _, n, k, v, g = e
                j = tm.fresh(tm.Int, 'j')
                out.append(z3.Exists([j], And(j >= 0, j < n, z3.substitute(asb(g), (k, j)),
                                              asb(pred(subst(v, k, j))))))
            elif e[0] == 'dk':
                j = tm.fresh(tm.Int, 'j')
                body = And(j >= 0, j < tm.dlen(e[1]), asb(pred(T('any', tm.dkey(e[1], j)))))
                out.append(z3.Exists([j], body))
            elif e[0] == 'diff':
                out.append(self.set_exists(st, e[1], lambda x, e=e: And(
                    asb(pred(x)), Not(asb(self.set_member(st, e[2], x))))))
            elif e[0] == 'and':
                out.append(self.set_exists(st, e[1], lambda x, e=e: And(
                    asb(pred(x)), asb(self.set_member(st, e[2], x)))))
        return Or(*out)

    def set_nonempty(self, st, entries):
        return self.set_exists(st, entries, lambda x: True)

    def as_set(self, st, v):
        """Entries of a set-like value."""
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if h.kind in ('set', 'filtlist'):
                return h.data
            if h.kind == 'list':
                return tuple(('e', True, x) for x in h.data)
            if h.kind == 'symlist':
                n, k, x = h.data
                return (('q', n, k, x, True),)
            if h.kind == 'dict':
                return tuple(('e', Not(asb(self.is_absent(x))), k) for k, x in h.data.items())
            if h.kind == 'enumset':
                return tuple(('e', g, m) for m, g in h.data.items())
            if h.kind == 'acc':
                raise NeedBounded('accumulator read in loop')
        if isinstance(v, Tag) and v.name == 'dkeys':
            return self.as_set(st, v.args[0])
        if isinstance(v, T) and v.kind == 'any':
            return (('dk', v.t, v.cls),)
        if isinstance(v, (set, frozenset, list, tuple, dict)):
            return tuple(('e', True, x) for x in v)
        raise Unsupported('set of %r' % (v,))

    def key_term(self, x):
        """V term used to look a key up in a decoded dictionary."""
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, enum.Enum):
            return None
        t = lift(x)
        return t

    # ------------------------------------------------------------------ merge
    def merge(self, states):
        """Merge states that reach the same program point."""
        out = []
        for s in states:
            done = False
            for i in range(len(out) - 1, -1, -1):
                m = self.merge2(out[i], s)
                if m is not None:
                    out[i] = m
                    done = True
                    break
            if not done:
                out.append(s)
        return out

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, T):
            return a.kind == b.kind and a.t.eq(b.t)
        if isinstance(a, (bool, int, str, bytes, float)):
            return a == b
        if isinstance(a, Ref):
            return a.id == b.id
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, NTup):
            return a.cls is b.cls and self.same(a.vals, b.vals)
        if isinstance(a, Tag):
            return a.name == b.name and self.same(a.args, b.args)
        if isinstance(a, ExcV):
            return a.cls is b.cls and a.known == b.known
        if isinstance(a, U):
            return len(a.alts) == len(b.alts) and all(
                asb(g).eq(asb(h)) and self.same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
        if isinstance(a, TypeOf):
            return self.same(a.v, b.v)
        if isinstance(a, SObj):
            return a.cls is b.cls and a.fields.keys() == b.fields.keys() and all(
                self.same(a.fields[k], b.fields[k]) for k in a.fields)
        if isinstance(a, Bound):
            return a.fn is b.fn and self.same(a.self, b.self)
        if isinstance(a, Closure):
            return a.node is b.node and a.fid == b.fid
        if isinstance(a, Method):
            return a.name == b.name and self.same(a.recv, b.recv)
        if z3.is_ast(a):
            return a.eq(b)
        return False

    def merge_val(self, ga, a, gb, b):
        if self.same(a, b):
            return a
        ka, kb = kind_of(a), kind_of(b)
        if ka and ka == kb and ka not in ('enum', 'opq'):
            return T(ka, z3.If(ga, term(a), term(b)))
        if ka == kb == 'enum':
            ca = a.cls if isinstance(a, T) else (type(a),)
            cb = b.cls if isinstance(b, T) else (type(b),)
            return T('enum', z3.If(ga, term(a), term(b)), tuple(dict.fromkeys(ca + cb)))
        alts = []
        for g, v in ((ga, a), (gb, b)):
            if isinstance(v, U):
                alts += [(And(g, h), x) for h, x in v.alts]
            else:
                alts.append((g, v))
        out = []
        for g, v in alts:
            for i, (h, x) in enumerate(out):
                if self.same(v, x):
                    out[i] = (Or(h, g), x)
                    break
            else:
                out.append((g, v))
        return out[0][1] if len(out) == 1 else U(out)

    def merge_h(self, ga, a, gb, b):
        if a is b:
            return a
        if a.kind != b.kind or a.cls is not b.cls:
            return None
        k = a.kind
        if k in ('obj', 'dict'):
            d = {}
            for n in list(a.data) + [x for x in b.data if x not in a.data]:
                d[n] = self.merge_val(ga, a.data.get(n, UNBOUND), gb, b.data.get(n, UNBOUND))
            return HObj(k, a.cls, d, a.pre)
        if k == 'list':
            if len(a.data) != len(b.data):
                return None
            return a.with_(tuple(self.merge_val(ga, x, gb, y) for x, y in zip(a.data, b.data)))
        if k == 'acc':
            la, lb = a.data, b.data
            if len(la) == len(lb):
                return a.with_(tuple((self._ite(ga, g1, gb, g2), self.merge_val(ga, x, gb, y))
                                     for (g1, x), (g2, y) in zip(la, lb)))
            if abs(len(la) - len(lb)) == 1:
                if len(la) > len(lb) and la[:-1] == lb:
                    return a.with_(lb + ((And(ga, la[-1][0]), la[-1][1]),))
                if len(lb) > len(la) and lb[:-1] == la:
                    return a.with_(la + ((And(gb, lb[-1][0]), lb[-1][1]),))
            return None
        if k == 'set':
            if any(e[0] != 'e' for e in a.data + b.data):
                if len(a.data) == len(b.data) and all(self._same_entry(x, y) for x, y in zip(a.data, b.data)):
                    return a
                if any(e[0] in ('diff', 'and') for e in a.data + b.data):
                    return None
            out = []
            common = [x for x in a.data if any(self._same_entry(x, y) for y in b.data)]
            for e in common:
                out.append(e)
            for g, src in ((ga, a), (gb, b)):
                for e in src.data:
                    if any(e is c or self._same_entry(e, c) for c in common):
                        continue
                    if e[0] == 'e':
                        out.append(('e', And(g, e[1]), e[2]))
                    elif e[0] == 'q':
                        out.append(('q', e[1], e[2], e[3], And(g, e[4])))
                    else:
                        return None
            return a.with_(tuple(out))
        if k in ('bytesio', 'hash'):
            return a.with_(tuple(self.merge_val(ga, x, gb, y) for x, y in zip(a.data, b.data)))
        return None

    def _ite(self, ga, a, gb, b):
        a, b = asb(a), asb(b)
        if a.eq(b):
            return a
        return Or(And(ga, a), And(gb, b))

    def _same_entry(self, x, y):
        if x is y:
            return True
        if x[0] != y[0]:
            return False
        if x[0] == 'e':
            return asb(x[1]).eq(asb(y[1])) and self.same(x[2], y[2])
        return all(self.same(p, q) if not z3.is_ast(p) else z3.is_ast(q) and p.eq(q)
                   for p, q in zip(x[1:], y[1:]))

    def merge2(self, a, b):
        if len(a.events) != len(b.events) or not all(
                x is y or self.same(x, y) for x, y in zip(a.events, b.events)):
            return None
        if a.frames.keys() != b.frames.keys():
            return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        sa, sb = a.pc[n:], b.pc[n:]
        if n == len(a.pc) or n == len(b.pc):
            return None
        # the two suffixes are exclusive: one condition that tells them apart guards the merged values
        ga = None
        for x in sa[:6]:
            nx = Not(x)
            for y in sb[:6]:
                if y.eq(nx) or z3.is_not(y) and y.arg(0).eq(x):
                    ga, gb = x, y
                    break
            if ga is not None:
                break
        if ga is None:
            qa, qb = (sum(1000 if tm.has_quantifier(x) else 1 for x in q) for q in (sa, sb))
            if qa <= qb:
                ga = And(*sa)
                gb = Not(ga)
            else:
                gb = And(*sb)
                ga = Not(gb)
        heap = {}
        for i in list(a.heap) + [x for x in b.heap if x not in a.heap]:
            x, y = a.heap.get(i), b.heap.get(i)
            if x is None or y is None:
                heap[i] = x or y
                continue
            m = self.merge_h(ga, x, gb, y)
            if m is None:
                return None
            heap[i] = m
        frames = {}
        for f in a.frames:
            fa, fb = a.frames[f], b.frames[f]
            if fa is fb:
                frames[f] = fa
                continue
            d = {}
            for k in list(fa) + [x for x in fb if x not in fa]:
                d[k] = self.merge_val(ga, fa.get(k, UNBOUND), gb, fb.get(k, UNBOUND))
            frames[f] = d
        pc = list(a.pc[:n])
        for g, suf in ((ga, sa), (gb, sb)):
            whole = And(*suf)
            if whole.eq(g):
                continue
            for x in suf:
                if not x.eq(g):
                    pc.append(Implies(g, x))
        pc = tuple(pc)
        return State(pc, frames, heap, a.events, a.notes | b.notes)

    def merge_results(self, res):
        """Merge ('v' / 'n' style) results carrying values, when possible."""
        vals = [r for r in res if r[1] == 'v']
        rest = [r for r in res if r[1] != 'v']
        if len(vals) <= 1:
            return res
        fid = -1
        m = self.merge([s.set(fid, '$', v) for s, _, v in vals])
        return [(s.drop_frame(fid), 'v', s.frames[fid]['$']) for s in m] + rest

    # ------------------------------------------------------------------ names
    def lookup(self, st, fid, name):
        f = self.frames[fid]
        g = f
        while g is not None:
            d = st.frames.get(g.fid, {})
            if name in d:
                return self.bound(st, d[name], name)
            if name in g.cells:
                return ok(st, g.cells[name])
            if name in g.locals:
                return err(st, UnboundLocalError, name)
            g = self.frames[g.parent] if g.parent is not None else None
        if name in f.glob:
            return ok(st, f.glob[name])
        if hasattr(builtins, name):
            return ok(st, getattr(builtins, name))
        return err(st, NameError, name)

    def bound(self, st, v, name, exc=UnboundLocalError):
        if v is UNBOUND:
            return err(st, exc, name)
        if isinstance(v, U) and any(x is UNBOUND for _, x in v.alts):
            out = []
            good = [(g, x) for g, x in v.alts if x is not UNBOUND]
            badg = Or(*[g for g, x in v.alts if x is UNBOUND])
            for s, b in self.branch(st, badg):
                if b:
                    out += err(s, exc, name)
                elif len(good) == 1:
                    out += ok(s.assume(good[0][0]), good[0][1])
                else:
                    out += ok(s, U(good))
            return out
        return ok(st, v)

    # ------------------------------------------------------------ expressions
    def bind(self, res, f):
        out = []
        for s, k, v in res:
            if k == 'v':
                out.extend(f(s, v))
            else:
                out.append((s, k, v))
        return out

    def evals(self, nodes, st, fid):
        """Evaluate a list of expressions -> results with a list value."""
        res = [(st, 'v', [])]
        for n in nodes:
            nxt = []
            for s, k, acc in res:
                if k != 'v':
                    nxt.append((s, k, acc))
                    continue
                if isinstance(n, ast.Starred):
                    for s2, k2, v in self.eval(n.value, s, fid):
                        if k2 != 'v':
                            nxt.append((s2, k2, v))
                            continue
                        for s3, x in self.spread(s2, v):
                            if isinstance(x, Tag) and x.name in ('gen', 'dvalues', 'dkeys'):
                                for s4, k4, w in self.modelmod.m_list(self, s3, [x], {}, fid):
                                    nxt.append((s4, k4, w if k4 != 'v' else acc + self.concrete_items(s4, w)))
                                continue
                            nxt.append((s3, 'v', acc + self.concrete_items(s3, x)))
                    continue
                for s2, k2, v in self.eval(n, s, fid):
                    nxt.append((s2, k2, v if k2 != 'v' else acc + [v]))
            res = nxt
        return res

    def concrete_items(self, st, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, NTup):
            return list(v.vals)
        if isinstance(v, (set, frozenset, dict)):
            return list(v)
        if isinstance(v, Ref) and st.heap[v.id].kind == 'list':
            return list(st.heap[v.id].data)
        if isinstance(v, Tag) and v.name == 'range':
            if all(isinstance(x, int) for x in v.args):
                return list(range(*v.args))
        if isinstance(v, Tag) and v.name in ('url', 'urlsplit'):
            return list(self.modelmod.url_items(self, st, v))
        raise Unsupported('unpack of %r' % (v,))

    def eval(self, e, st, fid):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        r = m(e, st, fid)
        if len(r) > 3:
            r = self.merge_results(r)
        return r

    def e_Constant(self, e, st, fid):
        return ok(st, e.value)

    def e_Name(self, e, st, fid):
        return self.lookup(st, fid, e.id)

    def e_JoinedStr(self, e, st, fid):
        res = [(st, 'v', None)]
        parts = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]

        def f(s, vals):
            if not parts:
                return ok(s, ''.join(v.value for v in e.values))
            return self.modelmod.format_fstring(self, s, e, vals)
        return self.bind(self.evals(parts, st, fid), f)

    def e_Tuple(self, e, st, fid):
        return self.bind(self.evals(e.elts, st, fid), lambda s, v: ok(s, tuple(v)))

    def e_List(self, e, st, fid):
        def f(s, v):
            s, r = self.alloc(s, HObj('list', None, tuple(v)))
            return ok(s, r)
        return self.bind(self.evals(e.elts, st, fid), f)

    def e_Set(self, e, st, fid):
        def f(s, v):
            s, r = self.alloc(s, HObj('set', None, tuple(('e', True, x) for x in v)))
            return ok(s, r)
        return self.bind(self.evals(e.elts, st, fid), f)

    def e_Dict(self, e, st, fid):
        ks = [k for k in e.keys if k is not None]

        def f(s, vals):
            d, i = {}, 0
            for k in e.keys:
                if k is None:
                    v = vals[i]
                    i += 1
                    self.overlay(d, self.concrete_dict(s, v))
                else:
                    kk, vv = vals[i], vals[i + 1]
                    i += 2
                    d[self.dict_key(kk)] = vv
            s, r = self.alloc(s, HObj('dict', None, d))
            return ok(s, r)
        nodes = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                nodes.append(v)
            else:
                nodes += [k, v]
        return self.bind(self.evals(nodes, st, fid), f)

    def dict_key(self, k):
        if isinstance(k, (T, U)):
            raise Unsupported('symbolic dictionary key')
        try:
            hash(k)
        except TypeError:
            raise Unsupported('dictionary key %r' % (k,))
        return k

    def overlay(self, d, src):
        """d.update(src): an entry src may lack keeps what d holds."""
        for k, x in src.items():
            gone = self.is_absent(x)
            if gone is False:
                d[k] = x
            else:
                d[k] = self.merge_val(asb(gone), d.get(k, UNBOUND), Not(asb(gone)), self.present(x)) \
                    if x is not UNBOUND else d.get(k, UNBOUND)

    def concrete_dict(self, st, v):
        if isinstance(v, dict):
            return v
        if isinstance(v, Ref) and st.heap[v.id].kind == 'dict':
            return st.heap[v.id].data
        raise Unsupported('mapping %r' % (v,))

    def e_Attribute(self, e, st, fid):
        return self.bind(self.eval(e.value, st, fid), lambda s, v: self.getattr_(s, v, e.attr))

    def e_Subscript(self, e, st, fid):
        if isinstance(e.slice, ast.Slice):
            def f(s, vals):
                return self.modelmod.slice_(self, s, vals[0], *vals[1:])
            none = ast.Constant(value=None)
            return self.bind(self.evals([e.value, e.slice.lower or none, e.slice.upper or none,
                                         e.slice.step or none], st, fid), f)
        return self.bind(self.evals([e.value, e.slice], st, fid),
                         lambda s, v: self.modelmod.getitem(self, s, v[0], v[1]))

    def e_Starred(self, e, st, fid):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, st, fid):
        return self.bind(self.eval(e.value, st, fid),
                         lambda s, v: ok(s.set(self.scope(fid), e.target.id, v), v))

    def scope(self, fid):
        # comprehension frames write walrus targets to the enclosing function
        while self.frames[fid].name == '<comp>':
            fid = self.frames[fid].parent
        return fid

    def e_Lambda(self, e, st, fid):
        def f(s, d):
            return ok(s, Closure(e, fid, self.frames[fid].glob, None, tuple(d)))
        return self.bind(self.evals(e.args.defaults, st, fid), f)

    def e_IfExp(self, e, st, fid):
        def f(s, v):
            out = []
            for s2, b in self.branch(s, self.truth(s, v)):
                out += self.eval(e.body if b else e.orelse, s2, fid)
            return self.merge_results(out)
        return self.bind(self.eval(e.test, st, fid), f)

    def e_BoolOp(self, e, st, fid):
        is_and = isinstance(e.op, ast.And)

        def go(s, i):
            def f(s2, v):
                if i == len(e.values) - 1:
                    return ok(s2, v)
                c = self.truth(s2, v)
                out = []
                for s3, b in self.branch(s2, c):
                    if b == is_and:
                        out += go(s3, i + 1)
                    else:
                        out += ok(s3, v)
                return out
            return self.bind(self.eval(e.values[i], s, fid), f)
        # pure boolean fast path: no forking when all parts evaluate to conditions
        r = self.pure_bool(e, st, fid)
        if r is not None:
            return ok(st, r)
        return self.merge_results(go(st, 0))

    def pure_bool(self, e, st, fid):
        """Evaluate a boolean expression without forking if every operand is a
        total bool expression in the given state."""
        conds = []
        cur = st
        is_and = isinstance(e.op, ast.And)
        for v in e.values:
            try:
                r = self.eval(v, cur, fid)
            except (Unsupported, NeedBounded):
                return None
            if len(r) != 1 or r[0][1] != 'v' or r[0][0].events is not st.events \
                    or r[0][0].heap is not st.heap or r[0][0].frames is not st.frames:
                return None
            if r[0][0].pc is not cur.pc:
                return None
            x = r[0][2]
            if not (isinstance(x, bool) or isinstance(x, T) and x.kind == 'bool'):
                return None
            c = asb(self.truth(cur, x))
            conds.append(c)
            # later operands are only evaluated when the earlier ones allow it
        c = And(*conds) if is_and else Or(*conds)
        c = z3.simplify(c) if z3.is_true(c) or z3.is_false(c) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return T('bool', c)

    def e_UnaryOp(self, e, st, fid):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                c = self.truth(s, v)
                return ok(s, (not c) if isinstance(c, bool) else T('bool', Not(c)))
            return self.modelmod.unop(self, s, e.op, v)
        return self.bind(self.eval(e.operand, st, fid), f)

    def e_BinOp(self, e, st, fid):
        return self.bind(self.evals([e.left, e.right], st, fid),
                         lambda s, v: self.modelmod.binop(self, s, e.op, v[0], v[1]))

    def e_Compare(self, e, st, fid):
        def step(s, left, i, acc):
            def f(s2, right):
                out = []
                for s3, k, c in self.modelmod.compare(self, s2, e.ops[i], left, right):
                    if k != 'v':
                        out.append((s3, k, c))
                        continue
                    cc = c if isinstance(c, bool) else (c.t if isinstance(c, T) else c)
                    na = cc if acc is True else And(acc, asb(cc))
                    if i == len(e.ops) - 1:
                        out += ok(s3, na if isinstance(na, bool) else self.mkbool(na))
                    else:
                        for s4, b in self.branch(s3, na):
                            if b:
                                out += step(s4, right, i + 1, True)
                            else:
                                out += ok(s4, False)
                return out
            return self.bind(self.eval(e.comparators[i], s, fid), f)
        return self.bind(self.eval(e.left, st, fid), lambda s, l: step(s, l, 0, True))

    def mkbool(self, c):
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return T('bool', c)

    def e_Call(self, e, st, fid):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = self.frames[fid]
            while f.cls is None and f.parent is not None:
                f = self.frames[f.parent]
            return ok(st, SuperV(f.cls, st.frames[f.fid][f.selfname]))

        def f1(s, fn):
            def f2(s2, args):
                kn = [k for k in e.keywords]

                def f3(s3, kv):
                    kw = {}
                    for k, v in zip(kn, kv):
                        if k.arg is None:
                            for kk, vv in self.concrete_dict(s3, v).items():
                                kw[kk] = vv
                        else:
                            kw[k.arg] = v
                    return self.call(s3, fn, args, kw, fid)
                return self.bind(self.evals([k.value for k in kn], s2, fid), f3)
            return self.bind(self.evals_args(e.args, s, fid), f2)
        return self.bind(self.eval(e.func, st, fid), f1)

    def evals_args(self, args, st, fid):
        res = [(st, 'v', [])]
        for n in args:
            if isinstance(n, ast.GeneratorExp):
                res = self.bind(res, lambda s, acc, n=n: ok(s, acc + [Tag('gen', n, fid)]))
            else:
                def g(s, acc, n=n):
                    return self.bind(self.evals([n], s, fid), lambda s2, v: ok(s2, acc + v))
                res = self.bind(res, g)
        return res

    def e_GeneratorExp(self, e, st, fid):
        return ok(st, Tag('gen', e, fid))

    def e_ListComp(self, e, st, fid):
        return self.comp(e, st, fid, 'list')

    def e_SetComp(self, e, st, fid):
        return self.comp(e, st, fid, 'set')

    def e_DictComp(self, e, st, fid):
        return self.comp(e, st, fid, 'dict')

    def comp(self, e, st, fid, kind):
        """Comprehensions run as the equivalent loop in their own frame."""
        cf = self.newfid()
        self.frames[cf] = Frame(cf, self.frames[fid].glob, None, fid, '<comp>', set())
        init = {'list': HObj('list', None, ()), 'set': HObj('set', None, ()),
                'dict': HObj('dict', None, {})}[kind]
        st, acc = self.alloc(st, init)
        st = st.set(cf, '$acc', acc)
        if kind == 'dict':
            body = ast.Assign(targets=[ast.Subscript(value=ast.Name(id='$acc', ctx=ast.Load()),
                                                     slice=e.key, ctx=ast.Store())], value=e.value)
        else:
            meth = 'append' if kind == 'list' else 'add'
            body = ast.Expr(value=ast.Call(func=ast.Attribute(
                value=ast.Name(id='$acc', ctx=ast.Load()), attr=meth, ctx=ast.Load()),
                args=[e.elt], keywords=[]))
        loop = self.comp_loop(e, body)
        out = []
        for s, k, v in self.exec_stmt(loop, st, cf):
            if k == 'n':
                out.append((s.drop_frame(cf), 'v', s.frames[cf]['$acc']))
            elif k == 'x':
                out.append((s.drop_frame(cf), 'x', v))
            else:
                raise Unsupported('comprehension outcome')
        return out

    def comp_loop(self, e, body):
        key = (id(e), id(type(body)))
        cache = self.src.synth
        if (id(e), 'loop') in cache and isinstance(body, (ast.Assign, ast.Expr)):
            return cache[(id(e), 'loop')][0]
        stmt = body
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                stmt = ast.If(test=c, body=[stmt], orelse=[])
            stmt = ast.For(target=g.target, iter=g.iter, body=[stmt], orelse=[], type_comment=None)
        cache[(id(e), 'loop')] = (stmt, e)
        return stmt

    def gen_quant(self, st, gen, is_all):
        """all()/any() over a generator expression."""
        e, fid = gen.args
        cf = self.newfid()
        self.frames[cf] = Frame(cf, self.frames[fid].glob, None, fid, '<comp>', set())
        # pure path: the element condition does not fork
        r = self.gen_pure(st, e, cf, is_all)
        if r is not None:
            return ok(st, self.mkbool(r))
        test = e.elt if not is_all else ast.UnaryOp(op=ast.Not(), operand=e.elt)
        key = (id(e), 'quant', is_all)
        if key not in self.src.synth:
            stmt = ast.If(test=test, body=[ast.Return(value=ast.Constant(value=not is_all))], orelse=[])
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    stmt = ast.If(test=c, body=[stmt], orelse=[])
                stmt = ast.For(target=g.target, iter=g.iter, body=[stmt], orelse=[], type_comment=None)
            self.src.synth[key] = (stmt, e)
        stmt = self.src.synth[key][0]
        out = []
        st = st.set(cf, '$', None)
        for s, k, v in self.exec_stmt(stmt, st, cf):
            s = s.drop_frame(cf)
            if k == 'n':
                out.append((s, 'v', is_all))
            elif k == 'r':
                out.append((s, 'v', v))
            else:
                out.append((s, k, v))
        return self.merge_results(out)

    def gen_pure(self, st, e, cf, is_all):
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        try:
            ri = self.eval(g.iter, st, self.frames[cf].parent)
            if len(ri) != 1 or ri[0][1] != 'v':
                return None
            s0, _, itv = ri[0]
            if s0.pc is not st.pc or s0.events is not st.events:
                return None
            its = self.iterate(s0, itv)
            if len(its) != 1 or its[0][1] != 'v' or its[0][0].pc is not st.pc:
                return None
            it = its[0][2]

            def cond(s, item):
                r = self.assign(g.target, item, s.set(cf, '$', None), cf)
                if len(r) != 1 or r[0][1] != 'n':
                    return None
                s1 = r[0][0]
                conds = []
                for ex in g.ifs + [e.elt]:
                    rr = self.eval(ex, s1, cf)
                    if len(rr) != 1 or rr[0][1] != 'v' or rr[0][0].pc is not s1.pc \
                            or rr[0][0].events is not st.events:
                        return None
                    conds.append(asb(self.truth(rr[0][0], rr[0][2])))
                guard = And(*conds[:-1])
                return Implies(guard, conds[-1]) if is_all else And(guard, conds[-1])
            if it[0] == 'conc':
                cs = []
                for item in it[1]:
                    c = cond(s0, item)
                    if c is None:
                        return None
                    cs.append(c)
                return And(*cs) if is_all else Or(*cs)
            if it[0] == 'guarded':
                cs = []
                for gd, item in it[1]:
                    c = cond(s0, item)
                    if c is None:
                        return None
                    cs.append(Implies(gd, c) if is_all else And(gd, c))
                return And(*cs) if is_all else Or(*cs)
            if it[0] == 'sym' and not self.bounded:
                n, at = it[1], it[2]
                k = tm.fresh(tm.Int, 'j')
                s1 = s0.assume(k >= 0, k < n)
                p1 = s1.pc
                c = cond(s1, at(k))
                if c is None:
                    return None
                rng = And(k >= 0, k < n)
                return z3.ForAll([k], Implies(rng, c)) if is_all else z3.Exists([k], And(rng, c))
        except (Unsupported, NeedBounded):
            return None
        return None

    # ------------------------------------------------------------- attributes
    def getattr_(self, st, v, name, default=None, has_default=False):
        out = []
        for s, x in self.spread(st, v):
            out += self.getattr1(s, x, name)
        if has_default:
            out = [(s, 'v', default) if k == 'x' and issubclass(w.cls, AttributeError) else (s, k, w)
                   for s, k, w in out]
        return self.merge_results(out)

    def getattr1(self, st, v, name):
        if v is POISON:
            raise NeedBounded('loop-carried value')
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if h.kind == 'obj':
                if name == '__dict__':
                    st, r = self.alloc(st, HObj('dict', v, dict(h.data)))
                    return ok(st, r)
                if name == '__class__':
                    return ok(st, h.cls)
                if name in h.data:
                    return self.bound(st, h.data[name], name, AttributeError)
                if h.pre and stored(h.cls, name):
                    raise Unsupported('instance state %s' % name)
                return self.class_attr(st, v, h.cls, name)
            if h.kind == 'acc' and name not in ('append', 'add'):
                raise NeedBounded('accumulator read in loop')
            ty = {'list': list, 'symlist': h.cls or list, 'dict': dict, 'set': set, 'enumset': set}.get(h.kind)
            if ty is not None and not hasattr(ty(), name):
                return err(st, AttributeError, name)
            return ok(st, Method(v, name))
        if isinstance(v, SObj):
            if name in v.fields:
                return ok(st, v.fields[name])
            if name == '__class__':
                return ok(st, v.cls)
            return self.class_attr(st, v, v.cls, name)
        if isinstance(v, NTup):
            fs = v.cls._fields
            if name in fs:
                return ok(st, v.vals[fs.index(name)])
            if name in ('_asdict', '_replace'):
                return ok(st, Method(v, name))
            return self.class_attr(st, v, v.cls, name)
        if isinstance(v, SuperV):
            o = v.self
            cls = self.class_of(st, o)
            mro = cls.__mro__
            for c in mro[mro.index(v.cls) + 1:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, pytypes.FunctionType):
                        return ok(st, Bound(o, a))
                    if c is object:
                        return ok(st, Method(Tag('object'), name))
                    raise Unsupported('super attribute %s' % name)
            return err(st, AttributeError, name)
        if isinstance(v, T):
            if v.kind == 'enum':
                return self.enum_attr(st, v, name)
            if v.kind == 'any':
                out = []
                for s, x in self.spread_any(st, v):
                    if isinstance(x, T) and x.kind == 'any':
                        if name == '__dict__':
                            if self.feasible(s, V.is_vother(x.t)):
                                raise Unsupported('attributes of an unknown value')
                            out += err(s, AttributeError, name)
                            continue
                        out += ok(s, Method(x, name))
                    else:
                        out += self.getattr1(s, x, name)
                return out
            if v.kind == 'opq':
                return self.modelmod.opq_getattr(self, st, v, name)
            ty = {'str': str, 'bytes': bytes, 'int': int, 'bool': bool}[v.kind]
            if hasattr(ty(), name):
                if name == '__class__':
                    return ok(st, ty)
                return ok(st, Method(v, name))
            return err(st, AttributeError, name)
        if isinstance(v, TypeOf):
            if name in ('__name__', '__qualname__', '__module__'):
                return ok(st, T('str', tm.fresh(tm.Str, 'msg')))
            raise Unsupported('attribute %s of a type' % name)
        if isinstance(v, Tag):
            return self.modelmod.tag_getattr(self, st, v, name)
        if isinstance(v, ExcV):
            if name == 'args':
                return ok(st, v.args)
            if name in ('with_traceback', 'add_note'):
                return ok(st, Method(v, name))
            if not v.known:
                raise Unsupported('attribute of an unknown exception')
            if isinstance(getattr(v.cls, name, None), pytypes.FunctionType):
                return ok(st, Bound(v, getattr(v.cls, name)))
            raise Unsupported('exception attribute %s' % name)
        if isinstance(v, (Closure, Bound, Method)):
            if name in ('__name__', '__qualname__', '__doc__'):
                return ok(st, T('str', tm.fresh(tm.Str, 'msg')))
            raise Unsupported('function attribute')
        if v is None:
            return err(st, AttributeError, name)
        if isinstance(v, (bool, int, float, str, bytes, tuple, list, dict, set, frozenset)):
            if hasattr(v, name):
                return ok(st, Method(v, name))
            return err(st, AttributeError, name)
        if isinstance(v, enum.Enum):
            return self.real_attr(st, v, name)
        # real object: module, class, function, singleton
        return self.real_attr(st, v, name)

    def real_attr(self, st, v, name):
        if isinstance(v, enum.Enum):
            a = None
            for c in type(v).__mro__:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    break
            if isinstance(a, property) and self.src.is_package(a.fget):
                return self.call(st, a.fget, [v], {}, None)
            if isinstance(a, pytypes.FunctionType) and self.src.is_package(a):
                return ok(st, Bound(v, a))
        try:
            a = getattr(v, name)
        except AttributeError:
            return err(st, AttributeError, name)
        if isinstance(a, pytypes.MethodType) and self.src.is_package(a.__func__):
            return ok(st, Bound(a.__self__, a.__func__))
        if not isinstance(v, (type, pytypes.ModuleType, pytypes.FunctionType, enum.Enum,
                              pytypes.BuiltinFunctionType)):
            if isinstance(a, (pytypes.BuiltinMethodType, pytypes.MethodType)):
                return ok(st, Method(v, name))
        return ok(st, a)

    def class_of(self, st, o):
        if isinstance(o, Ref):
            return st.heap[o.id].cls
        if isinstance(o, (SObj, NTup, ExcV)):
            return o.cls
        return type(o)

    def class_attr(self, st, o, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, property):
                    if not self.src.is_package(a.fget):
                        raise Unsupported('property')
                    return self.call(st, a.fget, [o], {}, None)
                if isinstance(a, staticmethod):
                    return ok(st, a.__func__)
                if isinstance(a, classmethod):
                    return ok(st, Bound(cls, a.__func__))
                if isinstance(a, pytypes.FunctionType):
                    return ok(st, Bound(o, a))
                if callable(a) and not isinstance(a, type):
                    return ok(st, Method(o, name))
                if hasattr(type(a), '__get__'):
                    raise Unsupported('descriptor %s' % name)
                return ok(st, a)
        return err(st, AttributeError, name)

    def enum_attr(self, st, v, name):
        ms = members(v.cls)
        if name in ('name', 'value', '_name_', '_value_'):
            vals = [(v.t == enum_term(m), getattr(m, name)) for m in ms]
            vals = [(g, x) for g, x in vals if self.feasible(st, g)]
            groups = []
            for g, x in vals:
                for i, (h, y) in enumerate(groups):
                    if self.same(x, y):
                        groups[i] = (Or(h, g), y)
                        break
                else:
                    groups.append((g, x))
            if not groups:
                return []
            return ok(st, groups[0][1] if len(groups) == 1 else U(groups))
        if name == '__class__':
            return ok(st, TypeOf(v))
        out = []
        for m in ms:
            g = v.t == enum_term(m)
            if self.feasible(st, g):
                out += self.getattr1(st.assume(g), m, name)
        return self.merge_results(out)

    def setattr_(self, st, o, name, v):
        out = []
        for s, x in self.spread(st, o):
            if isinstance(x, Ref) and s.heap[x.id].kind == 'obj':
                h = s.heap[x.id]
                if any(y.kind == 'dict' and isinstance(y.cls, Ref) and y.cls.id == x.id for y in s.heap.values()):
                    raise Unsupported('attribute assignment after __dict__')
                d = dict(h.data)
                d[name] = v
                out.append((s.put(x, h.with_(d)), 'n', None))
            elif isinstance(x, SObj):
                out.append((s.event('write', 'attribute %s of an input object' % name).note('abs'), 'n', None))
            elif x is None:
                out += err(s, AttributeError, name)
            elif isinstance(x, (Closure, ExcV)):
                raise Unsupported('attribute assignment')
            else:
                raise FrameBroken('assignment to attribute of %r' % (x,))
        return out

    # ------------------------------------------------------------------ calls
    def call(self, st, fn, args, kw, fid):
        self.tick()
        out = []
        for s, f in self.spread(st, fn):
            if any(v is UNBOUND or isinstance(v, U) and any(x is UNBOUND for _, x in v.alts) for v in kw.values()):
                for s2, kw2 in self.present_args(s, f, kw):
                    out += self.call1(s2, f, list(args), kw2, fid)
                continue
            out += self.call1(s, f, list(args), dict(kw), fid)
        return self.merge_results(out)

    def present_args(self, st, fn, kw):
        """Keyword arguments taken from a mapping whose entries may be missing:
        a missing entry means the parameter's default, or no argument at all."""
        try:
            ps = inspect.signature(fn.fn if isinstance(fn, Bound) else fn).parameters
        except (TypeError, ValueError):
            ps = {}
        res = [(st, {})]
        for n, v in kw.items():
            new = []
            for s, d in res:
                gone = asb(self.is_absent(v))
                if self.entailed(s, Not(gone)):
                    new.append((s, {**d, n: self.present(v)}))
                    continue
                if not self.feasible(s, Not(gone)):
                    new.append((s, d))
                    continue
                p = ps.get(n)
                if p is not None and (p.default is None or isinstance(p.default, (bool, int, str, bytes, enum.Enum))):
                    new.append((s, {**d, n: self.merge_val(gone, p.default, Not(gone), self.present(v))}))
                    continue
                new.append((s.assume(gone), d))
                new.append((s.assume(Not(gone)), {**d, n: self.present(v)}))
            res = new
            if len(res) > 64:
                raise Unsupported('many optional keyword arguments')
        return res

    def present(self, v):
        if isinstance(v, U):
            alts = [(g, self.present(x)) for g, x in v.alts if x is not UNBOUND]
            return alts[0][1] if len(alts) == 1 else U(alts)
        return v

    def call1(self, st, fn, args, kw, fid):
        if fn is POISON:
            raise NeedBounded('loop-carried value')
        if isinstance(fn, Bound):
            return self.call1(st, fn.fn, [fn.self] + args, kw, fid)
        if isinstance(fn, Closure):
            return self.call_closure(st, fn, args, kw)
        if isinstance(fn, Method) and isinstance(fn.recv, struct.Struct):
            fn, args = getattr(struct, fn.name), [fn.recv.format] + args
        if isinstance(fn, Method):
            return self.modelmod.call_method(self, st, fn.recv, fn.name, args, kw, fid)
        if isinstance(fn, Tag):
            return self.modelmod.call_tag(self, st, fn, args, kw, fid)
        if isinstance(fn, TypeOf):
            raise Unsupported('call of a computed type')
        if isinstance(fn, Ref):
            h = st.heap[fn.id]
            if h.kind == 'obj' and isinstance(getattr(h.cls, '__call__', None), pytypes.FunctionType):
                return self.call1(st, getattr(h.cls, '__call__'), [fn] + args, kw, fid)
            return err(st, TypeError, 'not callable')
        if isinstance(fn, (T, SObj, NTup, ExcV)) or fn is None or is_scalar(fn):
            if isinstance(fn, T) and fn.kind in ('any', 'opq'):
                raise Unsupported('call of an unknown value')
            return err(st, TypeError, 'not callable')
        c = self.contracts.get(id(fn))
        if c is not None and self.enter == id(fn):
            self.enter = c = None
        if c is not None and id(fn) not in self.inline:
            r = c.summary(self, st, args, kw)
            if r is not None:
                self.used_contracts.add(c.name)
                return r
        try:
            m = self.models.get(fn)
        except TypeError:
            m = None
        if m is not None:
            self.used_models.add('%s.%s' % (getattr(fn, '__module__', None) or getattr(getattr(fn, '__self__', None), '__name__', ''), getattr(fn, '__qualname__', fn)))
            return m(self, st, args, kw, fid)
        if hasattr(fn, 'registry') and hasattr(fn, 'dispatch'):
            return self.call_dispatch(st, fn, args, kw, fid)
        if isinstance(fn, pytypes.FunctionType) and fn.__code__ is CONTEXT_HELPER and \
                isinstance(fn.__wrapped__, pytypes.FunctionType):
            return ok(st, Tag('context', fn.__wrapped__, args, kw))
        if isinstance(fn, pytypes.FunctionType):
            if self.src.is_package(fn):
                return self.call_function(st, fn, args, kw)
            return self.modelmod.call_external(self, st, fn, args, kw)
        if isinstance(fn, pytypes.MethodType):
            return self.call1(st, fn.__func__, [fn.__self__] + args, kw, fid)
        if isinstance(fn, type):
            return self.instantiate(st, fn, args, kw, fid)
        import functools
        if isinstance(fn, functools.partial):
            return self.call1(st, fn.func, list(fn.args) + args, {**fn.keywords, **kw}, fid)
        w = getattr(fn, '__wrapped__', None)
        if isinstance(fn, functools._lru_cache_wrapper):
            # equal texts, byte strings and members are the same: what is remembered is what would be computed again
            def plain(x):
                if isinstance(x, (T, enum.Enum)) and (not isinstance(x, T) or x.kind == 'enum'):
                    cs = {type(m) for m in members(x.cls)} if isinstance(x, T) else {type(x)}
                    return all(c.__eq__ is object.__eq__ and c.__hash__ is enum.Enum.__hash__ for c in cs)
                return type(x) in (str, bytes) or isinstance(x, T) and x.kind in ('str', 'bytes')
            vals = list(args) + list(kw.values())
            if callable(w) and all(plain(x) for x in vals):
                res = self.call1(st, w, args, kw, fid)
                if all(k != 'v' or x is None or type(x) in (str, bytes, int, bool) or isinstance(x, (type, enum.Enum)) or
                       isinstance(x, T) and x.kind in ('str', 'bytes', 'int', 'bool', 'enum') for _, k, x in res):
                    return res
            raise Unsupported('memoised function %s' % getattr(fn, '__name__', '?'))
        return self.modelmod.call_external(self, st, fn, args, kw)

    def call_dispatch(self, st, fn, args, kw, fid):
        if not args:
            return err(st, TypeError, 'singledispatch needs a positional argument')
        out = []
        for s, a in self.spread(st, args[0]):
            rest = [a] + args[1:]
            if isinstance(a, T) and a.kind == 'any':
                groups = {}
                for k, p in ((type(None), V.is_vnone), (bool, V.is_vbool), (int, V.is_vint),
                             (float, V.is_vflt), (str, V.is_vstr), (bytes, V.is_vbytes),
                             (list, V.is_vlist), (tuple, V.is_vtuple), (dict, V.is_vdict),
                             (object, V.is_vother)):
                    groups.setdefault(fn.dispatch(k), []).append(p(a.t))
                for impl, ps in groups.items():
                    c = Or(*ps) if len(groups) > 1 else True
                    if self.feasible(s, asb(c)):
                        out += self.call1(s.assume(c), impl, rest, kw, fid)
                continue
            if isinstance(a, T) and a.kind == 'enum':
                groups = {}
                for m in members(a.cls):
                    groups.setdefault(fn.dispatch(type(m)), []).append(a.t == enum_term(m))
                for impl, ps in groups.items():
                    c = Or(*ps) if len(groups) > 1 else True
                    if self.feasible(s, asb(c)):
                        out += self.call1(s.assume(c), impl, rest, kw, fid)
                continue
            out += self.call1(s, fn.dispatch(self.dispatch_type(s, a)), rest, kw, fid)
        return out

    def dispatch_type(self, st, a):
        if isinstance(a, Ref):
            h = st.heap[a.id]
            return {'list': list, 'symlist': h.cls or list, 'dict': dict, 'set': set, 'enumset': set}.get(h.kind, h.cls)
        if isinstance(a, (SObj, NTup)):
            return a.cls
        if isinstance(a, T):
            return {'bool': bool, 'int': int, 'str': str, 'bytes': bytes}.get(a.kind, object)
        return type(a)

    def bind_params(self, a, args, kw, defaults, kwdefaults):
        """Bind arguments to parameters -> dict or None (TypeError)."""
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(pos) and a.vararg is None:
            return None
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for n, v in kw.items():
            if n in env and n in pos:
                return None
            if n in pos or n in kwo:
                env[n] = v
            elif a.kwarg is not None:
                extra[n] = v
            else:
                return None
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        for n, d in zip(pos[len(pos) - len(defaults):], defaults):
            env.setdefault(n, d)
        for n in kwo:
            if n not in env and n in kwdefaults:
                env[n] = kwdefaults[n]
        if any(n not in env for n in pos + kwo):
            return None
        return env

    def call_function(self, st, fn, args, kw, hook=None):
        node, cls = self.src.find(fn)
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                if n != '__class__':
                    cells[n] = c.cell_contents
        self.visited.add(fn.__module__ + '.' + fn.__qualname__)
        return self.run(st, node, fn.__globals__, cls, None, args, kw, fn.__defaults__ or (),
                        fn.__kwdefaults__ or {}, cells, fn.__name__, hook)

    def call_closure(self, st, c, args, kw):
        return self.run(st, c.node, c.glob, c.cls, c.fid, args, kw, c.defaults, c.kwdefaults, {},
                        getattr(c.node, 'name', '<lambda>'))

    def run(self, st, node, glob, cls, parent, args, kw, defaults, kwdefaults, cells, name, hook=None):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported('recursion depth')
        try:
            env = self.bind_params(node.args, args, kw, defaults, kwdefaults)
            if env is None:
                return err(st, TypeError, 'bad arguments')
            fid = self.newfid()
            allp = node.args.posonlyargs + node.args.args
            self.frames[fid] = Frame(fid, glob, cls, parent, name, self.src.locals_of(node),
                                     allp[0].arg if allp else None, cells)
            ka = node.args.kwarg
            if ka is not None:
                st, r = self.alloc(st, HObj('dict', None, dict(env[ka.arg])))
                env[ka.arg] = r
            st = st.copy()
            st.frames = dict(st.frames)
            st.frames[fid] = env
            if isinstance(node, ast.Lambda):
                return [(s.drop_frame(fid), k, v) for s, k, v in self.eval(node.body, st, fid)]
            if hook is not None:
                self.frames[fid].hook = (hook, node)
            elif self.src.is_generator(node):
                raise Unsupported('generator function %s' % name)
            out = []
            for s, k, v in self.exec_block(node.body, st, fid):
                if hook is not None and k != 'x' and not s.frames[fid].get('$yielded'):
                    raise Unsupported('context manager that does not yield')
                s = s.drop_frame(fid)
                if k == 'n':
                    out.append((s, 'v', None))
                elif k == 'r':
                    out.append((s, 'v', v))
                elif k == 'x':
                    out.append((s, 'x', v))
                else:
                    raise Unsupported('loop control outside loop')
            return self.merge_results(out)
        finally:
            self.depth -= 1

    def instantiate(self, st, cls, args, kw, fid):
        if issubclass(cls, BaseException):
            return ok(st, ExcV(cls, tuple(args)))
        if issubclass(cls, enum.Enum):
            return self.modelmod.enum_lookup(self, st, cls, args)
        meta = type(cls)
        if meta is not type and self.src.is_package(getattr(meta, '__call__', None)):
            return self.call1(st, meta.__call__, [cls] + args, kw, fid)
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            fs = cls._fields
            if '__new__' in cls.__dict__ and self.src.is_package(cls.__dict__['__new__']):
                raise Unsupported('__new__')
            vals = dict(zip(fs, args))
            if len(args) > len(fs) or any(k in vals or k not in fs for k in kw):
                return err(st, TypeError, 'bad arguments')
            vals.update(kw)
            for k, d in getattr(cls, '_field_defaults', {}).items():
                vals.setdefault(k, d)
            if any(f not in vals for f in fs):
                return err(st, TypeError, 'missing arguments')
            return ok(st, NTup(cls, [vals[f] for f in fs]))
        if cls.__module__.split('.')[0] == self.src.package and not any(
                b.__module__.startswith('pyasn1.') for b in cls.__mro__):
            if cls.__new__ is not object.__new__:
                raise Unsupported('__new__ of %s' % cls.__name__)
            init = cls.__init__
            import dataclasses
            st, r = self.alloc(st, HObj('obj', cls, {}))
            if isinstance(init, pytypes.FunctionType) and self.src.is_package(init) and self.src.has_source(init):
                out = []
                for s, k, v in self.call1(st, init, [r] + args, kw, fid):
                    out.append((s, k, r if k == 'v' else v))
                return out
            if dataclasses.is_dataclass(cls):
                fl = [f for f in dataclasses.fields(cls) if f.init]
                fs = [f.name for f in fl if not f.kw_only]
                vals = dict(zip(fs, args))
                names = [f.name for f in fl]
                if len(args) > len(fs) or any(k in vals or k not in names for k in kw):
                    return err(st, TypeError, 'bad arguments')
                vals.update(kw)
                for f in fl:
                    if f.name not in vals:
                        if f.default is not dataclasses.MISSING:
                            vals[f.name] = f.default
                        else:
                            if f.default_factory is not dataclasses.MISSING:
                                raise Unsupported('default factory')
                            return err(st, TypeError, 'missing arguments')
                if hasattr(cls, '__post_init__'):
                    raise Unsupported('__post_init__')
                return ok(st.put(r, HObj('obj', cls, vals)), r)
            if init is object.__init__:
                if args or kw:
                    return err(st, TypeError, 'takes no arguments')
                return ok(st, r)
            raise Unsupported('constructor of %s' % cls.__name__)
        return self.modelmod.call_external(self, st, cls, args, kw)

    # -------------------------------------------------------------- iteration
    def iterate(self, st, v):
        """-> results whose value is ('conc', [values]) | ('sym', n, at) |
        ('guarded', [(guard, value)])"""
        out = []
        for s, x in self.spread(st, v):
            out += self.iterate1(s, x)
        return out

    def iterate1(self, st, x):
        if x is POISON:
            raise NeedBounded('loop-carried value')
        if isinstance(x, (tuple, list)):
            return ok(st, ('conc', list(x)))
        if isinstance(x, NTup):
            return ok(st, ('conc', list(x.vals)))
        if isinstance(x, Tag) and x.name in ('url', 'urlsplit'):
            return ok(st, ('conc', list(self.modelmod.url_items(self, st, x))))
        if isinstance(x, (set, frozenset)):
            return ok(st, ('conc', sorted(x, key=repr)))
        if isinstance(x, dict):
            return ok(st, ('conc', list(x)))
        if isinstance(x, str):
            return ok(st, ('conc', list(x)))
        if isinstance(x, bytes):
            return ok(st, ('conc', list(x)))
        if isinstance(x, enum.EnumMeta):
            return ok(st, ('conc', list(x)))
        if isinstance(x, Ref):
            h = st.heap[x.id]
            if h.kind == 'list':
                return ok(st, ('conc', list(h.data)))
            if h.kind == 'symlist':
                n, k, val = h.data
                return ok(st, ('sym', n, lambda i: subst(val, k, i)))
            if h.kind == 'dict':
                items = [(Not(asb(self.is_absent(v))), k) for k, v in h.data.items()]
                if all(z3.is_true(asb(g)) for g, _ in items):
                    return ok(st, ('conc', [k for _, k in items]))
                return ok(st, ('guarded', items))
            if h.kind == 'enumset':
                return ok(st, ('guarded', [(g, m) for m, g in h.data.items()]))
            if h.kind == 'set':
                if all(e[0] == 'e' for e in h.data):
                    return ok(st, ('guarded', [(e[1], e[2]) for e in h.data]))
                if len(h.data) == 1 and h.data[0][0] == 'dk':
                    d = h.data[0][1]
                    return ok(self.dict_facts(st, d),
                              ('sym', tm.dlen(d), lambda i: T('any', tm.dkey(d, i))))
                raise Unsupported('iteration over a symbolic set')
            if h.kind == 'acc':
                raise NeedBounded('accumulator read in loop')
            if h.kind == 'obj':
                return err(st, TypeError, 'not iterable')
        if isinstance(x, T):
            if x.kind == 'any':
                t = x.t
                out = []
                seq = Or(V.is_vlist(t), V.is_vtuple(t))
                if self.possible(st, seq):
                    out += ok(st.assume(seq, tm.llen(t) >= 0, tm.llen(t) < 2 ** 63),
                              ('sym', tm.llen(t), lambda i: T('any', tm.lat(t, i), x.cls)))
                if self.possible(st, V.is_vdict(t)):
                    out += ok(self.dict_facts(st.assume(V.is_vdict(t)), t),
                              ('sym', tm.dlen(t), lambda i: T('any', tm.dkey(t, i), x.cls)))
                bad = Or(V.is_vnone(t), V.is_vbool(t), V.is_vint(t), V.is_vflt(t))
                if self.possible(st, bad):
                    out += err(st.assume(bad), TypeError, 'not iterable')
                if self.possible(st, V.is_vother(t)):
                    raise Unsupported('iteration over an unknown value')
                for p, k, f in ((V.is_vstr, "str", V.us), (V.is_vbytes, "bytes", V.uy)):
                    if self.possible(st, p(t)):
                        out += self.iterate(st.assume(p(t)), T(k, f(t)))
                return out
            if x.kind == 'bytes':
                return ok(st, ('sym', z3.Length(x.t), lambda i: T('int', x.t[i])))
            if x.kind == 'str':
                return ok(st, ('sym', z3.Length(x.t), lambda i: T('str', z3.SubString(x.t, i, 1))))
            if x.kind in ('int', 'bool'):
                return err(st, TypeError, 'not iterable')
            if x.kind == 'opq':
                from .libs import asn_iterate
                return asn_iterate(self, st, x)
            raise Unsupported('iteration over %s' % x.kind)
        if x is None or isinstance(x, (int, float)):
            return err(st, TypeError, 'not iterable')
        if isinstance(x, Tag):
            return self.modelmod.iterate_tag(self, st, x)
        raise Unsupported('iteration over %r' % (x,))

    def dict_facts(self, st, d):
        """Relation between membership and key enumeration of a decoded dict."""
        from .ops import unhashable
        i = z3.Int('i!df')
        k = z3.Const('k!df', V)
        mark = 'dfacts:%d' % d.get_id()
        if mark in st.notes:
            return st
        if tm.has_ite(d):
            d0, d = d, tm.fresh(V, 'dct')
            st = st.assume(d == d0, tm.dlen(d) == tm.dlen(d0))
        idx = tm.uf('dkey_idx', V, V, tm.Int)
        key = tm.dkey(d, i)
        norm = z3.If(V.is_vbool(key), V.vint(z3.If(V.ub(key), tm.I(1), tm.I(0))),
                     z3.If(And(V.is_vflt(key), tm.flt_isint(V.uf(key))), V.vint(tm.flt_int(V.uf(key))), key))
        a1 = z3.ForAll([i], Implies(And(i >= 0, i < tm.dlen(d)),
                                    And(tm.dhas(d, norm), idx(d, norm) == i, Not(unhashable(key)))),
                       patterns=[tm.dkey(d, i)])
        kk = tm.dkey(d, idx(d, k))
        nkk = z3.substitute(norm, (i, idx(d, k)))
        a2 = z3.ForAll([k], Implies(tm.dhas(d, k), And(idx(d, k) >= 0, idx(d, k) < tm.dlen(d), nkk == k)),
                       patterns=[tm.dhas(d, k)])
        return st.assume(tm.dlen(d) >= 0, a1, a2).note(mark)

    # ------------------------------------------------------------- statements
    def exec_block(self, body, st, fid):
        states = [(st, 'n', None)]
        out = []
        for stmt in body:
            nxt = []
            for s, _, _ in states:
                for r in self.exec_stmt(stmt, s, fid):
                    (nxt if r[1] == 'n' else out).append(r)
            if not nxt:
                states = []
                break
            if len(nxt) > 1:
                nxt = [(s, 'n', None) for s in self.merge([r[0] for r in nxt])]
            states = nxt
        return out + states

    def exec_stmt(self, n, st, fid):
        self.tick()
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        return m(n, st, fid)

    def vn(self, res, f):
        """bind for statements: f returns statement outcomes."""
        out = []
        for s, k, v in res:
            if k == 'v':
                out.extend(f(s, v))
            else:
                out.append((s, k, v))
        return out

    def s_Expr(self, n, st, fid):
        if isinstance(n.value, ast.Constant):
            return [(st, 'n', None)]
        if isinstance(n.value, ast.Yield) and self.frames[fid].hook is not None:
            hook, node = self.frames[fid].hook

            def f(s, v):
                if s.frames[fid].get('$yielded'):
                    raise Unsupported('context manager that yields twice')
                out = []
                for s1, k, w in hook(s.set(fid, '$yielded', True), v):
                    if k in 'rbc':
                        # the function is resumed, and control leaves when it ends: nothing may come after
                        if not last_statement(node.body, n):
                            raise Unsupported('jump out of a context manager')
                        out.append((s1, 'r', Tag('leave', k, w)))
                    else:
                        out.append((s1, k, w))
                return out
            return self.vn(self.eval(n.value.value, st, fid) if n.value.value is not None else ok(st, None), f)
        return self.vn(self.eval(n.value, st, fid), lambda s, v: [(s, 'n', None)])

    def s_Pass(self, n, st, fid):
        return [(st, 'n', None)]

    def s_Return(self, n, st, fid):
        if n.value is None:
            return [(st, 'r', None)]
        return self.vn(self.eval(n.value, st, fid), lambda s, v: [(s, 'r', v)])

    def s_Assign(self, n, st, fid):
        def f(s, v):
            res = [(s, 'n', None)]
            for t in n.targets:
                nxt = []
                for s2, k, w in res:
                    if k != 'n':
                        nxt.append((s2, k, w))
                    else:
                        nxt += self.assign(t, v, s2, fid)
                res = nxt
            return res
        return self.vn(self.eval(n.value, st, fid), f)

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            return [(st, 'n', None)]
        return self.vn(self.eval(n.value, st, fid), lambda s, v: self.assign(n.target, v, s, fid))

    def s_AugAssign(self, n, st, fid):
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.Name(id=t.id, ctx=ast.Load())
            return self.vn(self.evals([load, n.value], st, fid), lambda s, v: self.vn(
                self.modelmod.binop(self, s, n.op, v[0], v[1], inplace=True),
                lambda s2, w: self.assign(t, w, s2, fid)))
        if isinstance(t, ast.Attribute):
            return self.vn(self.evals([t.value, n.value], st, fid), lambda s, v: self.vn(
                self.getattr_(s, v[0], t.attr), lambda s1, cur: self.vn(
                    self.modelmod.binop(self, s1, n.op, cur, v[1], inplace=True),
                    lambda s2, w: self.setattr_(s2, v[0], t.attr, w))))
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            return self.vn(self.evals([t.value, t.slice, n.value], st, fid), lambda s, v: self.vn(
                self.modelmod.getitem(self, s, v[0], v[1]), lambda s1, cur: self.vn(
                    self.modelmod.binop(self, s1, n.op, cur, v[2], inplace=True),
                    lambda s2, w: self.modelmod.setitem(self, s2, v[0], v[1], w))))
        raise Unsupported('augmented assignment target')

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            f = self.frames[fid]
            tgt = fid
            if t.id in self.src.globals_of(f):
                raise FrameBroken('assignment to global %s' % t.id)
            return [(st.set(tgt, t.id, v), 'n', None)]
        if isinstance(t, ast.Attribute):
            return self.vn(self.eval(t.value, st, fid), lambda s, o: self.setattr_(s, o, t.attr, v))
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            return self.vn(self.evals([t.value, t.slice], st, fid),
                           lambda s, x: self.modelmod.setitem(self, s, x[0], x[1], v))
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, x in self.spread(st, v):
                if isinstance(x, Tag) and x.name == 'gen':
                    for s1, k, w in self.comp(x.args[0], s, x.args[1], 'list'):
                        out += self.assign(t, w, s1, fid) if k == 'v' else [(s1, k, w)]
                    continue
                if isinstance(x, T) and x.kind == 'any' or isinstance(x, Ref) and s.heap[x.id].kind == 'symlist':
                    its = self.iterate1(s, x)
                    for s1, k, it in its:
                        if k != 'v':
                            out.append((s1, k, it))
                            continue
                        if it[0] != 'sym' or any(isinstance(y, ast.Starred) for y in t.elts):
                            raise Unsupported('unpack')
                        c = it[1] == len(t.elts)
                        for s2, b in self.branch(s1, c):
                            if not b:
                                out += err(s2, ValueError, 'unpack')
                            else:
                                out += self.assign_all(t.elts, [it[2](tm.I(i)) for i in range(len(t.elts))],
                                                       s2, fid)
                    continue
                if x is None or kind_of(x) in ('int', 'bool'):
                    out += err(s, TypeError, 'cannot unpack')
                    continue
                items = self.concrete_items(s, x)
                if any(isinstance(y, ast.Starred) for y in t.elts):
                    i = [isinstance(y, ast.Starred) for y in t.elts].index(True)
                    after = len(t.elts) - i - 1
                    if len(items) < len(t.elts) - 1:
                        out += err(s, ValueError, 'unpack')
                        continue
                    mid = items[i:len(items) - after]
                    s, r = self.alloc(s, HObj('list', None, tuple(mid)))
                    out += self.assign_all([y.value if isinstance(y, ast.Starred) else y for y in t.elts],
                                           items[:i] + [r] + items[len(items) - after:], s, fid)
                elif len(items) != len(t.elts):
                    out += err(s, ValueError, 'unpack')
                else:
                    out += self.assign_all(t.elts, items, s, fid)
            return out
        raise Unsupported('assignment target')

    def assign_all(self, ts, vs, st, fid):
        res = [(st, 'n', None)]
        for t, v in zip(ts, vs):
            nxt = []
            for s, k, w in res:
                nxt += self.assign(t, v, s, fid) if k == 'n' else [(s, k, w)]
            res = nxt
        return res

    def s_Delete(self, n, st, fid):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st = st.set(fid, t.id, UNBOUND)
            else:
                raise Unsupported('del')
        return [(st, 'n', None)]

    def s_If(self, n, st, fid):
        def f(s, v):
            out = []
            for s2, b in self.branch(s, self.truth(s, v)):
                out += self.exec_block(n.body if b else n.orelse, s2, fid)
            return out
        return self.vn(self.eval(n.test, st, fid), f)

    def s_Assert(self, n, st, fid):
        def f(s, v):
            out = []
            for s2, b in self.branch(s, self.truth(s, v)):
                if b:
                    out.append((s2, 'n', None))
                else:
                    out += err(s2, AssertionError)
            return out
        return self.vn(self.eval(n.test, st, fid), f)

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            f = fid
            while f is not None:
                e = st.frames.get(f, {}).get('$exc')
                if e is not None:
                    return [(st, 'x', e)]
                f = self.frames[f].parent
            return err(st, RuntimeError, 'no active exception')

        def g(s, v):
            out = []
            for s1, v1 in self.spread(s, v):
                if isinstance(v1, type) and issubclass(v1, BaseException):
                    out.append((s1, 'x', ExcV(v1)))
                elif isinstance(v1, ExcV):
                    out.append((s1, 'x', v1))
                else:
                    raise Unsupported('raise of %r' % (v1,))
            return out
        r = self.eval(n.exc, st, fid)
        if n.cause is not None:
            r = self.bind(r, lambda s, v: self.bind(self.eval(n.cause, s, fid), lambda s2, _: ok(s2, v)))
        return self.vn(r, g)

    def exc_match(self, st, e, types):
        """-> list of (state, bool)"""
        if isinstance(types, tuple):
            ts = list(types)
        elif isinstance(types, Ref):
            raise Unsupported('exception types')
        else:
            ts = [types]
        if any(not isinstance(t, type) for t in ts):
            raise Unsupported('exception types')
        if any(issubclass(e.cls, t) for t in ts):
            return [(st, True)]
        if not e.known and any(issubclass(t, e.cls) for t in ts):
            if e.origin is None:
                c = tm.fresh(tm.Bool, 'choice')
            else:
                c = tm.uf('exc_is_%s' % '_'.join(sorted(t.__name__ for t in ts)), tm.Int, tm.Bool)(e.origin)
            return self.branch(st, c)
        return [(st, False)]

    def s_Try(self, n, st, fid):
        out = []
        after = []
        for r in self.exec_block(n.body, st, fid):
            if r[1] == 'n':
                after += self.exec_block(n.orelse, r[0], fid) if n.orelse else [r]
            elif r[1] == 'x':
                after += self.handle(n.handlers, r[0], r[2], fid)
            else:
                after.append(r)
        if not n.finalbody:
            return after
        for s, k, v in after:
            for s2, k2, v2 in self.exec_block(n.finalbody, s, fid):
                out.append((s2, k, v) if k2 == 'n' else (s2, k2, v2))
        return out

    def handle(self, handlers, st, e, fid):
        out = []
        todo = [(st, 0)]
        while todo:
            s, i = todo.pop(0)
            if i == len(handlers):
                out.append((s, 'x', e))
                continue
            h = handlers[i]
            if h.type is None:
                out += self.run_handler(h, s, e, fid)
                continue
            for s1, k, ty in self.eval(h.type, s, fid):
                if k != 'v':
                    out.append((s1, k, ty))
                    continue
                for s2, b in self.exc_match(s1, e, ty):
                    if b:
                        out += self.run_handler(h, s2, e, fid)
                    else:
                        todo.append((s2, i + 1))
        return out

    def run_handler(self, h, st, e, fid):
        old = st.frames.get(fid, {}).get('$exc')
        s = st.set(fid, '$exc', e)
        if h.name:
            s = s.set(fid, h.name, e)
        out = []
        for s2, k, v in self.exec_block(h.body, s, fid):
            s2 = s2.set(fid, '$exc', old)
            if h.name:
                s2 = s2.set(fid, h.name, UNBOUND)
            out.append((s2, k, v))
        return out

    def s_With(self, n, st, fid):
        if len(n.items) == 1 and isinstance(n.items[0].context_expr, ast.Call):
            c = n.items[0].context_expr
            r = self.eval(c.func, st, fid)
            import contextlib
            if len(r) == 1 and r[0][2] is contextlib.suppress:
                def f(s, tys):
                    out = []
                    for s1, k, v in self.exec_block(n.body, s, fid):
                        if k == 'x':
                            for s2, b in self.exc_match(s1, v, tuple(tys)):
                                out.append((s2, 'n', None) if b else (s2, 'x', v))
                        else:
                            out.append((s1, k, v))
                    return out
                return self.vn(self.evals(c.args, st, fid), f)
        def body(s, v):
            r = [(s, 'n', None)]
            if n.items[0].optional_vars is not None:
                r = self.assign(n.items[0].optional_vars, v, s, fid)
            return [x for s1, k, w in r for x in (self.exec_block(n.body, s1, fid) if k == 'n' else [(s1, k, w)])]

        def exits(s, mgr, leave, k, w):
            out = []
            if k == 'x':
                def left(s1, t):
                    return self.call(s1, leave, [mgr, t, w, None], {}, fid)
                for s1, k1, v in self.bind(self.call(s, type, [w], {}, fid), left):
                    if k1 == 'x':
                        out.append((s1, k1, v))
                        continue
                    for s2, b in self.branch(s1, self.truth(s1, v)):
                        out.append((s2, 'n', None) if b else (s2, 'x', w))
                return out
            return [(s1, k, w) if k1 == 'v' else (s1, k1, v)
                    for s1, k1, v in self.call(s, leave, [mgr, None, None, None], {}, fid)]

        def g(s, mgr):
            if isinstance(mgr, Ref) and s.heap[mgr.id].kind == 'bytesio':
                return body(s, mgr)
            if isinstance(mgr, Ref) and s.heap[mgr.id].kind == 'obj':
                cls = s.heap[mgr.id].cls
                enter, leave = getattr(cls, '__enter__', None), getattr(cls, '__exit__', None)
                if self.src.is_package(enter) and self.src.is_package(leave):
                    return [x for s1, k, v in self.call(s, enter, [mgr], {}, fid)
                            for x in ([(s1, k, v)] if k == 'x' else
                                      [y for s2, k2, w in body(s1, v) for y in exits(s2, mgr, leave, k2, w)])]
            if isinstance(mgr, Tag) and mgr.name == 'context':
                fn, args, kw = mgr.args
                out = []
                for s1, k, v in self.call_function(s, fn, list(args), dict(kw), hook=body):
                    if k == 'x':
                        out.append((s1, k, v))
                    elif isinstance(v, Tag) and v.name == 'leave':
                        out.append((s1, v.args[0], v.args[1]))
                    else:
                        out.append((s1, 'n', None))
                return out
            raise Unsupported('with statement')
        if len(n.items) == 1:
            return self.vn(self.eval(n.items[0].context_expr, st, fid), g)
        inner = ast.copy_location(ast.With(n.items[1:], n.body), n)
        return self.s_With(ast.copy_location(ast.With(n.items[:1], [inner]), n), st, fid)

    def s_FunctionDef(self, n, st, fid):
        if n.decorator_list:
            raise Unsupported('decorated local function')

        def f(s, d):
            nd = len(n.args.defaults)
            kwd = {a.arg: v for a, v in zip([a for a, x in zip(n.args.kwonlyargs, n.args.kw_defaults)
                                             if x is not None], d[nd:])}
            return [(s.set(fid, n.name, Closure(n, fid, self.frames[fid].glob, None, tuple(d[:nd]), kwd)),
                     'n', None)]
        return self.vn(self.evals(list(n.args.defaults) + [x for x in n.args.kw_defaults if x is not None],
                                  st, fid), f)

    def s_Import(self, n, st, fid):
        import importlib
        for a in n.names:
            m = importlib.import_module(a.name)
            st = st.set(fid, a.asname or a.name.split('.')[0],
                        m if a.asname else sys.modules[a.name.split('.')[0]])
        return [(st, 'n', None)]

    def s_ImportFrom(self, n, st, fid):
        import importlib
        m = importlib.import_module(n.module)
        for a in n.names:
            st = st.set(fid, a.asname or a.name, getattr(m, a.name))
        return [(st, 'n', None)]

    def s_Global(self, n, st, fid):
        return [(st, 'n', None)]

    def s_Nonlocal(self, n, st, fid):
        raise Unsupported('nonlocal')

    def s_Break(self, n, st, fid):
        return [(st, 'b', None)]

    def s_Continue(self, n, st, fid):
        return [(st, 'c', None)]

    def s_While(self, n, st, fid):
        out = []
        cur = [st]
        for it in range(WHILE_BOUND + 1):
            nxt = []
            if not cur:
                break
            for s in cur:
                for s1, k, v in self.eval(n.test, s, fid):
                    if k != 'v':
                        out.append((s1, k, v))
                        continue
                    for s2, b in self.branch(s1, self.truth(s1, v)):
                        if not b:
                            out += self.exec_block(n.orelse, s2, fid) if n.orelse else [(s2, 'n', None)]
                            continue
                        if it == WHILE_BOUND or self.bounded and it >= 6:
                            if not self.bounded:
                                raise NeedBounded('while loop')
                            continue
                        for s3, k3, v3 in self.exec_block(n.body, s2, fid):
                            if k3 in ('n', 'c'):
                                nxt.append(s3)
                            elif k3 == 'b':
                                out.append((s3, 'n', None))
                            else:
                                out.append((s3, k3, v3))
            cur = self.merge(nxt)
            if it > 3 and not self.bounded and any(True for _ in cur) and it > 12:
                raise NeedBounded('while loop')
        return out

    def s_For(self, n, st, fid):
        out = []
        for s, k, it in self.bind(self.eval(n.iter, st, fid), self.iterate):
            if k != 'v':
                out.append((s, k, it))
                continue
            if it[0] == 'conc':
                out += self.for_items(n, s, fid, [(True, x) for x in it[1]])
            elif it[0] == 'guarded':
                out += self.for_items(n, s, fid, it[1])
            elif self.bounded:
                out += self.for_bounded(n, s, fid, it[1], it[2])
            else:
                out += self.for_sym(n, s, fid, it[1], it[2])
        return out

    def for_bounded(self, n, st, fid, length, at):
        out = []
        for L in range(self.bounded + 1):
            c = length == L
            if self.feasible(st, c):
                out += self.for_items(n, st.assume(c), fid, [(True, at(tm.I(i))) for i in range(L)])
        return out

    def for_items(self, n, st, fid, items):
        out, broke = [], []
        cur = [st]
        for g, x in items:
            nxt = []
            for s in cur:
                for s1, b in self.branch(s, g):
                    if not b:
                        nxt.append(s1)
                        continue
                    for s2, k, v in self.assign(n.target, x, s1, fid):
                        if k != 'n':
                            out.append((s2, k, v))
                            continue
                        for s3, k3, v3 in self.exec_block(n.body, s2, fid):
                            if k3 in ('n', 'c'):
                                nxt.append(s3)
                            elif k3 == 'b':
                                broke.append(s3)
                            else:
                                out.append((s3, k3, v3))
            cur = self.merge(nxt)
            if not cur:
                break
        for s in cur:
            out += self.exec_block(n.orelse, s, fid) if n.orelse else [(s, 'n', None)]
        return out + [(s, 'n', None) for s in broke]

    # loop over a sequence of unknown length: the invariant "all earlier
    # iterations continued, and the accumulators hold the values they produced"
    # is derived from one arbitrary iteration and is exact.
    def for_sym(self, n, st, fid, length, at):
        k = tm.fresh(tm.Int, 'k')
        first_fresh = next(tm._fresh)
        st = st.assume(length >= 0)
        base = len(st.pc)
        st0 = st.assume(k >= 0, k < length)
        # what is known of every element holds of this one
        inst = [z3.substitute_vars(q.body(), k) for q in st.pc
                if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == tm.Int]
        st0 = st0.assume(*inst)
        if not self.feasible(st0):
            return self.exec_block(n.orelse, st.assume(length == 0), fid) if n.orelse else \
                [(st.assume(length == 0), 'n', None)]

        def run(s0):
            res = []
            for s, kk, v in self.assign(n.target, at(k), s0, fid):
                if kk != 'n':
                    res.append((s, kk, v))
                else:
                    res += self.exec_block(n.body, s, fid)
            return res
        # pass 1: find what the body changes
        saved = self.nref
        probe = run(st0)
        carried, accs = set(), set()
        for s, kk, v in probe:
            for f, env in s.frames.items():
                old = st.frames.get(f)
                if old is None or env is old:
                    continue
                for name in env:
                    if name not in old or not self.same(env[name], old[name]):
                        carried.add((f, name))
            for i, h in st.heap.items():
                if s.heap[i] is not h:
                    if h.kind in ('list', 'set') and not h.pre or \
                            h.kind == 'dict' and not h.pre and not h.data and h.cls is None:
                        accs.add(i)
                    else:
                        raise NeedBounded('loop body changes %s' % h.kind)
            if len(s.events) != len(st.events) and kk in ('n', 'c'):
                raise NeedBounded('effects in a loop')
        # pass 2: prove the body does not read what it changes
        s0 = st0.copy()
        s0.frames = dict(s0.frames)
        for f, name in carried:
            d = dict(s0.frames[f])
            d[name] = POISON
            s0.frames[f] = d
        s0.heap = dict(s0.heap)
        for i in accs:
            h = st.heap[i]
            s0.heap[i] = HObj('acc', {'list': list, 'set': set, 'dict': dict}[h.kind], (), False)
        if carried or accs:
            probe = run(s0)
        conts = [r[0] for r in probe if r[1] in ('n', 'c')]
        others = [r for r in probe if r[1] not in ('n', 'c')]
        if len(conts) > 1:
            m = self.merge(conts)
            if len(m) > 1:
                raise NeedBounded('loop body does not merge')
            conts = m
        plen = len(st0.pc)
        if conts:
            rest = And(*conts[0].pc[plen:])
        else:
            rest = tm.FALSE

        for s in conts + [r[0] for r in others]:
            for c in s.pc[plen:]:
                for nm in tm.symbols([c]):
                    if '!' in nm and nm.split('!')[-1].isdigit() and int(nm.split('!')[-1]) > first_fresh \
                            and not nm.startswith('k!'):
                        raise NeedBounded('fresh choice in loop body')

        def cont_all(upto):
            if z3.is_true(rest):
                return tm.TRUE
            j = tm.fresh(tm.Int, 'j')
            return z3.ForAll([j], Implies(And(j >= 0, j < upto), z3.substitute(rest, (k, j))))
        out = []

        def restore(s, upto, leaving):
            """Accumulators and carried variables after `upto` iterations."""
            s = s.copy()
            s.heap = dict(s.heap)
            for i in accs:
                h = st.heap[i]
                pend = s.heap[i].data if s.heap[i].kind == 'acc' else ()
                if leaving and pend:
                    raise NeedBounded('accumulation in a leaving iteration')
                ent = conts[0].heap[i].data if conts else ()
                if not conts:
                    s.heap[i] = h
                    continue
                if h.kind == 'dict':
                    if len(ent) == 0:
                        s.heap[i] = h
                    elif len(ent) == 1:
                        kk = tm.fresh(tm.Int, 'k')
                        kv = self.freeze(conts[0], ent[0][1], st)
                        s.heap[i] = HObj('symdict', dict, (upto, kk, z3.substitute(asb(ent[0][0]), (k, kk)),
                                                           subst(kv[0], k, kk), subst(kv[1], k, kk)))
                    else:
                        raise NeedBounded('several entries per iteration')
                elif h.kind == 'list':
                    if len(ent) == 0:
                        s.heap[i] = h
                    elif len(ent) == 1 and z3.is_true(asb(ent[0][0])) and len(h.data) == 0:
                        val = self.freeze(conts[0], ent[0][1], st)
                        kk = tm.fresh(tm.Int, 'k')
                        s.heap[i] = HObj('symlist', None, (upto, kk, subst(val, k, kk)))
                    elif len(ent) == 1 and len(h.data) == 0 and h.cls is None:
                        val = self.freeze(conts[0], ent[0][1], st)
                        kk = tm.fresh(tm.Int, 'k')
                        s.heap[i] = HObj('filtlist', list, (('q', upto, kk, subst(val, k, kk),
                                                             z3.substitute(asb(ent[0][0]), (k, kk))),))
                    else:
                        raise NeedBounded('conditional accumulation')
                else:
                    new = []
                    for g, v in ent:
                        kk = tm.fresh(tm.Int, 'k')
                        new.append(('q', upto, kk, subst(self.freeze(conts[0], v, st), k, kk),
                                    z3.substitute(asb(g), (k, kk))))
                    s.heap[i] = h.with_(h.data + tuple(new))
            s.frames = dict(s.frames)
            for f, name in carried:
                if f not in s.frames:
                    continue
                d = dict(s.frames[f])
                old = st.frames[f].get(name, UNBOUND)
                cur = d.get(name, UNBOUND)
                if leaving and cur is not POISON and not (isinstance(cur, U) and any(x is POISON for _, x in cur.alts)):
                    pass
                else:
                    d[name] = self.after_iterations(conts, f, name, old, k, upto, st)
                s.frames[f] = d
            return s

        for s, kk, v in others:
            s = restore(s, k, True)
            s.pc = s.pc[:plen] + ((cont_all(k),) if not z3.is_true(cont_all(k)) else ()) + s.pc[plen:]
            if kk == 'b':
                out.append((s, 'n', None))
            else:
                if kk == 'r' and accs and isinstance(v, Ref) and v.id in accs:
                    raise NeedBounded('return of accumulator')
                out.append((s, kk, v))
        if conts:
            s = conts[0].copy()
            s.pc = st.pc
            s = restore(s, length, False)
            # objects allocated by the body are unreachable afterwards
            c = cont_all(length)
            s = s.assume(c)
        else:
            s = st.assume(length == 0)
        if self.feasible(s):
            out += self.exec_block(n.orelse, s, fid) if n.orelse else [(s, 'n', None)]
        return out

    def after_iterations(self, conts, f, name, old, k, upto, st):
        if not conts:
            return old
        v = conts[0].frames[f].get(name, UNBOUND)
        last = upto - 1
        if v is POISON:
            return old
        if isinstance(v, U) and any(x is POISON for _, x in v.alts):
            live = [(g, x) for g, x in v.alts if x is not POISON]
            if len(live) == 1 and (is_scalar(live[0][1]) or isinstance(live[0][1], enum.Enum)):
                j = tm.fresh(tm.Int, 'j')
                ex = z3.Exists([j], And(j >= 0, j < upto, z3.substitute(asb(live[0][0]), (k, j))))
                return self.merge_val(ex, live[0][1], Not(ex), old)
            return U([(upto > 0, POISON), (Not(upto > 0), old)])
        if is_scalar(v) or isinstance(v, enum.Enum):
            return self.merge_val(upto > 0, v, Not(upto > 0), old)
        try:
            v = self.freeze(conts[0], v, st)
        except Unsupported:
            return U([(upto > 0, POISON), (Not(upto > 0), old)])
        return U([(upto > 0, subst(v, k, last)), (Not(upto > 0), old)])

    def freeze(self, st, v, entry):
        """Turn objects allocated in a loop body into index-dependent values."""
        if isinstance(v, Ref) and v.id not in entry.heap:
            h = st.heap[v.id]
            if h.kind == 'obj':
                return SObj(h.cls, {n: self.freeze(st, x, entry) for n, x in h.data.items()})
            if h.kind == 'list':
                return Tag('frozenlist', *[self.freeze(st, x, entry) for x in h.data])
            if h.kind == 'symlist':
                n, k, x = h.data
                return Tag('frozensym', T('int', n), T('int', k), x)
            raise NeedBounded('container allocated per iteration')
        if isinstance(v, U):
            return U([(g, self.freeze(st, x, entry)) for g, x in v.alts])
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x, entry) for x in v)
        if isinstance(v, NTup):
            return NTup(v.cls, [self.freeze(st, x, entry) for x in v.vals])
        return v


def tm_known_types():
    return (bool, int, float, str, bytes, list, tuple, dict, type(None))
