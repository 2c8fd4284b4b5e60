"""Built-in functions and dispatch to the assumed library contracts."""
import ast
import enum
import operator
import typing
import types as pytypes
import z3
from . import terms as tm
from . import libs
from .terms import And, Or, Not, Implies, asb, V
from .values import *
from .ops import (ok, err, call_method, slice_, url_items, getitem, setitem, unop, binop, compare, format_fstring, native,
                  message, known, conc, NotConcrete, hash_check, as_int, strcat, contains)
from .libs import opq_isinstance, opq_getattr, tag_getattr, tag_isinstance

MODELS = {}


def model(*fns):
    def deco(f):
        for fn in fns:
            MODELS[fn] = f
        return f
    return deco


# ------------------------------------------------------------------- builtins
@model(isinstance)
def m_isinstance(I, st, args, kw, fid):
    return ok(st, I.mkbool(I.isinstance_(st, args[0], args[1])))


@model(issubclass)
def m_issubclass(I, st, args, kw, fid):
    r = native(I, st, issubclass, args)
    if r is None:
        raise Unsupported('issubclass')
    return r


@model(len)
def m_len(I, st, args, kw, fid):
    out = []
    for s, x in I.spread(st, args[0]):
        out += len1(I, s, x)
    return I.merge_results(out)


def len1(I, st, x):
    if x is POISON:
        raise NeedBounded('loop-carried value')
    if isinstance(x, (str, bytes, tuple, list, dict, set, frozenset)):
        return ok(st, len(x))
    if isinstance(x, NTup):
        return ok(st, len(x.vals))
    if isinstance(x, enum.EnumMeta):
        return ok(st, len(x))
    if isinstance(x, T):
        if x.kind in ('str', 'bytes'):
            return ok(st, T('int', z3.Length(x.t)))
        if x.kind == 'any':
            t, out = x.t, []
            for s, y in I.spread_any(st, x):
                if kind_of(y) != 'any':
                    out += err(s, TypeError, 'no len()') if y is None or kind_of(y) in ('int', 'bool') \
                        else len1(I, s, y)
                    continue
                seq = Or(V.is_vlist(t), V.is_vtuple(t))
                if I.feasible(s, seq):
                    out += ok(s.assume(seq, tm.llen(t) >= 0, tm.llen(t) < 2 ** 63), T('int', tm.llen(t)))
                if I.feasible(s, V.is_vdict(t)):
                    out += ok(s.assume(V.is_vdict(t), tm.dlen(t) >= 0), T('int', tm.dlen(t)))
                bad = Or(V.is_vflt(t), V.is_vother(t))
                if I.feasible(s, bad):
                    out += err(s.assume(bad), TypeError, 'no len()')
            return out
    if isinstance(x, Ref):
        h = st.heap[x.id]
        if h.kind == 'list':
            return ok(st, len(h.data))
        if h.kind == 'bytearray':
            return ok(st, T('int', z3.Length(h.data.t)))
        if h.kind == 'symlist':
            return ok(st.assume(h.data[0] >= 0), T('int', h.data[0]))
        if h.kind == 'dict':
            cs = [Not(asb(I.is_absent(v))) for v in h.data.values()]
            if all(z3.is_true(c) for c in cs):
                return ok(st, len(cs))
            return ok(st, T('int', z3.Sum([z3.If(c, tm.I(1), tm.I(0)) for c in cs])))
        if h.kind == 'enumset':
            return ok(st, T('int', z3.Sum([z3.If(g, tm.I(1), tm.I(0)) for g in h.data.values()])))
        if h.kind in ('set', 'filtlist'):
            n = tm.fresh(tm.Int, 'setlen')
            return ok(st.assume(n >= 0, (n == 0) == Not(asb(I.set_nonempty(st, h.data)))), T('int', n))
        if h.kind == 'acc':
            raise NeedBounded('accumulator read in loop')
        if h.kind == 'obj':
            return err(st, TypeError, 'no len()')
    if isinstance(x, Tag):
        if x.name == 'frozenlist':
            return ok(st, len(x.args))
        if x.name == 'frozensym':
            return ok(st, x.args[0])
        if x.name in ('dkeys', 'dvalues', 'ditems'):
            return len1(I, st, x.args[0])
        if x.name == 'range':
            return native(I, st, lambda *a: len(range(*a)), x.args) or _unsup('len of range')
    if x is None or isinstance(x, (int, float)) or kind_of(x) in ('int', 'bool', 'enum') or \
            isinstance(x, SObj):
        return err(st, TypeError, 'no len()')
    raise Unsupported('len of %r' % (x,))


def _unsup(m):
    raise Unsupported(m)


@model(type)
def m_type(I, st, args, kw, fid):
    if len(args) != 1:
        raise Unsupported('class creation')
    x = args[0]
    if isinstance(x, Ref):
        h = st.heap[x.id]
        k = {'list': list, 'symlist': h.cls or list, 'dict': dict, 'set': set, 'enumset': set}.get(h.kind, h.cls)
        if h.kind == 'acc':
            k = h.cls
        return ok(st, k)
    if isinstance(x, (SObj, NTup)):
        return ok(st, x.cls)
    if isinstance(x, T) and x.kind in ('str', 'bytes', 'int', 'bool'):
        return ok(st, {'str': str, 'bytes': bytes, 'int': int, 'bool': bool}[x.kind])
    if isinstance(x, ExcV) and x.known:
        return ok(st, x.cls)
    if isinstance(x, U):
        out = []
        for s, y in I.spread(st, x):
            out += m_type(I, s, [y], {}, fid)
        return I.merge_results(out)
    if isinstance(x, (T, Tag, Closure, Bound, Method, ExcV)):
        return ok(st, TypeOf(x))
    return ok(st, type(x))


def choices(I, st, v):
    """A text chosen among literals, as these literals."""
    out = []
    for s, x in I.spread(st, v):
        leaves, todo = [], [x.t] if isinstance(x, T) and x.kind == 'str' else []
        while todo:
            t = todo.pop()
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                todo += t.children()[1:]
            else:
                leaves.append(z3.simplify(t))
        if leaves and all(z3.is_string_value(t) for t in leaves):
            for n in sorted({tm.text(t) for t in leaves}):
                if I.feasible(s, x.t == tm.S(n)):
                    out.append((s.assume(x.t == tm.S(n)), n))
        else:
            out.append((s, x))
    return out


@model(getattr)
def m_getattr(I, st, args, kw, fid):
    out = []
    for s, name in choices(I, st, args[1]):
        if not isinstance(name, str):
            raise Unsupported('computed attribute name')
        if len(args) > 2:
            out += I.getattr_(s, args[0], name, args[2], True)
        else:
            out += I.getattr_(s, args[0], name)
    return I.merge_results(out)


@model(hasattr)
def m_hasattr(I, st, args, kw, fid):
    out = []
    for s, name in I.spread(st, args[1]):
        if not isinstance(name, str):
            raise Unsupported('computed attribute name')
        for s2, k, v in I.getattr_(s, args[0], name):
            if k == 'v' and isinstance(v, Method) and isinstance(v.recv, T) and v.recv.kind == 'any' and \
                    I.feasible(s2, V.is_vother(v.recv.t)):
                raise Unsupported('attributes of an unknown value')
            if k == 'v':
                out += ok(s2, True)
            elif issubclass(v.cls, AttributeError):
                out += ok(s2, False)
            else:
                out.append((s2, k, v))
    return I.merge_results(out)


@model(setattr)
def m_setattr(I, st, args, kw, fid):
    out = []
    for s, name in I.spread(st, args[1]):
        if not isinstance(name, str):
            raise Unsupported('computed attribute name')
        for s2, k, v in I.setattr_(s, args[0], name, args[2]):
            out.append((s2, 'v', None) if k == 'n' else (s2, k, v))
    return out


def _quant(is_all):
    def f(I, st, args, kw, fid):
        x = args[0]
        if isinstance(x, Tag) and x.name == 'gen':
            return I.gen_quant(st, x, is_all)
        out = []
        for s, k, it in I.iterate(st, x):
            if k != 'v':
                out.append((s, k, it))
            elif it[0] == 'conc':
                cs = [asb(I.truth(s, v)) for v in it[1]]
                out += ok(s, I.mkbool(And(*cs) if is_all else Or(*cs)))
            elif it[0] == 'guarded':
                cs = [(asb(g), asb(I.truth(s, v))) for g, v in it[1]]
                out += ok(s, I.mkbool(And(*[Implies(g, c) for g, c in cs]) if is_all else
                                      Or(*[And(g, c) for g, c in cs])))
            else:
                j = tm.fresh(tm.Int, 'j')
                c = asb(I.truth(s, it[2](j)))
                rng = And(j >= 0, j < it[1])
                out += ok(s, I.mkbool(z3.ForAll([j], Implies(rng, c)) if is_all else z3.Exists([j], And(rng, c))))
        return out
    return f


MODELS[all], MODELS[any] = _quant(True), _quant(False)


@model(bool)
def m_bool(I, st, args, kw, fid):
    return ok(st, I.mkbool(I.truth(st, args[0])) if args else False)


@model(int)
def m_int(I, st, args, kw, fid):
    r = native(I, st, int, args, kw)
    if r is not None:
        return r
    out = []
    for s, x in I.spread_any(st, args[0]):
        if len(args) > 1 or kw:
            raise Unsupported('int with a base')
        k = kind_of(x)
        if k in ('int', 'bool'):
            out += ok(s, x if k == 'int' else T('int', as_int(x)))
        elif k == 'opq' and isinstance(x.cls, libs.AsnType):
            out += libs.asn_method(I, s, x, '__int__', [])
        elif x is None:
            out += err(s, TypeError, 'int()')
        else:
            raise Unsupported('int of %r' % (x,))
    return out


@model(str, repr, ascii, format)
def m_str(I, st, args, kw, fid):
    if not args:
        return ok(st, '')
    x = args[0]
    if kind_of(x) == 'str' and len(args) == 1:
        return ok(st, x)                     # str only; repr of a string is a message
    if len(args) == 1 and is_scalar(x):
        return native(I, st, str, args)
    if len(args) > 1 and kind_of(x) == 'bytes':
        return call_method(I, st, x, 'decode', args[1:], kw, fid)
    if len(args) == 1 and isinstance(x, (U, T)) and kind_of(x) != 'str':
        out = []
        for s, y in I.spread(st, x):
            if kind_of(y) == 'str':
                out += ok(s, y)
                continue
            for s2, k, v in message(I, s, [y]):
                if k == 'v' and isinstance(y, T) and y.kind == 'any':
                    v = T('str', z3.If(V.is_vstr(y.t), V.us(y.t), term(v)))
                out.append((s2, k, v))
        return out
    return message(I, st, [x])


@model(repr, ascii)
def m_repr(I, st, args, kw, fid):
    r = native(I, st, repr, args) if is_scalar(args[0]) else None
    return r if r is not None else message(I, st, args)


@model(bytearray)
def m_bytearray(I, st, args, kw, fid):
    out = []
    for s, k, v in (m_bytes(I, st, args, kw, fid) if args else ok(st, b'')):
        if k == 'v':
            s, v = I.alloc(s, HObj('bytearray', bytearray, T('bytes', term(v))))
        out.append((s, k, v))
    return out


@model(bytes)
def m_bytes(I, st, args, kw, fid):
    r = native(I, st, bytes, args, kw)
    if r is not None:
        return r
    if isinstance(args[0], Ref) and len(args) == 1 and st.heap[args[0].id].kind == 'bytearray':
        return ok(st, st.heap[args[0].id].data)
    if isinstance(args[0], T) and args[0].kind == 'opq' and len(args) == 1:
        from .libs import asn_present
        from pyasn1.type import univ
        asn_present(I, st, args[0])
        if isinstance(args[0].cls.spec, univ.OctetString):
            return ok(st, T('bytes', tm.asn_octets(args[0].t)))
    out = []
    for s, x in I.spread(st, args[0]):
        if kind_of(x) == 'bytes' and len(args) == 1:
            out += ok(s, x)
        elif kind_of(x) == 'str' and len(args) == 1 and not kw:
            out += err(s, TypeError, 'string argument without an encoding')
        elif kind_of(x) == 'str':
            out += call_method(I, s, x, 'encode', args[1:], kw, fid)
        elif isinstance(x, T) and x.kind == 'any':
            for s2, y in I.spread_any(s, x):
                if kind_of(y) == 'bytes':
                    out += ok(s2, y)
                elif y is None or kind_of(y) == 'str':
                    out += err(s2, TypeError, 'cannot convert to bytes')
                else:
                    # numbers, iterables, buffers
                    t = term(y) if kind_of(y) != 'any' else y.t
                    for s3, b in I.branch(s2, tm.uf('bytes_refuses_%s' % t.sort(), t.sort(), tm.Bool)(t)):
                        if b:
                            out += err(s3, TypeError, 'cannot convert to bytes')
                            out += err(s3, ValueError, 'cannot convert to bytes')
                        else:
                            out += ok(s3, T('bytes', tm.uf('bytes_of_%s' % t.sort(), t.sort(), tm.Bytes)(t)))
        else:
            raise Unsupported('bytes()')
    return out


def _gen_as(I, st, x, kind):
    e, f = x.args
    return I.comp(e, st, f, kind)


@model(list)
def m_list(I, st, args, kw, fid):
    if not args:
        s, r = I.alloc(st, HObj('list', None, ()))
        return ok(s, r)
    out = []
    for s, x in I.spread(st, args[0]):
        if isinstance(x, Tag) and x.name == 'gen':
            out += _gen_as(I, s, x, 'list')
            continue
        for s2, k, it in I.iterate(s, x):
            if k != 'v':
                out.append((s2, k, it))
            elif it[0] == 'conc':
                s2, r = I.alloc(s2, HObj('list', None, tuple(it[1])))
                out += ok(s2, r)
            elif it[0] == 'sym':
                kk = tm.fresh(tm.Int, 'k')
                s2, r = I.alloc(s2, HObj('symlist', None, (it[1], kk, it[2](kk))))
                out += ok(s2, r)
            else:
                raise Unsupported('list of a guarded sequence')
    return out


@model(tuple)
def m_tuple(I, st, args, kw, fid):
    if not args:
        return ok(st, ())
    out = []
    for s, k, v in m_list(I, st, args, kw, fid):
        if k != 'v':
            out.append((s, k, v))
        elif s.heap[v.id].kind == 'list':
            out += ok(s, tuple(s.heap[v.id].data))
        else:
            s, r = I.alloc(s, HObj(s.heap[v.id].kind, tuple, s.heap[v.id].data))
            out += ok(s, r)
    return out


@model(set, frozenset)
def m_set(I, st, args, kw, fid):
    if not args:
        s, r = I.alloc(st, HObj('set', None, ()))
        return ok(s, r)
    out = []
    for s, x in I.spread(st, args[0]):
        if isinstance(x, Tag) and x.name == 'gen':
            out += _gen_as(I, s, x, 'set')
            continue
        if x is None or kind_of(x) in ('int', 'bool'):
            out += err(s, TypeError, 'not iterable')
            continue
        if isinstance(x, T) and x.kind == 'any':
            for s2, p in I.branch(s, V.is_vdict(x.t)):
                if not p:
                    raise Unsupported('set of an unknown value')
                s2, r = I.alloc(s2, HObj('set', None, (('dk', x.t, x.cls),)))
                out += ok(s2, r)
            continue
        if isinstance(x, Tag) and x.name == 'dvalues':
            raise Unsupported('set of values')
        if isinstance(x, (str, bytes)):
            x = tuple(x)
        if kind_of(x) in ('str', 'bytes'):
            raise Unsupported('set of characters')
        s, r = I.alloc(s, HObj('set', None, tuple(I.as_set(s, x))))
        out += ok(s, r)
    return out


@model(dict)
def m_dict(I, st, args, kw, fid):
    d = {}
    for a in args:
        if isinstance(a, Tag) and a.name == 'gen' or isinstance(a, T):
            raise Unsupported('dict()')
        try:
            I.overlay(d, I.concrete_dict(st, a))
        except Unsupported:
            for p in I.concrete_items(st, a):
                k, v = I.concrete_items(st, p)
                d[I.dict_key(k)] = v
    d.update(kw)
    s, r = I.alloc(st, HObj('dict', None, d))
    return ok(s, r)


@model(range)
def m_range(I, st, args, kw, fid):
    r = native(I, st, lambda *a: tuple(range(*a)), args)
    if r is not None:
        return r
    if all(kind_of(a) == 'int' for a in args) and len(args) <= 2:
        return ok(st, Tag('range', *args))
    raise Unsupported('range')


@model(enumerate)
def m_enumerate(I, st, args, kw, fid):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if not isinstance(start, int):
        raise Unsupported('enumerate start')
    return ok(st, Tag('enumerate', args[0], start))


@model(zip)
def m_zip(I, st, args, kw, fid):
    return ok(st, Tag('zip', *args))


@model(reversed)
def m_reversed(I, st, args, kw, fid):
    return ok(st, Tag('reversed', args[0]))


def _lazy(I, st, fn, it, fid, filt):
    """map / filter over a sequence, as the generator expression it stands for"""
    from .interp import Frame
    cf = I.newfid()
    I.frames[cf] = Frame(cf, I.frames[fid].glob, None, fid, '<map>', set())
    st = st.set(cf, '$f', fn).set(cf, '$it', it)
    name = lambda n, ctx=ast.Load: ast.Name(id=n, ctx=ctx())
    call = ast.Call(func=name('$f'), args=[name('$x')], keywords=[])
    e = ast.GeneratorExp(elt=name('$x') if filt else call, generators=[ast.comprehension(
        target=name('$x', ast.Store), iter=name('$it'), ifs=[call] if filt else [], is_async=0)])
    I.src.synth[(id(e), 'keep')] = e
    return ok(st, Tag('gen', e, cf))


@model(filter)
def m_filter(I, st, args, kw, fid):
    if args[0] is None:
        raise Unsupported('filter')
    return _lazy(I, st, args[0], args[1], fid, True)


@model(map)
def m_map(I, st, args, kw, fid):
    if len(args) == 2 and fid is not None:
        return _lazy(I, st, args[0], args[1], fid, False)
    if len(args) != 2:
        raise Unsupported('map')
    out = []
    for s, k, it in I.iterate(st, args[1]):
        if k != 'v':
            out.append((s, k, it))
        elif it[0] != 'conc':
            raise Unsupported('map over a symbolic sequence')
        else:
            res = ok(s, [])
            for x in it[1]:
                res = I.bind(res, lambda s2, acc, x=x: I.bind(I.call(s2, args[0], [x], {}, fid),
                                                              lambda s3, v, acc=acc: ok(s3, acc + [v])))
            out += [(s2, k2, tuple(v) if k2 == 'v' else v) for s2, k2, v in res]
    return out


@model(sorted)
def m_sorted(I, st, args, kw, fid):
    r = native(I, st, sorted, args, kw)
    if r is None:
        raise Unsupported('sorted')
    return r


@model(next)
def m_next(I, st, args, kw, fid):
    x = args[0]
    if not (isinstance(x, Tag) and x.name == 'gen'):
        raise Unsupported('next')
    e, f = x.args
    cf = I.newfid()
    from .interp import Frame
    I.frames[cf] = Frame(cf, I.frames[f].glob, None, f, '<comp>', set())
    key = (id(e), 'next')
    if key not in I.src.synth:
        stmt = ast.Return(value=e.elt)
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                stmt = ast.If(test=c, body=[stmt], orelse=[])
            stmt = ast.For(target=g.target, iter=g.iter, body=[stmt], orelse=[], type_comment=None)
        I.src.synth[key] = (stmt, e)
    out = []
    for s, k, v in I.exec_stmt(I.src.synth[key][0], st.set(cf, '$', None), cf):
        s = s.drop_frame(cf)
        if k == 'r':
            out += ok(s, v)
        elif k == 'n':
            out += ok(s, args[1]) if len(args) > 1 else err(s, StopIteration)
        else:
            out.append((s, k, v))
    return I.merge_results(out)


@model(sum)
def m_sum(I, st, args, kw, fid):
    its = I.iterate(st, args[0]) if not (isinstance(args[0], Tag) and args[0].name == 'gen') else []
    if len(its) == 1 and its[0][1] == 'v' and its[0][2][0] == 'conc':
        ts = [as_int(v) for v in its[0][2][1]]
        if all(t is not None for t in ts):
            return ok(its[0][0], T('int', z3.Sum([tm.I(0)] + ts)))
    raise Unsupported('sum')


@model(min, max)
def m_minmax(I, st, args, kw, fid):
    raise Unsupported('min/max')


def _minmax(fn, better):
    def f(I, st, args, kw, fid):
        r = native(I, st, fn, args, kw)
        if r is not None:
            return r
        if kw or len(args) < 2:
            raise Unsupported(fn.__name__)
        res = ok(st, [])
        for x in args:
            res = I.bind(res, lambda s, acc, x=x: [(s2, 'v', acc + [y]) for s2, y in I.spread_any(s, x)])
        out = []
        for s, _, xs in res:
            if all(kind_of(x) == 'int' for x in xs):
                t = as_int(xs[0])
                for x in xs[1:]:
                    t = z3.If(better(as_int(x), t), as_int(x), t)
                out += ok(s, T('int', t))
            elif any(x is None for x in xs):
                out += err(s, TypeError, 'not ordered')
            else:
                raise Unsupported(fn.__name__)
        return out
    return f


MODELS[min], MODELS[max] = _minmax(min, lambda x, t: x < t), _minmax(max, lambda x, t: x > t)


@model(abs)
def m_abs(I, st, args, kw, fid):
    r = native(I, st, abs, args)
    if r is not None:
        return r
    t = as_int(args[0])
    if t is None:
        raise Unsupported('abs')
    return ok(st, T('int', z3.If(t < 0, -t, t)))


@model(print)
def m_print(I, st, args, kw, fid):
    return ok(st, None)


@model(callable)
def m_callable(I, st, args, kw, fid):
    x = args[0]
    if isinstance(x, (Closure, Bound, Method)):
        return ok(st, True)
    r = native(I, st, callable, args)
    if r is None:
        raise Unsupported('callable')
    return r


@model(vars)
def m_vars(I, st, args, kw, fid):
    if isinstance(args[0], type):
        return ok(st, dict(vars(args[0])))
    return I.getattr_(st, args[0], '__dict__')


@model(hash, id, eval, exec, open, input, globals, locals, compile, __import__)
def m_forbidden(I, st, args, kw, fid):
    raise Unsupported('built-in outside the verifier')


@model(typing.cast)
def m_cast(I, st, args, kw, fid):
    return ok(st, args[1] if len(args) > 1 else kw['val'])


def _model_copy(deep):
    def f(I, st, args, kw, fid):
        memo = {}

        def go(s, v, top):
            if isinstance(v, Ref):
                if not deep and not top:
                    return s, v
                if v.id in memo:
                    return s, memo[v.id]
                h = s.heap[v.id]
                if h.kind not in ('obj', 'list', 'dict', 'set', 'symlist', 'enumset'):
                    raise Unsupported('copy of %s' % h.kind)
                if h.kind == 'obj' and (hasattr(h.cls, '__deepcopy__') or hasattr(h.cls, '__copy__')):
                    raise Unsupported('__copy__')
                s, r = I.alloc(s, HObj(h.kind, h.cls, h.data))
                memo[v.id] = r
                if h.kind in ('obj', 'dict'):
                    d = {}
                    for k, x in h.data.items():
                        s, d[k] = go(s, x, False)
                    s = s.put(r, HObj(h.kind, h.cls, d))
                elif h.kind == 'list':
                    l = []
                    for x in h.data:
                        s, y = go(s, x, False)
                        l.append(y)
                    s = s.put(r, HObj('list', h.cls, tuple(l)))
                return s, r
            if isinstance(v, U):
                alts = []
                for g, x in v.alts:
                    s, y = go(s, x, top)
                    alts.append((g, y))
                return s, U(alts)
            if isinstance(v, tuple):
                l = []
                for x in v:
                    s, y = go(s, x, False)
                    l.append(y)
                return s, tuple(l)
            if isinstance(v, (SObj, NTup, T)) or is_scalar(v) or isinstance(v, (enum.Enum, type)) or \
                    v is UNBOUND or isinstance(v, Tag) and v.name in ('frozenlist', 'frozensym'):
                return s, v
            raise Unsupported('copy of %r' % (v,))
        s, r = go(st, args[0], True)
        return ok(s, r)
    return f


# ---------------------------------------------------------------- enumerations
def enum_lookup(I, st, cls, args):
    if len(args) != 1:
        raise Unsupported('enum construction')
    if cls.__dict__.get('_missing_') is not None or cls._missing_.__func__ is not enum.Enum._missing_.__func__:
        if not issubclass(cls, enum.Flag):
            raise Unsupported('_missing_')
    out = []
    for s, x in I.spread(st, args[0]):
        if isinstance(x, enum.Enum) or is_scalar(x):
            out += native(I, s, cls, [x])
            continue
        ms = members(cls)
        conds = []
        for m in ms:
            if kind_of(x) == 'enum':
                c = asb(I.eq(s, x, m))
            else:
                c = asb(I.eq(s, x, m.value))
            conds.append(c)
        any_ = Or(*conds)
        for s2, b in I.branch(s, any_):
            if not b:
                out += err(s2, ValueError, 'not a valid %s' % cls.__name__)
                continue
            live = [(c, m) for c, m in zip(conds, ms) if not z3.is_false(c) and I.feasible(s2, c)]
            t = enum_term(live[-1][1])
            for c, m in reversed(live[:-1]):
                t = z3.If(c, enum_term(m), t)
            out += ok(s2, live[0][1] if len(live) == 1 else TEnum(t, cls))
    return I.merge_results(out)


# -------------------------------------------------------------------- iterate
def iterate_tag(I, st, x):
    if x.name == 'frozenlist':
        return ok(st, ('conc', list(x.args)))
    if x.name == 'frozensym':
        n, k, v = x.args
        return ok(st, ('sym', n.t, lambda i: subst(v, k.t, i)))
    if x.name == 'range':
        lo, hi = (0, x.args[0]) if len(x.args) == 1 else x.args
        n = term(hi) - term(lo)
        n = n if known(I, st, n >= 0) else z3.If(n >= 0, n, tm.I(0))
        return ok(st, ('sym', n, lambda i: T('int', term(lo) + i)))
    if x.name == 'dkeys':
        return I.iterate(st, x.args[0])
    if x.name in ('dvalues', 'ditems'):
        d = x.args[0]
        pair = x.name == 'ditems'
        if isinstance(d, dict):
            return ok(st, ('conc', list(d.items()) if pair else list(d.values())))
        if isinstance(d, Ref):
            h = st.heap[d.id]
            items = []
            for k, v in h.data.items():
                g = Not(asb(I.is_absent(v)))
                if isinstance(v, U):
                    alts = [(c, w) for c, w in v.alts if w is not UNBOUND]
                    v = alts[0][1] if len(alts) == 1 else U(alts)
                if v is UNBOUND:
                    continue
                items.append((g, (k, v) if pair else v))
            if all(z3.is_true(g) for g, _ in items):
                return ok(st, ('conc', [v for _, v in items]))
            return ok(st, ('guarded', items))
        if isinstance(d, T):
            t = d.t
            st = I.dict_facts(st, t)

            def at(i):
                k = tm.dkey(t, i)
                from .ops import dkey_norm
                v = T('any', tm.dget(t, dkey_norm(k)), d.cls)
                return (T('any', k, d.cls), v) if pair else v
            return ok(st, ('sym', tm.dlen(t), at))
    if x.name == 'enumerate':
        out = []
        start = x.args[1]
        for s, k, it in I.iterate(st, x.args[0]):
            if k != 'v':
                out.append((s, k, it))
            elif it[0] == 'conc':
                out += ok(s, ('conc', [(i + start, v) for i, v in enumerate(it[1])]))
            elif it[0] == 'sym':
                out += ok(s, ('sym', it[1], lambda i, it=it: (T('int', i + start), it[2](i))))
            else:
                raise Unsupported('enumerate of a guarded sequence')
        return out
    if x.name == 'zip':
        res = ok(st, [])
        for a in x.args:
            res = I.bind(res, lambda s, acc, a=a: I.bind(I.iterate(s, a), lambda s2, it, acc=acc: ok(s2, acc + [it])))
        out = []
        for s, k, its in res:
            if k != 'v':
                out.append((s, k, its))
            elif all(it[0] == 'conc' for it in its):
                out += ok(s, ('conc', [tuple(z) for z in zip(*[it[1] for it in its])]))
            elif all(it[0] == 'sym' for it in its):
                n = its[0][1]
                for it in its[1:]:
                    n = z3.If(it[1] < n, it[1], n)
                out += ok(s, ('sym', n, lambda i, its=its: tuple(it[2](i) for it in its)))
            else:
                raise Unsupported('zip')
        return out
    if x.name == 'reversed':
        out = []
        for s, k, it in I.iterate(st, x.args[0]):
            if k != 'v':
                out.append((s, k, it))
            elif it[0] == 'conc':
                out += ok(s, ('conc', list(reversed(it[1]))))
            elif it[0] == 'sym':
                out += ok(s, ('sym', it[1], lambda i, it=it: it[2](it[1] - 1 - i)))
            else:
                raise Unsupported('reversed')
        return out
    if x.name == 'gen':
        out = []
        for s, k, v in I.comp(x.args[0], st, x.args[1], 'list'):
            out += I.iterate(s, v) if k == 'v' else [(s, k, v)]
        return out
    raise Unsupported('iteration over %s' % x.name)


def call_tag(I, st, fn, args, kw, fid):
    raise Unsupported('call of %s' % fn.name)


# ------------------------------------------------------------------- libraries
def _const(v):
    return lambda I, st, args, kw, fid: ok(st, v)


def _register():
    import base64, io, json, struct, hashlib, hmac, secrets, copy, urllib.parse, binascii
    import cbor2
    import cryptography
    import cryptography.x509
    from cryptography.hazmat.backends import default_backend
    ec, ed25519, ed448, rsa, dsa, hashes, ser, x509, exceptions = libs.crypto()
    M = MODELS
    M[base64.b64decode] = libs.b64decode('')
    M[base64.standard_b64decode] = libs.b64decode('')
    M[base64.urlsafe_b64decode] = libs.b64decode('-_')
    M[base64.b64encode] = libs.b64encode('')
    M[base64.standard_b64encode] = libs.b64encode('')
    M[base64.urlsafe_b64encode] = libs.b64encode('-_')
    M[io.BytesIO] = libs.new_bytesio
    M[json.loads] = libs.json_loads
    M[struct.unpack] = libs.struct_unpack
    M[struct.unpack_from] = libs.struct_unpack_from
    M[int.from_bytes] = libs.int_from_bytes
    for h in ('sha1', 'sha256', 'sha384', 'sha512', 'md5'):
        M[getattr(hashlib, h)] = libs.new_hash(h)
    M[hashlib.new] = libs.hashlib_new
    M[cbor2.loads] = libs.cbor_loads
    M[cbor2.load] = libs.cbor_load
    M[cbor2.dumps] = libs.cbor_dumps
    M[urllib.parse.urlparse] = libs.urlparse('url')
    M[urllib.parse.urlsplit] = libs.urlparse('urlsplit')
    M[copy.copy] = _model_copy(False)
    M[copy.deepcopy] = _model_copy(True)

    def compare_digest(I, st, args, kw, fid):
        a, b = args
        if kind_of(a) == kind_of(b) == 'bytes':
            return ok(st, I.mkbool(I.eq(st, a, b)))
        raise Unsupported('compare_digest')
    M[hmac.compare_digest] = compare_digest
    M[default_backend] = _const(Tag('backend'))
    for n in libs.CURVES:
        M[getattr(ec, n)] = _const(Tag('ec_curve', n))
    for n in ('SHA1', 'SHA224', 'SHA256', 'SHA384', 'SHA512', 'MD5'):
        M[getattr(hashes, n)] = _const(Tag('hashalg', getattr(hashes, n).name))
    M[ec.ECDSA] = lambda I, st, args, kw, fid: ok(st, Tag('ecdsa', libs.arg(args, kw, 0, 'algorithm')))
    M[ec.EllipticCurvePublicNumbers] = libs.ecpn
    M[ed25519.Ed25519PublicKey.from_public_bytes.__func__] = lambda I, st, args, kw, fid: \
        libs.ed_from_bytes('Ed25519')(I, st, args[1:], kw, fid)
    M[ed448.Ed448PublicKey.from_public_bytes.__func__] = lambda I, st, args, kw, fid: \
        libs.ed_from_bytes('Ed448')(I, st, args[1:], kw, fid)
    M[x509.load_der_x509_certificate] = libs.load_cert
    from pyasn1.codec.der import decoder as der
    M[der.decode] = libs.asn_decode


_register()

PURE_MODULES = {'re', 'base64', 'json', 'string', 'math', 'struct', 'binascii', 'functools', 'operator',
                'itertools', 'collections', 'cryptography.hazmat._oid', 'cryptography.x509.oid',
                'urllib.parse', 'hashlib', '_hashlib', '_struct', 'typing', 'builtins', 'enum', '_operator',
                'unicodedata', 'textwrap', 'keyword'}


def call_external(I, st, fn, args, kw):
    m = getattr(fn, '__module__', None) or getattr(type(getattr(fn, '__self__', None)), '__module__', '') or ''
    if m == 'logging' or m == 'warnings' or m.startswith('logging.'):
        return ok(st, None)
    try:
        if isinstance(fn, type) and any(b.__module__.startswith('pyasn1.') for b in fn.__mro__):
            return ok(st, Tag('asnspec', fn)) if not args and not kw else _unsup('pyasn1 construction')
    except AttributeError:
        pass
    if isinstance(getattr(fn, '__self__', None), (list, dict, set)):
        raise Unsupported('method of a shared container')
    if m in PURE_MODULES or m.split('.')[0] in ('operator', '_operator'):
        if fn in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.contains):
            op = {operator.eq: ast.Eq, operator.ne: ast.NotEq, operator.lt: ast.Lt, operator.le: ast.LtE,
                  operator.gt: ast.Gt, operator.ge: ast.GtE}.get(fn)
            if op:
                return [(s, k, I.mkbool(v) if k == 'v' and not isinstance(v, T) else v)
                        for s, k, v in compare(I, st, op(), args[0], args[1])]
            return contains(I, st, args[0], args[1])
        r = native(I, st, fn, args, kw)
        if r is not None:
            return r
    raise Unsupported('call of %s.%s' % (m, getattr(fn, '__qualname__', fn)))
