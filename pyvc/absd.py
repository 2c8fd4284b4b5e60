"""A cheap over-approximation of the path formulas.

The sequence theory makes most satisfiable queries slow although the queries only compare strings with
constants.  `Abs.tr` maps a formula to one in which text and byte strings are opaque integers: literals become
distinct numbers, sequence operators become uninterpreted functions with ground length facts.  Every model of the
original formula gives a model of the translated formula plus facts, so an `unsat` answer carries over."""
import z3
from . import terms as tm

Int, Bool = z3.IntSort(), z3.BoolSort()
_V = z3.Datatype('Va')
for c, f, s in (('vnone', None, None), ('vbool', 'ub', Bool), ('vint', 'ui', Int), ('vflt', 'uf', Int),
                ('vstr', 'us', Int), ('vbytes', 'uy', Int), ('vlist', 'ul', Int), ('vtuple', 'ut', Int),
                ('vdict', 'ud', Int), ('vother', 'uo', Int)):
    if f is None:
        _V.declare(c)
    else:
        _V.declare(c, (f, s))
VA = _V.create()
CON = {VA.constructor(i).name(): VA.constructor(i) for i in range(VA.num_constructors())}
REC = {VA.constructor(i).name(): VA.recognizer(i) for i in range(VA.num_constructors())}
ACC = {}
for _i in range(VA.num_constructors()):
    for _j in range(VA.constructor(_i).arity()):
        a = VA.accessor(_i, _j)
        ACC[a.name()] = a


def msort(s):
    k = s.kind()
    if k == z3.Z3_SEQ_SORT:
        return Int
    if s == tm.V:
        return VA
    if k == z3.Z3_ARRAY_SORT:
        return z3.ArraySort(msort(s.domain()), msort(s.range()))
    return s


def s_tag(s):
    return 's' if s == tm.Str else 'b'


class Abs:
    def __init__(self):
        self.memo = {}          # id -> (ast, translated, facts ids)
        self.facts = {}         # id -> tuple of facts of the subterm (transitive, as frozenset of indexes)
        self.table = []
        self.fns = {}
        self.lits = {}
        self.keep = []

    def fact(self, f):
        self.table.append(f)
        return len(self.table) - 1

    def fn(self, name, sig, rng):
        key = (name, tuple(str(s) for s in sig), str(rng))
        if key not in self.fns:
            self.fns[key] = z3.Function('%s~%d' % (name, len(self.fns)), *(list(sig) + [rng])) if sig else None
        return self.fns[key]

    def lit(self, key):
        """key: ('s', text) or ('b', tuple of ints)"""
        if key not in self.lits:
            self.lits[key] = 1000 + len(self.lits)
        return z3.IntVal(self.lits[key])

    def bytes_lit(self, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return ()
        if k == z3.Z3_OP_SEQ_UNIT:
            x = e.arg(0)
            return (x.as_long(),) if z3.is_int_value(x) else None
        if k == z3.Z3_OP_SEQ_CONCAT:
            out = ()
            for c in e.children():
                x = self.bytes_lit(c)
                if x is None:
                    return None
                out += x
            return out
        return None

    def tr(self, e):
        """-> (translated, frozenset of fact indexes)"""
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in self.memo:
                stack.pop()
                continue
            if z3.is_quantifier(x):
                stack.pop()
                self.memo[i] = (x,) + self.quant(x)
                continue
            todo = [c for c in x.children() if c.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.memo[i] = (x,) + self.node(x)
        return self.memo[e.get_id()][1:]

    def quant(self, q):
        n = q.num_vars()
        cs = [z3.Const('%s?%d' % (q.var_name(i), i), q.var_sort(i)) for i in range(n)]
        body = z3.substitute_vars(q.body(), *reversed(cs))
        nb, fs = self.tr(body)
        ncs = [self.tr(c)[0] for c in cs]
        pats = []
        for i in range(q.num_patterns()):
            p = q.pattern(i)
            pc = [self.tr(z3.substitute_vars(c, *reversed(cs)))[0] for c in p.children()]
            pats.append(z3.MultiPattern(*pc))
        # facts that mention the bound variables are dropped
        bound = {str(c) for c in ncs}
        keep = frozenset(f for f in fs if not (tm.symbols([self.table[f]]) & bound))
        f = z3.ForAll if q.is_forall() else z3.Exists
        try:
            r = f(ncs, nb, patterns=pats)
        except z3.Z3Exception:
            r = f(ncs, nb)
        return r, keep

    def node(self, x):
        ch = [self.memo[c.get_id()][1] for c in x.children()]
        fs = frozenset()
        for c in x.children():
            fs |= self.memo[c.get_id()][2]
        s = x.sort()
        d = x.decl()
        k = d.kind()
        if s.kind() == z3.Z3_SEQ_SORT:
            if z3.is_string_value(x):
                return self.mklit(('s', x.as_string()), fs)
            if s == tm.Bytes:
                b = self.bytes_lit(x)
                if b is not None:
                    return self.mklit(('b', b), frozenset())
        if k == z3.Z3_OP_UNINTERPRETED:
            sig = [msort(d.domain(i)) for i in range(d.arity())]
            rng = msort(s)
            if s == rng and s.kind() != z3.Z3_SEQ_SORT and all(d.domain(i) == sig[i] for i in range(d.arity())):
                return (x if not ch else d(*ch)), fs
            if not ch:
                r = z3.Const('%s~' % d.name(), rng)
            else:
                key = (d.name(),) + tuple(str(d.domain(i)) for i in range(d.arity()))
                r = self.fn('/'.join(key), sig, rng)(*ch)
            if s.kind() == z3.Z3_SEQ_SORT:
                fs = fs | self.len_facts(r, s)
            return r, fs
        name = d.name()
        if k in (z3.Z3_OP_DT_CONSTRUCTOR,) and s == tm.V:
            return (CON[name](*ch) if ch else VA.__getattribute__(name)), fs
        if k in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER) and x.arg(0).sort() == tm.V:
            cn = d.params()[0].name() if d.params() else name[3:]
            return REC[cn](ch[0]), fs
        if k == z3.Z3_OP_DT_ACCESSOR and x.arg(0).sort() == tm.V:
            r = ACC[name](ch[0])
            if s.kind() == z3.Z3_SEQ_SORT:
                fs = fs | self.len_facts(r, s)
            return r, fs
        if k == z3.Z3_OP_EQ:
            return ch[0] == ch[1], fs
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch), fs
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch), fs
        seqy = s.kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT) or \
            any(c.sort().kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT) for c in x.children())
        if not seqy:
            if any(not a.eq(b) for a, b in zip(ch, x.children())):
                if k == z3.Z3_OP_AND:
                    return z3.And(*ch), fs
                if k == z3.Z3_OP_OR:
                    return z3.Or(*ch), fs
                return d(*ch), fs
            return x, fs
        # sequence operators
        src = x.children()
        st = s_tag(s if s.kind() == z3.Z3_SEQ_SORT else
                   next((c.sort() for c in src if c.sort().kind() == z3.Z3_SEQ_SORT), tm.Str))
        if any(c.sort().kind() == z3.Z3_RE_SORT for c in src) or s.kind() == z3.Z3_RE_SORT:
            return z3.Const('re~%d' % x.get_id(), Bool if s == Bool else Int), fs
        L = self.fn('len' + st, [Int], Int)
        if k == z3.Z3_OP_SEQ_LENGTH:
            return L(ch[0]), fs
        f = self.fn('op%d%s%s' % (k, st, len(ch)), [c.sort() for c in ch], Int if s.kind() == z3.Z3_SEQ_SORT else s)
        r = f(*ch)
        if s.kind() == z3.Z3_SEQ_SORT:
            extra = set(self.len_facts(r, s))
            if k == z3.Z3_OP_SEQ_CONCAT:
                extra.add(self.fact(L(r) == z3.Sum(*[L(c) for c in ch])))
            elif k == z3.Z3_OP_SEQ_UNIT:
                extra.add(self.fact(L(r) == 1))
            elif k == z3.Z3_OP_SEQ_EXTRACT:
                b, o, n = ch
                ok = z3.And(o >= 0, o < L(b), n > 0)
                extra.add(self.fact(L(r) == z3.If(ok, z3.If(n < L(b) - o, n, L(b) - o), 0)))
                extra.add(self.fact(z3.Implies(z3.And(o == 0, n >= L(b)), r == b)))
            elif k == z3.Z3_OP_SEQ_AT:
                b, o = ch
                extra.add(self.fact(L(r) == z3.If(z3.And(o >= 0, o < L(b)), 1, 0)))
            fs = fs | frozenset(extra)
        elif k == z3.Z3_OP_SEQ_PREFIX or k == z3.Z3_OP_SEQ_SUFFIX:
            fs = fs | {self.fact(z3.Implies(r, L(ch[0]) <= L(ch[1])))}
        elif k == z3.Z3_OP_SEQ_CONTAINS:
            fs = fs | {self.fact(z3.Implies(r, L(ch[1]) <= L(ch[0])))}
        return r, fs

    def mklit(self, key, fs):
        r = self.lit(key)
        L = self.fn('len' + key[0], [Int], Int)
        n = len(key[1])
        if key[0] == 's' and '\\' in key[1]:
            return r, fs
        return r, fs | {self.fact(L(r) == n)}

    def len_facts(self, r, s):
        t = s_tag(s)
        L = self.fn('len' + t, [Int], Int)
        empty = self.lit((t, '' if t == 's' else ()))
        return frozenset([self.fact(L(r) >= 0), self.fact((L(r) == 0) == (r == empty))])

    def formulas(self, es):
        out, fs = [], set()
        for e in es:
            t, f = self.tr(e)
            out.append(t)
            fs |= f
        return out + [self.table[i] for i in sorted(fs)]


ABS = Abs()
