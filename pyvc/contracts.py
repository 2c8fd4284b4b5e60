"""Contracts, the obligations they generate, and their discharge."""
import inspect
import os, subprocess, tempfile, time, traceback
import z3
from . import terms as tm
from .terms import And, Or, Not, Implies, asb, V
from .values import *
from . import spec as sp
from .absd import ABS


class Raise:
    """The function is refused with `exc` (or a subclass) when `guard`; it may be refused so when `may`."""
    def __init__(self, name, guard, exc, props=None, may=None):
        self.name, self.guard, self.exc, self.props = name, asb(guard), exc, props
        self.may = self.guard if may is None else Or(self.guard, may)


class Post:
    def __init__(self, raises, result=sp.NONE, facts=(), fields=None, event=None, checks=(),
                 rchecks=(), call_facts=()):
        self.call_facts = list(call_facts)   # over the built result; proved by `checks`
        self.raises, self.result, self.facts = raises, result, list(facts)
        self.fields = fields or {}      # result label -> property ids
        self.event = event              # (st -> st) effect recorded at call sites
        self.rchecks = rchecks          # [(name, fn(I, st, exc) -> formula, props)] on refusing paths
        self.checks = checks            # [(name, fn(I, st, value) -> formula, props)] on return paths


REG = {}


class Contract:
    def __init__(self, name, props, args, post, pre=None, opaque=None, summarise=True, uses=(), total=None,
                 expose=False, bounded=3, vacuous=False, transparent=(),
                 only=None, setup=None, honest=lambda E: [], omitted=(), call=None, recursive=False, group=None,
                 assumed=False):
        self.omitted = omitted        # arguments left to their defaults
        self.assumed = assumed        # used at call sites, never verified
        self.call = call              # (I, st, fn, {argument: value}) -> results; how the function is reached
        self.recursive = recursive    # calls of the function in its own body go by its contracts
        self.call_result = None       # node of the result at call sites, when it is a ghost function
        self.group = group            # contracts that one process verifies
        self.honest = honest          # exception class -> properties of `refuses-only-invalid`
        self.only = only              # exception class -> properties of `raises-only-documented`
        self.setup = setup            # (I, inputs) -> None, before execution
        self.expose = expose          # callers may use the negated refusal conditions
        self.vacuous = vacuous        # the function never returns on these inputs
        self.transparent = transparent  # callees whose opaque refusals are unfolded here
        self.name, self.props, self.args, self.post = name, list(props), args, post
        self.pre, self.opaque, self.summarise = pre, opaque, summarise
        self.total = total            # property id for "only library errors escape"
        self.uses = uses
        self.bounded = bounded
        REG[name] = self

    # ---------------------------------------------------------- call sites
    def bind(self, fn, args, kw):
        names = list(self.args)
        order, kwonly = parameters(fn)
        if not set(n for n in names if not n.startswith('*')) <= set(order) | kwonly:
            order = names                # renamed parameters: by position
        d = dict(zip(order, args))
        if len(args) > len(order) or any(k in d or k not in names for k in kw):
            return None
        d.update(kw)
        dflt = fn.__defaults__ or ()
        code = fn.__code__.co_varnames[:fn.__code__.co_argcount]
        for n, v in zip(code[len(code) - len(dflt):], dflt):
            d.setdefault(n, v)
        for n, v in (fn.__kwdefaults__ or {}).items():
            d.setdefault(n, v)
        return d if set(d) == set(names) else None

    def summary(self, I, st, fn, args, kw):
        """Results of a call, from the contract; None when not applicable."""
        d = self.bind(fn, args, kw)
        if d is None:
            return None
        for n, v in d.items():
            if isinstance(v, U):
                alts = [(g, x) for g, x in v.alts if I.feasible(st, asb(g))]
                if len(alts) < len(v.alts):
                    d[n] = alts[0][1] if len(alts) == 1 else U(alts)
        a = {n: sp.view(I, st, v) for n, v in d.items()}
        if self.pre is not None:
            p = self.pre(a)
            if p is None:
                return None
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*ABS.formulas([x for x in st.pc + (Not(asb(p)),) if not tm.has_quantifier(x)]))
            if s.check() != z3.unsat:
                return None
        opaque = self.opaque if self.name not in I.transparent else None
        if opaque is not None:
            key = opaque(a)
            if key is None:
                return None
            post = self.post(a)
            raises, seen = [], {}
            for r in post.raises:
                seen.setdefault(r.exc, []).append(r)
            for exc in seen:
                u = tm.uf('raises:%s:%s' % (self.name, exc.__name__), *([k.sort() for k in key] + [tm.Bool]))
                raises.append(Raise(exc.__name__, u(*key), exc))
        else:
            post = self.post(a)
            raises = post.raises
        out = []
        by = {}
        for r in raises:
            by.setdefault(r.exc, []).append(r.guard)
        for exc, gs in by.items():
            g = Or(*gs)
            if I.feasible(st, g):
                out.append((st.assume(g), 'x', ExcV(exc, ('…',), True)))
        s = st.assume(*[Not(r.guard) for r in raises])
        if I.feasible(s):
            if opaque is not None and self.expose:
                s = s.assume(*[Not(r.guard) for r in post.raises if not tm.has_quantifier(r.guard)])
            s = s.assume(*post.facts, *post.call_facts)
            if post.event is not None:
                s = post.event(I, s, d)
            s, v = (post.result if self.call_result is None else self.call_result(a)).build(I, s)
            out.append((s, 'v', v))
        return out


def contract(name, props, args, **kw):
    def deco(f):
        return Contract(name, props, args, f, **kw)
    return deco


# ------------------------------------------------------------------ obligations
class Ob:
    __slots__ = ('name', 'props', 'hyps', 'goal', 'status', 'backend', 'seconds', 'model', 'detail')

    def __init__(self, name, props, hyps, goal, detail=''):
        self.name, self.props, self.hyps, self.goal, self.detail = name, tuple(props), hyps, goal, detail
        self.status = self.backend = None
        self.seconds, self.model = 0.0, None


def cvc5_check(hyps, goal, timeout):
    s = z3.Solver()
    s.add(*hyps)
    s.add(Not(goal))
    txt = s.to_smt2().replace('(set-info :status unknown)', '(set-logic ALL)')
    txt = txt.replace('seq.nth_i', 'seq.nth').replace('seq.nth_u', 'seq.nth')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (timeout * 1000), f.name],
                           capture_output=True, text=True, timeout=timeout + 10)
        return r.stdout.split('\n')[0].strip()
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


def model_values(m, inputs):
    """Concrete values of the scalar inputs in a counter-model."""
    out = {}
    for name, t in inputs.items():
        try:
            v = m.eval(t, model_completion=True)
            if t.sort() == tm.Str:
                out[name] = tm.text(v) if z3.is_string_value(v) else None
            elif t.sort() == tm.Int:
                out[name] = v.as_long()
            elif t.sort() == tm.Bool:
                out[name] = z3.is_true(v)
            else:
                out[name] = str(v)[:2000]
        except Exception:
            pass
    return out


def discharge(ob, z3_ms=6000, cvc5_s=8, inputs=None):
    t0 = time.time()
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        ob.status, ob.backend = 'proved', 'syntactic'
        return ob
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*ABS.formulas(list(ob.hyps) + [Not(ob.goal)]))
    r = s.check()
    if r == z3.unsat:
        ob.status, ob.backend = 'proved', 'z3'
    elif split_proves(ob, z3_ms):
        ob.status, ob.backend = 'proved', 'z3-cases'
    else:
        s = z3.Solver()
        s.set('timeout', z3_ms)
        s.add(*ob.hyps)
        s.add(Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            ob.status, ob.backend = 'proved', 'z3-seq'
        elif r == z3.sat:
            ob.status, ob.backend = 'refuted', 'z3-seq'
            ob.model = model_values(s.model(), inputs or {})
        else:
            c = cvc5_check(ob.hyps, ob.goal, cvc5_s) if cvc5_s else 'unknown'
            if c == 'unsat':
                ob.status, ob.backend = 'proved', 'cvc5'
            elif c == 'sat':
                ob.status, ob.backend = 'refuted', 'cvc5'
            else:
                ob.status, ob.backend = 'unknown', 'z3+cvc5'
    if ob.status == 'refuted' and any(uninterpreted(t) for t in [ob.goal] + list(ob.hyps)):
        ob.status = 'vague'
    ob.seconds = time.time() - t0
    return ob


def split_proves(ob, z3_ms):
    """Is the obligation unsatisfiable in both cases of the condition that most hypotheses depend on?"""
    fs = list(ob.hyps) + [Not(ob.goal)]
    count, by = {}, {}
    for f in fs:
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES and not z3.is_true(f.arg(0)):
            k = f.arg(0).get_id()
            by[k] = f.arg(0)
            count[k] = count.get(k, 0) + 1
    if not count or max(count.values()) < 3:
        return False
    g = by[max(count, key=lambda k: count[k])]
    for value, case in ((False, Not(g)), (True, g)):
        s = z3.Solver()
        s.set('timeout', z3_ms)
        s.add(*[z3.simplify(z3.substitute(f, (g, z3.BoolVal(value)))) for f in fs])
        s.add(case)
        if s.check() != z3.unsat:
            return False
    return True


def uninterpreted(t):
    """The formula speaks about a text that the models do not describe, such as a formatted number."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().name().startswith(('msg!', 'approx!')):
                return True
            todo += x.children()
    return False


class Report:
    """Outcome of verifying one function against its contract."""
    def __init__(self, name):
        self.name = name
        self.obs = []                # (name, props, status, backend, seconds, model, detail)
        self.problem = None          # why the function is out of reach
        self.bounded = 0
        self.paths = self.returns = 0
        self.wall = self.solver = 0.0
        self.callees = []
        self.visited = []
        self.trusted = []
        self.events = []

    def worst(self):
        if self.problem:
            return 'unsupported'
        st = {o[2] for o in self.obs}
        for x in ('refuted', 'unknown'):
            if x in st:
                return x
        return 'proved'


def install(I, src, target=None, recursive=False):
    for c in REG.values():
        if not c.summarise:
            continue
        fn = src.resolve(c.name, missing_ok=True)
        if fn is not None and (recursive or fn is not target):
            site = I.contracts.setdefault(id(fn), Site(fn))
            site.cs.append(c)


class Site:
    def __init__(self, fn):
        self.fn, self.cs, self.name = fn, [], None

    def summary(self, I, st, args, kw):
        for c in self.cs:
            r = c.summary(I, st, self.fn, args, kw)
            if r is not None:
                self.name = c.name
                return r
        return None


def verify(name, src, Interp, budget=120, want=None, z3_ms=6000, cvc5_s=8):
    """want(obligation) selects what is discharged."""
    c = REG[name]
    rep = Report(name)
    t0 = time.time()
    try:
        fn = src.resolve(name, missing_ok=True)
        if fn is None:
            rep.problem = 'function not found'
            return rep
        try:
            obs, inputs = generate(c, fn, src, Interp, 0, rep, t0 + budget)
        except NeedBounded as e:
            rep.bounded = c.bounded
            rep.problem_bounded = str(e)
            obs, inputs = generate(c, fn, src, Interp, c.bounded, rep, t0 + budget)
        cache = {}
        for ob in obs:
            if want is not None and not want(ob):
                continue
            if time.time() > t0 + budget * 2:
                ob.status, ob.backend = 'unknown', 'time'
            else:
                discharge(ob, z3_ms, cvc5_s, inputs)
            rep.obs.append((ob.name, ob.props, ob.status, ob.backend, round(ob.seconds, 3), ob.model, ob.detail))
        # a counterexample that rests on such a text may be spurious: it does not stand alone
        vague = [o[0] for o in rep.obs if o[2] == 'vague']
        if vague:
            if not any(o[2] == 'refuted' for o in rep.obs):
                rep.problem = 'text that the models do not describe decides ' + vague[0]
            rep.obs = [o[:2] + ('refuted',) + o[3:] if o[2] == 'vague' else o for o in rep.obs]
    except FrameBroken as e:
        ob = Ob('%s/frame' % name, ['C26'], (), tm.FALSE, str(e))
        if want is None or want(ob):
            rep.obs = [(ob.name, ob.props, 'refuted', 'frame', 0.0, None, ob.detail)]
        else:
            rep.problem = 'frame broken: %s' % e
    except (Unsupported, NeedBounded) as e:
        rep.problem = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        rep.problem = 'RecursionError in the verifier'
    except Exception as e:                      # an engine limitation, never a verdict
        rep.problem = 'internal: %s: %s' % (type(e).__name__, traceback.format_exc()[-700:])
    rep.wall = time.time() - t0
    return rep


def parameters(fn):
    """-> positional parameter names in order, keyword-only names"""
    try:
        ps = inspect.signature(fn).parameters.values()
    except (TypeError, ValueError):
        return [], set()
    return [p.name for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)], \
        {p.name for p in ps if p.kind == p.KEYWORD_ONLY}


def generate(c, fn, src, Interp, bounded, rep, deadline):
    obs = []
    shapes = c.args() if callable(c.args) else [c.args]
    I = Interp(src, bounded=bounded, deadline=deadline)
    I.transparent = c.transparent
    install(I, src, fn, c.recursive)
    if c.recursive:
        I.enter = id(fn)
    pre = []
    a = {}
    for n, mk in c.args.items():
        a[n] = mk(n, pre) if callable(mk) else mk
    st = State(pc=tuple(asb(p) for p in pre))
    vals = []
    for n, node in a.items():
        st, v = node.build(I, st)
        vals.append(v)
    if c.pre is not None:
        st = st.assume(asb(c.pre(a)))
    I.inputs = dict(zip(a, vals))
    st = st.own_inputs()
    I.input_names = set()
    for x in a.values():
        sp.input_names(x, I.input_names)
    post = c.post(a)
    inputs = input_terms(a)
    given = {n: v for n, v in zip(a, vals) if n not in c.omitted and not n.startswith('*')}
    order, kwonly = parameters(fn)
    named = [n for n in order if n in given]
    if set(given) <= set(order) | kwonly and named == order[:len(named)]:
        pos = [given[n] for n in named]
    else:                                # renamed parameters: by position
        pos = [v for n, v in given.items() if n not in kwonly]
    kw = {n: v for n, v in given.items() if n in kwonly}
    if c.call is None and c.name.split('#')[0].split('.')[-1].startswith('_') and hasattr(fn, '__code__'):
        try:
            inspect.signature(fn).bind(*pos, **kw)
        except TypeError:
            raise Unsupported('the parameters of a private function have changed')
    base = len(st.pc)
    res = I.call1(st, fn, pos, kw, None) if c.call is None else c.call(I, st, fn, dict(zip(a, vals)))
    rep.paths += len(res)
    rep.callees = sorted(I.used_contracts)
    rep.visited = sorted(I.visited)
    rep.trusted = sorted(I.used_models)
    rep.pruned = I.pruned
    short = c.name
    for s, k, v in res:
        writes = [e for e in s.events if e[0] == 'write']
        if writes:
            obs.append(Ob('%s/frame' % short, ['C26'], s.pc, tm.FALSE, 'writes %r' % (writes[0],)))
        else:
            obs.append(Ob('%s/frame' % short, ['C26'], s.pc, tm.TRUE))
        if k == 'v':
            rep.returns += 1
            for r in post.raises:
                obs.append(Ob('%s/refuses:%s' % (short, r.name), r.props or c.props, s.pc, Not(r.guard)))
            for i, f in enumerate(post.facts):
                obs.append(Ob('%s/fact:%d' % (short, i), c.props, s.pc, f))
            for lab, f in sp.match(I, s, v, post.result):
                obs.append(Ob('%s/%s' % (short, lab), post.fields.get(lab, c.props), s.pc, f))
            for nm, chk, pr in post.checks:
                obs.append(Ob('%s/%s' % (short, nm), pr or c.props, s.pc, asb(chk(I, s, v))))
        else:
            E = v.cls
            gs = [r.may for r in post.raises if issubclass(E, r.exc)]
            goal = Or(*gs) if gs else tm.FALSE
            from_lib = issubclass(E, LIBERR[0]) if LIBERR else False
            pr = list(c.props)
            for r in post.raises:
                if r.props:
                    pr += [p for p in r.props if p not in pr]
            if c.only is not None:
                pr = list(c.only(E))
            if not from_lib and c.total:
                pr.append(c.total)
            elif c.total == 'C25':
                obs.append(Ob('%s/escapes-as-library-error:%s' % (short, E.__name__), [c.total], s.pc, tm.TRUE))
            for nm, chk, p2 in post.rchecks:
                obs.append(Ob('%s/%s' % (short, nm), p2 or c.props, s.pc, asb(chk(I, s, v))))
            obs.append(Ob('%s/raises-only-documented:%s' % (short, E.__name__), pr, s.pc, goal,
                          'raises %s' % E.__name__))
            if c.honest is not None:
                obs.append(Ob('%s/refuses-only-invalid:%s' % (short, E.__name__), c.honest(E), s.pc,
                              Or(*[r.may for r in post.raises]), 'raises %s' % E.__name__))
    # vacuity: some path returns
    if rep.returns == 0 and not c.vacuous and not rep.bounded:
        obs.append(Ob('%s/returns' % short, c.props, (), tm.FALSE, 'no returning path'))
    return obs, inputs


LIBERR = []


def input_terms(a):
    out = {}

    def walk(n, x):
        if isinstance(x, sp.Cond):
            for i, (g, y) in enumerate(x.alts):
                if not (z3.is_true(g) or z3.is_false(g)):
                    out['%s.g%d' % (n, i)] = g
                walk(n, y)
        elif isinstance(x, sp.Any_):
            out[n] = x.t
        elif isinstance(x, sp.Sc):
            out[n] = x.t
        elif isinstance(x, sp.Obj):
            for f, y in x.fields.items():
                walk(n + '.' + f, y)
    for n, x in a.items():
        walk(n, x)
    return out
