"""Contracts of the data classes, identifier tables, base64url, builders and JSON conversion."""
from .common import *
import tables as tb
import webauthn_rp.registrars as rg
import webauthn_rp.converters as cv
import webauthn_rp.builders as bd
from pyvc.contracts import Contract
from .common import _Missing

JE, UE, BE = er.JSONConversionError, er.UnimplementedError, er.BuilderError


def cls_of(key):
    return getattr({'types': ty, 'registrars': rg}[key[0]], key[1], None) or _Missing


def default(d):
    """Documented default as a node."""
    if isinstance(d, tb.E):
        m = getattr(getattr(ty, d.cls), '__members__', {}).get(d.name)
        return Enm(enum_term(m), type(m)) if m is not None else Sc('int', tm.I(-7))
    return Const(d)


def anyarg(n, pre):
    return fresh_any(n)


def dict_arg(I, st, d):
    """A keyword dictionary built by the caller."""
    return I.alloc(st, HObj('dict', None, dict(d)))


def lemma(name, *order, **fixed):
    """Calls the lemma function with these parameters, some of them dictionaries of arguments."""
    def call(I, st, fn, d):
        args = []
        for o in order:
            if callable(o):
                st, v = o(I, st, d)
                args.append(v)
            elif o in fixed:
                args.append(fixed[o])
            else:
                args.append(d[o])
        return I.call1(st, fn, args, {}, None)
    return call


def mapping(names, pref=''):
    return lambda I, st, d: dict_arg(I, st, {n: d[pref + n] for n in names})


# ---------------------------------------------------------------- data classes
def groups():
    n = 0
    while True:
        yield 'data%d' % (n // 12 % 8)
        n += 1


grp = groups()


def construct(key, fields, given, tag, missing=None):
    cls = cls_of(key)

    def post(a):
        if missing:
            return Post([Raise('missing-' + missing, tm.TRUE, TypeError)])
        out = {n: a[n] if n in given else default(d) for n, d in fields}
        out.update({n: default(d) for n, d in tb.EXTRA.get(key[1], [])})
        return Post([], Obj(cls, out))
    Contract('lemma.construct#%s%s' % (key[1], tag), ['C28'], {n: anyarg for n in given}, post, summarise=False,
             vacuous=bool(missing), honest=None, group=next(grp),
             call=lambda I, st, fn, d: _construct(I, st, fn, cls, d))


def _construct(I, st, fn, cls, d):
    st, r = dict_arg(I, st, d)
    return I.call1(st, fn, [cls, r], {}, None)


for key, fields in list(tb.CLASSES.items()) + list(tb.TUPLES.items()):
    names_ = [n for n, _ in fields]
    need = [n for n, d in fields if d is tb.REQ]
    optional = [n for n in names_ if n not in need]
    construct(key, fields, names_, '')
    for o in optional:
        construct(key, fields, [n for n in names_ if n != o], '-without-' + o)
    if len(optional) > 1:
        construct(key, fields, need, '-defaults')
    for o in need:
        construct(key, fields, [n for n in names_ if n != o], '-missing-' + o, missing=o)
    if key[1] in tb.POSITIONAL:
        def post(a, key=key, fields=fields):
            return Post([], Obj(cls_of(key), {n: a[n] for n, _ in fields}))
        Contract('lemma.construct_positional#' + key[1], ['C28'], {n: anyarg for n in names_}, post, summarise=False,
                 honest=None, group=next(grp),
                 call=lambda I, st, fn, d, key=key: I.call1(st, fn, [cls_of(key)] + list(d.values()), {}, None))


# ------------------------------------------------------------ identifier tables
def table_rows(cls_name):
    """[(enum class, [(member name, value)])]"""
    if cls_name in tb.ENUMS:
        return [(getattr(ty, cls_name, _Missing), list(tb.ENUMS[cls_name].items()))]
    c = getattr(ty, cls_name, _Missing)
    rows = tb.NAMED[cls_name]
    return [(getattr(c, 'Name', _Missing), [(n, s) for n, (s, _) in rows.items()]),
            (getattr(c, 'Value', _Missing), [(n, v) for n, (_, v) in rows.items()])]


def same_value(t, x):
    """Python equality of a decoded value and a table value."""
    if isinstance(x, str):
        return t == V.vstr(tm.S(x))
    return Or(And(V.is_vint(t), V.ui(t) == x),
              And(V.is_vbool(t), z3.If(V.ub(t), tm.I(1), tm.I(0)) == x),
              And(V.is_vflt(t), tm.flt_isint(V.uf(t)), tm.flt_int(V.uf(t)) == x))


def lookup(name):
    c = getattr(ty, name, _Missing)

    def post(a):
        t = a['value'].t
        rows = table_rows(name)
        if name in tb.NAMED:
            hit = lambda v: t == tm.lift(v)                # numbers are ints, names are strings
        else:
            hit = lambda v: same_value(t, v)
        r = tm.I(-1)
        known = []
        for cls, entries in rows:
            for n, v in entries:
                r = z3.If(hit(v), mem(cls, n), r)
                known.append(hit(v))
        return Post([Raise('unknown', Not(Or(*known)), Exception)], Enm(r, tuple(x for x, _ in rows)))
    Contract('lemma.lookup#' + name, ['C27'], {'value': anyarg}, post, summarise=False, honest=None, group='tables',
             pre=lambda a: Not(V.is_vother(a['value'].t)),
             call=lambda I, st, fn, d: I.call1(st, fn, [c, d['value']], {}, None))
    for cls, entries in table_rows(name):
        def entry_post(a, entries=entries, cls=cls):
            t = a['member'].t
            alts = [(t == mem(cls, n), Tup([Const(n), Const(v)])) for n, v in entries]
            alts.append((Not(Or(*[g for g, _ in alts])), Const(_Missing)))
            return Post([], Cond(alts))
        Contract('lemma.entry#' + name + ('' if len(table_rows(name)) == 1 else '.' + getattr(cls, '__name__', '?')),
                 ['C27'], {'member': lambda n, pre, cls=cls: fresh_enum(cls, n, pre)}, entry_post, summarise=False,
                 honest=None, group='tables')


for name in list(tb.ENUMS) + list(tb.NAMED):
    lookup(name)


@contract('lemma.extension_key', ['C27'], {'member': lambda n, pre: fresh_enum(ty.ExtensionIdentifier, n, pre)},
          summarise=False, honest=None, group='tables')
def extension_key(a):
    t = a['member'].t
    alts = [(t == mem(ty.ExtensionIdentifier, n), Const(k)) for n, k in tb.EXTENSION_KEYS.items()]
    alts.append((Not(Or(*[g for g, _ in alts])), Const(_Missing)))
    return Post([], Cond(alts))


def curve_arg(n, pre):
    cs = (ty.EC2Curve.Name, ty.EC2Curve.Value, ty.OKPCurve.Name, ty.OKPCurve.Value)
    return fresh_enum(cs, n, pre)


@contract('utils.curve_coordinate_byte_length', ['C27'], {'crv': curve_arg}, summarise=False, honest=None,
          group='tables')
def coordinate_length(a):
    t, r = a['crv'].t, tm.I(-1)
    for cls in a['crv'].cls:
        for n, k in tb.COORDINATE.items():
            if n in cls.__members__:
                r = z3.If(t == mem(cls, n), tm.I(k), r)
    return Post([], Sc('int', r))


def ec2_alg(n, pre):
    e = fresh_enum(ty.COSEAlgorithmIdentifier, n, pre)
    pre.append(Or(*[e.t == mem(c, x) for c in e.cls for x in tb.HASH]))
    return e


@contract('utils.ec2_hash_algorithm', ['C27', 'C18'], {'alg': ec2_alg}, summarise=False, honest=None, group='tables')
def ec2_hash_algorithm(a):
    t = a['alg'].t
    nm = tm.S('?')
    for c in a['alg'].cls:
        for n, (h, _) in tb.HASH.items():
            nm = z3.If(t == mem(c, n), tm.S(h), nm)

    def is_hash(I, st, v):
        vals = v.alts if isinstance(v, U) else [(True, v)]
        return And(*[Implies(asb(g), nm == tm.S(hash_name(x))) for g, x in vals])
    return Post([], Free(), checks=[('result.hash', is_hash, None)])


def hash_name(x):
    if isinstance(x, Tag) and x.name == 'hashalg':
        return str(x.args[0]).lower()
    raise Unsupported('hash algorithm')


# ------------------------------------------------------------------- base64url
@contract('utils.url_base64_encode', ['C27'], {'b': fresh_bytes}, summarise=False, honest=None, group='tables')
def url_base64_encode(a):
    return Post([], Sc('bytes', tm.b64_enc(a['b'].t, tm.S('-_'))))


for n in ('base64_roundtrip', 'base64_roundtrip_unpadded'):
    @contract('lemma.' + n, ['C27'], {'b': fresh_bytes}, summarise=False, honest=None, group='tables')
    def roundtrip(a):
        return Post([], Sc('bytes', a['b'].t))


# ------------------------------------------------------------------------ names
def name_contract(fn, given, result):
    Contract('utils.%s#%s' % (fn, given), ['C27', 'C23'] if fn.startswith('snake') else ['C27'], {'s': Const(given)},
             lambda a: Post([], Const(result)), summarise=False, honest=None, group='names')


for n in sorted({n for t in (tb.CLASSES, tb.TUPLES, tb.EXTRA) for f in t.values() for n, _ in f}):
    name_contract('snake_to_camel_case', n, tb.camel(n))
for n, v in tb.EXTENSION_KEYS.items():
    name_contract('snake_to_camel_case', v, tb.ENUMS['ExtensionIdentifier'][n])
    name_contract('camel_to_snake_case', tb.ENUMS['ExtensionIdentifier'][n], v)


# --------------------------------------------------------------------- builders
def options(kind, a, cfg, given):
    if kind == 'create':
        f = {n: cfg[n] for n, _ in tb.CREATE}
        f.update({n: given[n] for n in ('user', 'challenge')})
        return Obj(ty.CredentialCreationOptions, {'public_key': Obj(ty.PublicKeyCredentialCreationOptions, f)})
    f = {n: cfg[n] for n, _ in tb.REQUEST if n != 'mediation'}
    f['challenge'] = given['challenge']
    f['allow_credentials'] = given.get('allow_credentials', NONE)
    return Obj(ty.CredentialRequestOptions, {'mediation': cfg['mediation'],
                                             'public_key': Obj(ty.PublicKeyCredentialRequestOptions, f)})


def missing(kind, cfg):
    needs = tb.CREATE_NEEDS if kind == 'create' else tb.REQUEST_NEEDS
    return [Raise('missing-' + n, none(cfg[n]), BE) for n in needs]


def builder_contracts(kind):
    table = tb.CREATE if kind == 'create' else tb.REQUEST
    needs = tb.CREATE_NEEDS if kind == 'create' else tb.REQUEST_NEEDS
    names_ = [n for n, _ in table]
    given = ['user', 'challenge'] if kind == 'create' else ['challenge', 'allow_credentials']
    fn = 'lemma.%s_options' % kind
    args = {n: anyarg for n in names_ + given}

    def pre(a):
        return And(*[Not(none(a[n])) for n in given if n in a and n != 'allow_credentials'])

    def call(sets, *more):
        """sets: names of settings given to the constructor"""
        def go(I, st, f, d):
            st, s = dict_arg(I, st, {n: d[n] for n in sets})
            tail = []
            for m in more:
                if isinstance(m, tuple):
                    st, x = dict_arg(I, st, {n: d[src] for n, src in m})
                    tail.append(x)
                else:
                    tail.append(d[m] if m in d else m[1:])
            if kind == 'create':
                tail += [d[n] for n in given] if not f.__name__.endswith('state') else []
            elif not f.__name__.endswith('state'):
                st, x = dict_arg(I, st, {n: d[n] for n in given if n in d})
                tail.append(x)
            return I.call1(st, f, [s] + tail, {}, None)
        return go

    def cfg(a, sets):
        return {n: a[n] if n in sets else default(d) for n, d in table}

    def make(tag, sets, skip=()):
        def post(a):
            c = cfg(a, sets)
            return Post(missing(kind, c), options(kind, a, c, a))
        Contract(fn + tag, ['C24'], {n: anyarg for n in list(sets) + [g for g in given if g not in skip]}, post,
                 pre=pre, summarise=False, honest=lambda E: ['C24'], group='build', call=call(sets),
                 vacuous=any(d is None for n, d in table if n in needs and n not in sets))
    make('#all', names_)
    make('#defaults', [])
    for n in names_:
        make('#without-' + n, [m for m in names_ if m != n])
    if kind == 'request':
        make('#no-allow-credentials', names_, ['allow_credentials'])
    for s in names_:
        def post(a, s=s):
            c0 = {n: a[n] for n in names_}
            c1 = dict(c0, **{s: a['value']})
            R = missing(kind, c0) + [Raise(r.name + '-set', r.guard, r.exc) for r in missing(kind, c1)]
            return Post(R, Tup([options(kind, a, c1, a), options(kind, a, c0, a)]))

        def pre2(a, s=s):
            return And(pre(a), Not(none(a['value'])) if s in needs else tm.TRUE)
        Contract('lemma.%s_set#%s' % (kind, s), ['C24'], dict(args, value=anyarg), post, pre=pre2, summarise=False,
                 honest=lambda E: ['C24'], group='build', call=call(names_, '=' + s, 'value'))

        def state(a, s=s):
            def equal(I, st, v):
                return same_object(I, st, v[0], v[1])
            return Post([], Free(), checks=[('same-builder', equal, None)])
        Contract('lemma.%s_set_state#%s' % (kind, s), ['C24'], {n: anyarg for n in names_ + ['value']}, state,
                 pre=(lambda a: Not(none(a['value']))) if s in needs else None, summarise=False,
                 honest=lambda E: ['C24'], group='build-state',
                 call=call(names_, '=' + s, 'value', tuple((n, 'value' if n == s else n) for n in names_)))
        for s2 in names_:
            def post2(a, s=s, s2=s2):
                c0 = {n: a[n] for n in names_}
                c1 = dict(c0, **{s: a['value']})
                c2 = dict(c1, **{s2: a['other']})
                R = [Raise('%s-%d' % (r.name, i), r.guard, r.exc) for i, c in enumerate((c0, c1, c2))
                     for r in missing(kind, c)]
                return Post(R, Tup([options(kind, a, c, a) for c in (c2, c1, c0)]))

            def pre3(a, s=s, s2=s2):
                return And(pre(a), Not(none(a['value'])) if s in needs else tm.TRUE,
                           Not(none(a['other'])) if s2 in needs else tm.TRUE)
            Contract('lemma.%s_set_twice#%s,%s' % (kind, s, s2), ['C24'], dict(args, value=anyarg, other=anyarg),
                     post2, pre=pre3, summarise=False, honest=lambda E: ['C24'], group='build-' + s,
                     call=call(names_, '=' + s, 'value', '=' + s2, 'other'))


def same_object(I, st, x, y):
    """Two builders have equal attributes."""
    if not (isinstance(x, Ref) and isinstance(y, Ref)):
        raise Unsupported('builder representation')
    hx, hy = st.heap[x.id], st.heap[y.id]
    if hx.kind != 'obj' or hy.kind != 'obj' or hx.cls is not hy.cls or set(hx.data) != set(hy.data):
        raise Unsupported('builder representation')
    out = []
    for n in hx.data:
        p, q = hx.data[n], hy.data[n]
        if isinstance(p, T) and isinstance(q, T) and p.kind == q.kind:
            out.append(p.t == q.t)
        elif not I.same(p, q):
            raise Unsupported('builder representation')
    return And(*out)


builder_contracts('create')
builder_contracts('request')


# -------------------------------------------------------------- JSON conversion
J = tm.uf('json_of', V, tm.Bool, V)
camel = tm.uf('camel', tm.Str, tm.Str)
RAISED = {E: tm.uf('raises:converters.jsonify:%s' % E.__name__, V, tm.Bool, tm.Bool) for E in (JE, UE)}


def not_literal(a):
    """Calls with a literal are executed; the others go by the ghost function."""
    t = sc(a['s'], 'str')
    return None if t is None or z3.is_string_value(z3.simplify(t)) else tm.TRUE


@contract('utils.snake_to_camel_case', [], {'s': anyarg}, honest=None, pre=not_literal, assumed=True)
def snake_to_camel_case(a):
    return Post([Raise('not-text', Not(is_kind(a['s'], 'str')), TypeError)], Sc('str', camel(sc(a['s'], 'str'))))


def is_true(c):
    return z3.is_true(z3.simplify(asb(c)))


def vterm(n):
    """Decoded-value term of an argument, when it is one."""
    if isinstance(n, Any_):
        return n.t
    if isinstance(n, Sc) and n.kind in ('bool', 'int', 'str', 'bytes'):
        return {'bool': V.vbool, 'int': V.vint, 'str': V.vstr, 'bytes': V.vbytes}[n.kind](n.t)
    if isinstance(n, Const) and is_scalar(n.v) and not isinstance(n.v, float):
        return tm.lift(n.v)
    if isinstance(n, Cond):
        ts = [(g, vterm(x)) for g, x in n.alts]
        if all(t is not None for _, t in ts):
            r = ts[-1][1]
            for g, t in reversed(ts[:-1]):
                r = z3.If(asb(g), t, r)
            return r
    return None


def json_key(a):
    t = vterm(a['data'])
    if t is None or not is_true(is_kind(a['convert_case'], 'bool')):
        return None
    return [t, sc(a['convert_case'], 'bool')]


@contract('converters.jsonify', ['C23'], {'data': anyarg, 'convert_case': lambda n, p: fresh_sc('bool', n)},
          opaque=json_key, recursive=True, pre=lambda a: Not(V.is_vother(a['data'].t)) if isinstance(
              a['data'], Any_) and a['data'].t.num_args() == 0 and str(a['data'].t) == 'data' else tm.TRUE,
          honest=lambda E: ['C23'])
def jsonify(a):
    """One level of the conversion; J stands for the conversion of the parts."""
    t, cc = vterm(a['data']), sc(a['convert_case'], 'bool')
    if t is None:
        return Post([], Free())
    seq = is_list(t)

    def child(E):
        i = tm.fresh(tm.Int, 'ci')
        return Or(And(seq, z3.Exists([i], And(i >= 0, i < tm.llen(t), RAISED[E](tm.lat(t, i), cc)))),
                  And(V.is_vdict(t), z3.Exists([i], And(i >= 0, i < tm.dlen(t), Not(V.is_vnone(value(i))),
                                                        RAISED[E](value(i), cc)))))

    def value(i):
        return tm.dget(t, key_norm(tm.dkey(t, i)))
    i = tm.fresh(tm.Int, 'ki')
    R = [Raise('other-key', And(V.is_vdict(t), z3.Exists([i], And(i >= 0, i < tm.dlen(t),
                                                                  Not(V.is_vstr(tm.dkey(t, i)))))), JE),
         Raise('unconvertible-part', child(JE), JE), Raise('unsupported-part', child(UE), UE)]
    same = Or(V.is_vnone(t), V.is_vbool(t), V.is_vint(t), V.is_vflt(t), V.is_vstr(t))

    def entry(i):
        k = V.us(tm.dkey(t, i))
        return Not(V.is_vnone(value(i))), Sc('str', z3.If(cc, camel(k), k)), Any_(J(value(i), cc))
    res = Cond([(same, Any_(t)), (V.is_vbytes(t), Sc('str', tm.ascii_dec(tm.b64_enc(V.uy(t), tm.S(''))))),
                (seq, Seq(tm.llen(t), lambda i: Any_(J(tm.lat(t, i), cc)))),
                (V.is_vdict(t), DictComp(tm.dlen(t), entry))])
    return Post(R, res)


def key_norm(k):
    from pyvc.ops import dkey_norm
    return dkey_norm(k)


JSONIFY = REG['converters.jsonify']
JSONIFY.call_result = lambda a: Any_(J(vterm(a['data']), sc(a['convert_case'], 'bool')))


def json_class(key, fields, dflt):
    cls = cls_of(key)
    names_ = [n for n, _ in fields] + [n for n, _ in tb.EXTRA.get(key[1], [])]

    def post(a):
        cc = tm.TRUE if dflt else a['convert_case'].t
        R, items = [], {}
        vals = {n: a[n].t for n, _ in fields}
        vals.update({n: tm.lift(d) for n, d in tb.EXTRA.get(key[1], [])})
        for E, nm in ((JE, 'unconvertible'), (UE, 'unsupported')):
            R.append(Raise(nm + '-attribute', Or(*[And(Not(V.is_vnone(t)), RAISED[E](t, cc))
                                                   for t in vals.values()]), E))
        for n, t in vals.items():
            there = Not(V.is_vnone(t))
            k = tb.camel(n)
            if k == n:
                items[n] = (there, Any_(J(t, cc)))
            else:
                items[k] = (And(cc, there), Any_(J(t, cc)))
                items[n] = (And(Not(cc), there), Any_(J(t, cc)))
        return Post(R, DictOf(items))
    args = {n: anyarg for n, _ in fields}
    if not dflt:
        args['convert_case'] = lambda n, p: fresh_sc('bool', n)

    def call(I, st, fn, d):
        st, r = dict_arg(I, st, {n: d[n] for n, _ in fields})
        I.enter = id(cv.jsonify)
        return I.call1(st, fn, [cls, r] + ([] if dflt else [d['convert_case']]), {}, None)
    Contract('lemma.construct_json%s#%s' % ('_default' if dflt else '', key[1]), ['C23'], args, post, summarise=False,
             honest=lambda E: ['C23'], group='json%d' % (len(REG) % 4), call=call)


for key, fields in tb.CLASSES.items():
    json_class(key, fields, False)
    json_class(key, fields, True)


def json_simple(tag, mk, post):
    Contract('converters.jsonify#' + tag, ['C23'], {'data': mk, 'convert_case': lambda n, p: fresh_sc('bool', n)},
             post, summarise=False, honest=lambda E: ['C23'], group='json0', recursive=True,
             vacuous=tag.startswith('unsupported'))


for name in list(tb.ENUMS) + list(tb.NAMED):
    def conv_post(a, name=name):
        alts = []
        for cls, entries in table_rows(name):
            for n, v in entries:
                alts.append((a['data'].t == mem(cls, n), Any_(J(tm.lift(v), a['convert_case'].t))))
        R = []
        for E, nm in ((JE, 'unconvertible'), (UE, 'unsupported')):
            R.append(Raise(nm, Or(*[And(g, RAISED[E](x.t.arg(0), a['convert_case'].t)) for g, x in alts]), E))
        alts.append((Not(Or(*[g for g, _ in alts])), Const(_Missing)))
        return Post(R, Cond(alts))
    json_simple('enum-' + name, lambda n, pre, name=name: fresh_enum(tuple(c for c, _ in table_rows(name)), n, pre),
                conv_post)

for key, fields in tb.TUPLES.items():
    json_simple('unsupported-' + key[1], lambda n, pre, key=key, fields=fields: Obj(
        cls_of(key), {f: fresh_any(n + '.' + f) for f, _ in fields}),
        lambda a: Post([Raise('unsupported', tm.TRUE, UE)]))
