"""Cases about data objects, identifier tables, base64url, names, builders and JSON conversion."""
import itertools
import string

import tables as tb
from . import gen
from .base import *
from .kinds import kind, pure

NAMED_ENUMS = {n + '.' + s: [(k, v[i]) for k, v in rows.items()]
               for n, rows in tb.NAMED.items() for i, s in enumerate(('Name', 'Value'))}
ALL_ENUMS = dict({n: list(rows.items()) for n, rows in tb.ENUMS.items()}, **NAMED_ENUMS)
MEMBERS = [(n, k) for n, rows in ALL_ENUMS.items() for k, _ in rows]
MODS = {'types': types, 'registrars': registrars}
KEYED = {k[1]: (k, f) for t in (tb.CLASSES, tb.TUPLES) for k, f in t.items()}


def pick_first(bad):
    return bad[:3]


def attr(path):
    o = types
    for p in path.split('.'):
        o = getattr(o, p)
    return o


# ------------------------------------------------------- values written as literals
def build(x):
    if not isinstance(x, tuple):
        return x
    k = x[0]
    if k == 'list':
        return [build(y) for y in x[1]]
    if k == 'tuple':
        return tuple(build(y) for y in x[1])
    if k == 'dict':
        return {build(y): build(z) for y, z in x[1]}
    if k == 'enum':
        return attr(x[1])[x[2]]
    if k == 'obj':
        mod, c = KEYED[x[1]][0]
        return getattr(MODS[mod], c)(**{n: build(y) for n, y in x[2].items()})
    return {'set': set, 'frozenset': frozenset, 'bytearray': lambda: bytearray(b'x'), 'complex': lambda: 1j,
            'range': lambda: range(2), 'object': object}[k]()


class Bad(Exception):
    def __init__(self, *names):
        self.names = set(names)


def ref_json(x, cc):
    """Documented JSON value of build(x); ambiguous when two keys become one."""
    if not isinstance(x, tuple):
        if type(x) is bytes:
            return std64(x)
        return dump(x)
    k = x[0]
    if k in ('list', 'tuple'):
        return ('list', collect([lambda y=y: ref_json(y, cc) for y in x[1]]))
    if k == 'enum':
        v = dict(ALL_ENUMS[x[1]])[x[2]]
        return v
    if k == 'obj' and KEYED[x[1]][0] in tb.TUPLES or k not in ('dict', 'obj'):
        raise Bad('UnimplementedError')
    if k == 'dict':
        if any(type(n) is not str for n, _ in x[1]):
            raise Bad('JSONConversionError')
        items = x[1]
    else:
        fields = KEYED[x[1]][1]
        items = [(n, x[2].get(n, d)) for n, d in fields] + tb.EXTRA.get(x[1], [])
        items = [(n, ('enum', v.cls, v.name) if isinstance(v, tb.E) else v) for n, v in items]
    keep = [(n, v) for n, v in items if v is not None]
    vals = collect([lambda v=v: ref_json(v, cc) for _, v in keep])
    keys = [tb.camel(n) if cc else n for n, _ in keep]
    if len(set(keys)) < len(keys):
        raise Bad('?')
    return ('dict', sorted(zip(keys, vals)))


def collect(fs):
    out, bad = [], set()
    for f in fs:
        try:
            out.append(f())
        except Bad as e:
            bad |= e.names
    if bad:
        raise Bad(*bad)
    return out


def std64(b, alphabet=string.ascii_uppercase + string.ascii_lowercase + string.digits + '+/'):
    out = ''
    for i in range(0, len(b), 3):
        q = b[i:i + 3]
        n = int.from_bytes(q + bytes(3 - len(q)), 'big')
        t = ''.join(alphabet[n >> s & 63] for s in (18, 12, 6, 0))
        out += t[:len(q) + 1] + '=' * (3 - len(q))
    return out


def as_json(v):
    """dump(...) of a result with dictionaries sorted and tuples as lists."""
    if isinstance(v, tuple) and v[0] == 'dict':
        return ('dict', sorted(((k, as_json(x)) for k, x in v[1]), key=repr))
    if isinstance(v, tuple) and v[0] in ('list', 'tuple'):
        return ('list', [as_json(x) for x in v[1]])
    return v


@kind
def jsonify(d):
    x, cc = d['value'], d['convert']
    try:
        want, bad = ref_json(x, cc is not False), None
    except Bad as e:
        want, bad = None, e.names
    v = build(x)
    kw = {} if cc is None else {'convert_case': cc}
    out, viol = pure(converters.jsonify, [v], kw)
    if bad and '?' in bad:
        return viol
    if bad:
        if out.kind == 'ok':
            viol.append(({'C23'}, 'converted although it is not convertible (%s)' % ', '.join(sorted(bad))))
        elif not any(type(out.exc).__name__ == n or isinstance(out.exc, getattr(errors, n, ())) for n in bad):
            viol.append(({'C23'}, '%r, documented: %s' % (out, ', '.join(sorted(bad)))))
    elif out.kind == 'err':
        viol.append(({'C23'}, 'not converted: %r' % out))
    else:
        got, want = as_json(out.value), as_json(want)
        if not repr_eq(want, got):
            viol.append(({'C23'}, 'wrong JSON, ' + diff(want, got)))
    return viol


def json_spec(r, depth=3, other=.06):
    """A value of the library or of Python."""
    x = r.random()
    if depth == 0 or x < .3:
        return r.choice([None, None, True, False, 0, 1, -7, 0.0, 1.5, '', 'x', b'', b'\xff\xfb', gen.any_str(r),
                         gen.any_bytes(r), r.randrange(-2 ** 70, 2 ** 70)])
    if x < .42:
        c, n = r.choice(MEMBERS)
        return ('enum', c, n)
    if x < .42 + other:
        return r.choice([('set',), ('frozenset',), ('bytearray',), ('complex',), ('range',),
                         ('obj', 'Origin', {'scheme': 'https', 'hostname': 'a', 'port': 1}),
                         ('dict', [(r.choice([1, b'k', None, True, ('enum', 'TokenBindingStatus', 'PRESENT')]), 1)]),
                         ('dict', [('a', 1), (2, 1)])])
    if x < .55:
        return (r.choice(['list', 'tuple']), gen.many(r, gen.size(r, 4), lambda: json_spec(
            r, depth - 1, other / 2)))
    if x < .56:
        v = json_spec(r, 0)
        for _ in range(gen.size(r, 9, .5, 150)):
            v = r.choice([('list', [v]), ('tuple', [v]), ('dict', [('k', v)])])
        return v
    if x < .68:
        keys = {r.choice(['a', 'a_b', 'client_data_JSON', '', '_x', 'aB', 'x__y', gen.any_str(r)]): 0
                for _ in range(r.randrange(4))}
        keys.update({'k_%d' % i: 0 for i in range(gen.size(r, 1, .03))})
        return ('dict', [(k, json_spec(r, depth - 1, other / 2)) for k in keys])
    (_, c), fields = r.choice(list(tb.CLASSES.items()))
    p = r.choice([0, .3, .7, 1])
    return ('obj', c, {n: json_spec(r, depth - 1, other / 2) for n, dflt in fields
                       if dflt is tb.REQ or r.random() < p})


def json_cases(r):
    yield 'jsonify', {'value': json_spec(r, r.choice([1, 2, 3]), r.choice([0, 0, .06])),
                      'convert': r.choice([None, True, False])}


# ------------------------------------------------------------------ data objects
@kind
def construct(d):
    (mod, c), fields = KEYED[d['cls']]
    cls = getattr(MODS[mod], c, None)
    if cls is None:
        return [({'C28'}, 'no class %s' % c)]
    try:
        given = {n: build(x) for n, x in d['args'].items()}
    except Exception as e:              # one of the data objects among the arguments
        return [({'C28'}, 'refused: %r' % e)]
    make = (lambda: cls(*[given[n] for n, _ in fields])) if d['positional'] else (lambda: cls(**given))
    missing = [n for n, f in fields if f is tb.REQ and n not in given]
    before = dump(given)
    objs = []
    for _ in range(2):
        try:
            objs.append(make())
        except TypeError as e:
            if not missing:
                return [({'C28'}, '%s(%s) refused: %r' % (c, ', '.join(sorted(given)), e))]
        except Exception as e:
            return [({'C28'}, '%s: %r' % (c, e))]
        else:
            if missing:
                return [({'C28'}, '%s built without %s' % (c, missing[0]))]
    bad = []
    if not repr_eq(before, dump(given)):
        bad.append(({'C26', 'C28'}, '%s changes its arguments' % c))
    for o in objs:
        for n, f in fields + [(n, f) for n, f in tb.EXTRA.get(c, [])]:
            try:
                v = getattr(o, n)
            except AttributeError:
                bad.append(({'C28'}, '%s has no attribute %s' % (c, n)))
                continue
            if n in given:
                if v is not given[n] and not (type(v) is type(given[n]) and type(v) in (
                        bool, int, str, bytes, float) and repr_eq(dump(given[n]), dump(v))):
                    bad.append(({'C28'}, '%s.%s is %s, given %s' % (c, n, short(dump(v)), short(dump(given[n])))))
            elif isinstance(f, tb.E):
                if v is not attr(f.cls)[f.name]:
                    bad.append(({'C28'}, '%s.%s defaults to %r' % (c, n, v)))
            elif v is not f:
                bad.append(({'C28'}, '%s.%s defaults to %s instead of %r' % (c, n, short(dump(v)), f)))
    return pick_first(bad)


def construct_cases(r):
    c, (_, fields) = r.choice(list(KEYED.items()))
    pos = c in tb.POSITIONAL and r.random() < .5
    p = r.choice([0, .5, 1])
    args = {n: json_spec(r, r.choice([0, 0, 1]), .1) for n, f in fields
            if pos or (r.random() < .97 if f is tb.REQ else r.random() < p)}
    if r.random() < .3:
        args = {n: r.choice([0, False, '', b'', None, ('list', []), ('dict', [])]) for n in args}
    yield 'construct', {'cls': c, 'args': args, 'positional': pos}


# -------------------------------------------------------------- tables and names
@kind
def table(d):
    """The members of an enumeration, exactly."""
    c = d['cls']
    try:
        e = attr(c)
        got = {n: m.value for n, m in e.__members__.items()}
    except Exception as x:
        return [({'C27'}, '%s: %r' % (c, x))]
    want = dict(ALL_ENUMS[c])
    bad = []
    for n in sorted(set(got) | set(want)):
        if n not in got or n not in want or type(got[n]) is not type(want[n]) or got[n] != want[n]:
            bad.append(({'C27'}, '%s.%s is %r, registered: %r' % (c, n, got.get(n), want.get(n))))
    if c == 'ExtensionIdentifier':
        for n, k in tb.EXTENSION_KEYS.items():
            if n in got and e[n].key != k:
                bad.append(({'C27'}, 'key of %s is %r' % (n, e[n].key)))
    for n, h in tb.HASH.items():
        if c.startswith('COSEAlgorithmIdentifier') and n in got:
            o = run(lambda: (lambda h: (h.name, h.digest_size))(utils.ec2_hash_algorithm(e[n])))
            if o.kind != 'ok' or o.value != ('tuple', list(h)):
                bad.append(({'C27', 'C18'}, 'hash of %s: %r' % (n, o)))
    for n, k in tb.COORDINATE.items():
        if c.split('.')[0] in ('EC2Curve', 'OKPCurve') and n in got:
            o = run(utils.curve_coordinate_byte_length, e[n])
            if o.kind != 'ok' or o.value != k:
                bad.append(({'C27'}, 'coordinate length of %s: %r' % (n, o)))
    return pick_first(bad)


@kind
def lookup(d):
    c, v = d['cls'], build(d['value'])
    if c in tb.NAMED:
        rows = [('Name', k, s) for k, (s, _) in tb.NAMED[c].items()] + [
            ('Value', k, n) for k, (_, n) in tb.NAMED[c].items()]
        want = [(s, k) for s, k, x in rows if type(x) is type(v) and x == v]
        if not want and any(x == v for _, _, x in rows if not isinstance(v, (list, dict))):
            return []                          # True or 1.0 for 1
    else:
        want = [('', k) for k, x in ALL_ENUMS[c] if x == v]
    o = run(attr(c), v)
    if not want:
        return [] if o.kind == 'err' else [({'C27'}, '%s(%s): %r' % (c, short(v), o))]
    name = 'enum', '%s%s.%s' % (c, '.' + want[0][0] if want[0][0] else '', want[0][1])
    return [] if o.kind == 'ok' and o.value == name else [({'C27'}, '%s(%r): %r, registered: %s' % (c, v, o, name))]


@kind
def base64url(d):
    b = d['bytes']
    url = std64(b, string.ascii_uppercase + string.ascii_lowercase + string.digits + '-_')
    bad = []
    for f, args, want in ((utils.url_base64_encode, [b], url.encode()), (utils.url_base64_decode, [url], b),
                          (utils.url_base64_decode, [url.rstrip('=')], b)):
        o, pb = pure(f, args)
        bad += pb
        if o.kind != 'ok' or not repr_eq(want, o.value):
            bad.append(({'C27'}, '%s(%r): %r, expected %r' % (f.__name__, args[0], o, want)))
    return pick_first(bad)


@kind
def base64_short(d):
    """Every byte string of up to two bytes that begins with this one."""
    for b in [b'', bytes([d['first']])] + [bytes([d['first'], x]) for x in range(256)]:
        bad = base64url({'bytes': b})
        if bad:
            return bad
    return []


@kind
def names(d):
    bad = []
    for f, g in ((utils.snake_to_camel_case, tb.camel), (utils.camel_to_snake_case, tb.snake)):
        o, pb = pure(f, [d['name']])
        bad += pb
        if o.kind != 'ok' or o.value != g(d['name']):
            bad.append(({'C27', 'C23'} if g is tb.camel else {'C27'},
                        '%s(%r): %r, expected %r' % (f.__name__, d['name'], o, g(d['name']))))
    return pick_first(bad)


@kind
def names_short(d):
    """Every name of up to n characters over the alphabet."""
    for n in range(d['n'] + 1):
        for t in itertools.product(d['alphabet'], repeat=n):
            bad = names({'name': ''.join(t)})
            if bad:
                return bad
    return []


def any_name(r):
    if r.random() < .3:
        return r.choice([n for f in tb.CLASSES.values() for n, _ in f] + list(tb.ENUMS['ExtensionIdentifier'].values()))
    return ''.join(r.choice('abcxyzABCXYZ__019') for _ in range(gen.size(r, 14, .03, 300)))


def table_cases(r):
    x = r.random()
    if x < .04:
        yield 'table', {'cls': r.choice(list(ALL_ENUMS))}
    elif x < .08:
        yield 'base64_short', {'first': r.randrange(256)}
    elif x < .085:
        yield 'names_short', {'alphabet': r.choice(['aB_1', 'ab_', 'xYZ', 'A_b', '_0Q']), 'n': 6}
    elif x < .3:
        yield 'names', {'name': any_name(r)}
    elif x < .65:
        yield 'base64url', {'bytes': gen.any_bytes(r) if r.random() < .5 else r.randbytes(r.randrange(9))}
    else:
        c = r.choice(list(tb.ENUMS) + list(tb.NAMED))
        vals = [v for n, rows in ALL_ENUMS.items() if n.split('.')[0] == c for _, v in rows]
        y = r.random()
        if y < .4:
            v = r.choice(vals)
        elif y < .6:
            v = r.choice(vals)
            v = gen.near_text(r, v) if type(v) is str else v + r.choice([-1, 1, 256, -256])
        elif y < .8:
            v = r.randrange(-300, 300)
        else:
            v = json_spec(r, 1, 0)
            v = None if isinstance(v, tuple) and v[0] in ('obj', 'enum') else v
        yield 'lookup', {'cls': c, 'value': v}


# --------------------------------------------------------------------- builders
def config(d):
    return {n: ('enum', v.cls, v.name) if isinstance(v, tb.E) else v for n, v in d}


@kind
def building(d):
    """A history of setter calls and builds; models[i] is what builder i is configured with."""
    create = d['kind'] == 'create'
    cls = builders.CredentialCreationOptionsBuilder if create else builders.CredentialRequestOptionsBuilder
    needs = tb.CREATE_NEEDS if create else tb.REQUEST_NEEDS
    first = dict(config(tb.CREATE if create else tb.REQUEST), **d['settings'])
    o = None
    try:
        bs = [cls(**{n: build(x) for n, x in d['settings'].items()})]
    except Exception as e:
        return [({'C24'}, 'constructor: %r' % e)]
    models = [first]

    def check(i, given, when):
        m = models[i]
        kw = {n: build(x) for n, x in given.items()}
        o, bad = pure(bs[i].build, [], kw)
        lacking = [n for n in needs if m[n] is None]
        if lacking:
            if o.kind == 'ok' or not isinstance(o.exc, errors.BuilderError):
                bad.append(({'C24'}, '%s: build without %s: %r' % (when, lacking[0], o)))
            return bad
        val = lambda n: dump(build(m[n]))
        if create:
            want = ('obj', 'CredentialCreationOptions', {'public_key': (
                'obj', 'PublicKeyCredentialCreationOptions', dict({n: val(n) for n, _ in tb.CREATE},
                                                                  **{n: dump(x) for n, x in kw.items()}))})
        else:
            pk = {n: val(n) for n, _ in tb.REQUEST if n != 'mediation'}
            pk.update({'challenge': dump(kw['challenge']), 'allow_credentials': dump(kw.get('allow_credentials'))})
            want = ('obj', 'CredentialRequestOptions', {
                'mediation': val('mediation'), 'public_key': ('obj', 'PublicKeyCredentialRequestOptions', pk)})
        if o.kind == 'err':
            bad.append(({'C24'}, '%s: build refused: %r' % (when, o)))
        elif not repr_eq(want, o.value):
            bad.append(({'C24'}, '%s: %s' % (when, diff(want, o.value, 'options'))))
        return bad
    given = d['builds'][0]
    for k, step in enumerate(d['steps']):
        i = step[1] % len(bs)
        if step[0] == 'build':
            bad = check(i, d['builds'][step[2] % len(d['builds'])], 'step %d, builder %d' % (k, i))
            if bad:
                return pick_first(bad)
            continue
        try:
            b = getattr(bs[i], step[2])(build(step[3]))
        except Exception as e:
            return [({'C24'}, 'step %d: %s(...) refused: %r' % (k, step[2], e))]
        if b is bs[i]:
            return [({'C24'}, 'step %d: %s returns the builder itself' % (k, step[2]))]
        bs.append(b)
        models.append(dict(models[i], **{step[2]: step[3]}))
    for i in range(len(bs)):
        bad = check(i, given, 'at the end, builder %d of %d' % (i, len(bs)))
        if bad:
            return pick_first(bad)
    return []


def build_value(r, name, kind_):
    real = {'rp': lambda: ('obj', 'PublicKeyCredentialRpEntity', {'name': 'n', 'id': r.choice(['a', 'b', ''])}),
            'pub_key_cred_params': lambda: ('list', [('obj', 'PublicKeyCredentialParameters', {
                'type': ('enum', 'PublicKeyCredentialType', 'PUBLIC_KEY'),
                'alg': ('enum', 'COSEAlgorithmIdentifier.Value', r.choice(['ES256', 'EDDSA']))})
                for _ in range(gen.size(r, 3))]),
            'timeout': lambda: r.choice([0, 1, 60000]),
            'attestation': lambda: ('enum', 'AttestationConveyancePreference',
                                    r.choice(list(tb.ENUMS['AttestationConveyancePreference']))),
            'mediation': lambda: ('enum', 'CredentialMediationRequirement',
                                  r.choice(list(tb.ENUMS['CredentialMediationRequirement']))),
            'user_verification': lambda: ('enum', 'UserVerificationRequirement',
                                          r.choice(list(tb.ENUMS['UserVerificationRequirement']))),
            'rp_id': lambda: r.choice(['', 'a', 'b']),
            'exclude_credentials': lambda: ('list', [('obj', 'PublicKeyCredentialDescriptor', {
                'type': ('enum', 'PublicKeyCredentialType', 'PUBLIC_KEY'), 'id': b'%d' % i})
                for i in range(gen.size(r, 4))]),
            'extensions': lambda: ('obj', 'AuthenticationExtensionsClientInputs', {'appid': r.choice(['', 'x'])}),
            'authenticator_selection': lambda: ('obj', 'AuthenticatorSelectionCriteria', {
                'require_resident_key': r.random() < .5})}
    needs = tb.CREATE_NEEDS if kind_ == 'create' else tb.REQUEST_NEEDS
    x = r.random()
    if x < .65:
        return real[name]()
    v = json_spec(r, 1, 0) if x < .85 else None
    return real[name]() if v is None and name in needs else v


def builder_cases(r):
    k = r.choice(['create', 'request'])
    t = [n for n, _ in (tb.CREATE if k == 'create' else tb.REQUEST)]
    p = r.choice([0, .3, .8, 1])
    settings = {n: build_value(r, n, k) for n in t if r.random() < p}
    needs = tb.CREATE_NEEDS if k == 'create' else tb.REQUEST_NEEDS
    if r.random() < .1:
        settings[r.choice(needs)] = None
    given = []
    for _ in range(2):
        g = {'challenge': gen.any_bytes(r)}
        if k == 'create':
            g['user'] = ('obj', 'PublicKeyCredentialUserEntity', {'name': 'n', 'id': gen.any_bytes(r),
                                                                  'display_name': 'd'})
        elif r.random() < .5:
            g['allow_credentials'] = r.choice([None, ('list', []), ('list', [('obj', 'PublicKeyCredentialDescriptor', {
                'type': ('enum', 'PublicKeyCredentialType', 'PUBLIC_KEY'), 'id': b'i'})] * (1 + gen.size(r, 3)))])
        given.append(g)
    steps = []
    for _ in range(gen.size(r, 9, .02, 60)):
        if r.random() < .25:
            steps.append(('build', r.randrange(9), r.randrange(2)))
        else:
            n = r.choice(t)
            steps.append(('set', r.randrange(9), n, build_value(r, n, k)))
    yield 'building', {'kind': k, 'settings': settings, 'steps': steps, 'builds': given}


PLANS = {'C23': json_cases, 'C24': builder_cases, 'C27': table_cases, 'C28': construct_cases}
SIMPLE = [json_cases, builder_cases, table_cases, construct_cases]
