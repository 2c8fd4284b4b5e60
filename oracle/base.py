"""The library under test, its outcomes as plain data, and strict comparison."""
import ast
import copy
import enum
import math
import os
import re
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True
for _p in (SITE, REPO):
    if _p not in sys.path:
        sys.path.insert(0, _p)
if sys.path[0] != REPO:
    sys.path.remove(REPO)
    sys.path.insert(0, REPO)

import cryptography.x509                                     # noqa: E402
from cryptography.hazmat.primitives.serialization import Encoding   # noqa: E402
import webauthn_rp.attesters as attesters                     # noqa: E402
import webauthn_rp.backends as backends                       # noqa: E402
import webauthn_rp.builders as builders                       # noqa: E402
import webauthn_rp.converters as converters                   # noqa: E402
import webauthn_rp.errors as errors                           # noqa: E402
import webauthn_rp.parsers as parsers                         # noqa: E402
import webauthn_rp.registrars as registrars                   # noqa: E402
import webauthn_rp.types as types                             # noqa: E402
import webauthn_rp.utils as utils                             # noqa: E402
import webauthn_rp.validators as validators                   # noqa: E402
import webauthn_rp.verifiers as verifiers                     # noqa: E402

MODULES = (attesters, backends, builders, converters, errors, parsers, registrars, types, utils, validators,
           verifiers)


class any_digits:
    """Lift the limit on int <-> str conversion while our own machinery prints or reads values."""
    def __enter__(self):
        self.n = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(0)

    def __exit__(self, *a):
        sys.set_int_max_str_digits(self.n)


def dump(v, seen=()):
    """Plain, comparable, printable form of a value."""
    if isinstance(v, enum.Enum):
        return ('enum', '%s.%s' % (type(v).__qualname__, v.name))
    if v is None or type(v) in (bool, int, str, bytes):
        return v
    if type(v) is float:
        return ('float', repr(v))
    if id(v) in seen:
        return ('cycle',)
    seen = seen + (id(v),)
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return ('obj', type(v).__name__, {n: dump(x, seen) for n, x in zip(v._fields, v)})
    if type(v) is list:
        return ('list', [dump(x, seen) for x in v])
    if type(v) is tuple:
        return ('tuple', [dump(x, seen) for x in v])
    if type(v) in (set, frozenset):
        return ('set', sorted((dump(x, seen) for x in v), key=repr))
    if isinstance(v, dict):
        return ('dict', [(dump(k, seen), dump(x, seen)) for k, x in v.items()])
    if isinstance(v, cryptography.x509.Certificate):
        return ('cert', v.public_bytes(Encoding.DER))
    m = type(v).__module__ or ''
    if m.startswith('webauthn_rp.types') or m.startswith('webauthn_rp.registrars') or m.startswith('webauthn_rp'):
        return ('obj', type(v).__name__, {n: dump(x, seen) for n, x in vars(v).items()})
    if hasattr(v, 'public_bytes') and hasattr(v, 'verify'):
        from cryptography.hazmat.primitives.serialization import PublicFormat
        return ('key', v.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo))
    return ('other', type(v).__name__, re.sub(r' at 0x[0-9a-f]+', '', repr(v)))


def repr_eq(a, b):
    """a (expected) against b (observed); an object may carry attributes nobody asked about."""
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple) and len(a) == 3 and a[:1] == ('obj',) and b[:1] == ('obj',) and len(b) == 3:
        if a[1] != b[1]:
            return False
        return all(repr_eq(a[2][k], b[2].get(k)) for k in a[2])
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(repr_eq(x, y) for x, y in zip(a, b))
    return a == b


def diff(a, b, path='result'):
    """First difference, for messages."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 3 and len(b) == 3 and a[0] == b[0] == 'obj' \
            and a[1] == b[1]:
        for k in a[2]:
            if not repr_eq(a[2][k], b[2].get(k)):
                return diff(a[2][k], b[2].get(k), path + '.' + k)
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not repr_eq(x, y):
                return diff(x, y, '%s[%d]' % (path, i))
    return '%s: expected %s, observed %s' % (path, short(a), short(b))


def short(x, n=160):
    with any_digits():
        r = repr(x)
    return r if len(r) <= n else r[:n] + '…'


class Out:
    """Outcome of running the code under test."""
    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    def __repr__(self):
        if self.kind == 'ok':
            return 'returned ' + short(self.value)
        try:
            msg = str(self.exc)[:160]
        except Exception:
            msg = '<unprintable>'
        return 'raised %s(%s)' % (type(self.exc).__name__, msg)

    def plain(self):
        return ('ok', self.value) if self.kind == 'ok' else ('err', type(self.exc).__name__)


TRACE = None            # outcomes of every call, when a history records them
TOUCHED = []            # objects given to and returned by those calls


def run(f, *a, **k):
    try:
        r = f(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        o = Out('err', exc=e)
    else:
        o = Out('ok', dump(r))
        if TRACE is not None:
            TOUCHED.append(r)
    if TRACE is not None:
        TOUCHED.extend(a)
        TOUCHED.extend(k.values())
        TRACE.append(o.plain())
    return o


def scramble(v, seen):
    """Change in place everything a caller may change in an object that is its own."""
    if id(v) in seen or isinstance(v, (enum.Enum, type)):
        return
    seen[id(v)] = v
    if isinstance(v, (list, tuple, set, frozenset)):
        for x in list(v):
            scramble(x, seen)
    if isinstance(v, dict):
        for x in list(v.values()):
            scramble(x, seen)
        v.clear()
        v['scrambled'] = 1
    elif isinstance(v, list):
        v[:] = ['scrambled']
    elif isinstance(v, set):
        v.clear()
    elif (type(v).__module__ or '').startswith('webauthn_rp.') and hasattr(v, '__dict__') and \
            not type(v).__name__.endswith('Backend'):
        for n, x in list(vars(v).items()):
            scramble(x, seen)
            try:
                setattr(v, n, 'scrambled')
            except Exception:
                pass


def lib(name):
    return getattr(errors, name)
