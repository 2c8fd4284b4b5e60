"""Specification vocabulary shared by the contracts.  Tables are those of the WebAuthn and COSE registries,
not read from the code."""
import z3
from pyvc import terms as tm
from pyvc.terms import And, Or, Not, Implies, asb, V
from pyvc.values import *
from pyvc.spec import *
from pyvc import spec as sp
from pyvc.contracts import contract, Raise, Post, REG
import webauthn_rp.types as ty
import webauthn_rp.errors as er

KTY = [('OKP', 'OKP', 1), ('EC2', 'EC2', 2), ('SYMMETRIC', 'Symmetric', 4)]
ALG = [('ES256', 'ES256', -7), ('ES384', 'ES384', -35), ('ES512', 'ES512', -36), ('EDDSA', 'EdDSA', -8)]
EC2CRV = [('P_256', 'P-256', 1), ('P_384', 'P-384', 2), ('P_521', 'P-521', 3)]
OKPCRV = [('ED25519', 'Ed25519', 6), ('ED448', 'Ed448', 7)]
KEYOP = [('SIGN', 'sign', 1), ('VERIFY', 'verify', 2), ('ENCRYPT', 'encrypt', 3), ('DECRYPT', 'decrypt', 4),
         ('WRAP_KEY', 'wrap key', 5), ('UNWRAP_KEY', 'unwrap key', 6), ('DERIVE_KEY', 'derive key', 7),
         ('DERIVE_BITS', 'derive bits', 8), ('MAC_CREATE', 'MAC create', 9), ('MAC_VERIFY', 'MAC verify', 10)]
COORD = {'P_256': 32, 'P_384': 48, 'P_521': 66, 'ED25519': 32, 'ED448': 57}
CURVE = {'P_256': 'SECP256R1', 'P_384': 'SECP384R1', 'P_521': 'SECP521R1'}
HASH = {'ES256': 'SHA256', 'ES384': 'SHA384', 'ES512': 'SHA512'}
FMT = [('PACKED', 'packed'), ('TPM', 'tpm'), ('ANDROID_KEY', 'android-key'),
       ('ANDROID_SAFETYNET', 'android-safetynet'), ('FIDO_U2F', 'fido-u2f'), ('NONE', 'none')]


class _Missing:
    pass


def mem(cls, name):
    """z3 index of the member `name`; an impossible index when the class lacks it."""
    m = getattr(cls, '__members__', {}).get(name)
    return enum_term(m) if m is not None else tm.I(-7)


# ------------------------------------------------------------- decoded maps
def K(k):
    return tm.lift(k)


def has(d, k):
    return tm.dhas(d, K(k))


def get(d, k):
    return tm.dget(d, K(k))


def absent(d, k):
    """No entry, or an entry without a value."""
    return Or(Not(has(d, k)), V.is_vnone(get(d, k)))


def field(d, k):
    return z3.If(has(d, k), get(d, k), V.vnone)


def unknown_keys(d, allowed):
    i = tm.fresh(tm.Int, 'uk')
    return z3.Exists([i], And(i >= 0, i < tm.dlen(d), Not(Or(*[tm.dkey(d, i) == K(a) for a in allowed]))))


def is_list(t, also_tuple=True):
    return Or(V.is_vlist(t), V.is_vtuple(t)) if also_tuple else V.is_vlist(t)


def all_items(t, pred):
    i = tm.fresh(tm.Int, 'ai')
    return z3.ForAll([i], Implies(And(i >= 0, i < tm.llen(t)), pred(tm.lat(t, i))))


def any_dict(name, pre):
    t = z3.Const(name, V)
    pre.append(V.is_vdict(t))
    return Any_(t)


# ------------------------------------------- enumerations with name and number
def nv_known(t, table):
    return Or(And(V.is_vint(t), Or(*[V.ui(t) == v for _, _, v in table])),
              And(V.is_vstr(t), Or(*[V.us(t) == tm.S(s) for _, s, _ in table])))


def nv_is(t, table, name):
    return Or(*[Or(t == V.vint(tm.I(v)), t == V.vstr(tm.S(s))) for n, s, v in table if n == name])


def nv_enum(t, table, cont):
    r = tm.I(-1)
    for n, s, v in reversed(table):
        r = z3.If(t == V.vint(tm.I(v)), mem(cont.Value, n), z3.If(t == V.vstr(tm.S(s)), mem(cont.Name, n), r))
    return Enm(r, (cont.Name, cont.Value))


def nv_len(t, table):
    r = tm.I(-1)
    for n, s, v in reversed(table):
        r = z3.If(nv_is(t, table, n), tm.I(COORD[n]), r)
    return r


def fresh_bytes(n, pre):
    t = z3.Const(n, tm.Bytes)
    return Sc('bytes', t)


def fresh_str(n, pre):
    return Sc('str', z3.Const(n, tm.Str))


def b_slice(b, lo, n):
    return z3.Extract(b, tm.I(lo) if isinstance(lo, int) else lo, tm.I(n) if isinstance(n, int) else n)
