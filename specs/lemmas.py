"""Lemma functions: executed by the verifier over the contracts of the functions they call."""
from webauthn_rp.builders import CredentialCreationOptionsBuilder, CredentialRequestOptionsBuilder
from webauthn_rp.converters import cose_key, jsonify
from webauthn_rp.parsers import parse_cose_key
from webauthn_rp.utils import url_base64_decode, url_base64_encode


def cose_roundtrip(key):
    return parse_cose_key(cose_key(key))


def base64_roundtrip(b):
    return url_base64_decode(url_base64_encode(b).decode('ascii'))


def base64_roundtrip_unpadded(b):
    return url_base64_decode(url_base64_encode(b).decode('ascii').rstrip('='))


def lookup(cls, value):
    return cls(value)


def entry(member):
    return member.name, member.value


def extension_key(member):
    return member.key


def construct(cls, given):
    return cls(**given)


def construct_positional(cls, *given):
    return cls(*given)


def construct_json(cls, given, convert_case):
    return jsonify(cls(**given), convert_case)


def construct_json_default(cls, given):
    return jsonify(cls(**given))


def create_options(settings, user, challenge):
    return CredentialCreationOptionsBuilder(**settings).build(user=user, challenge=challenge)


def request_options(settings, given):
    return CredentialRequestOptionsBuilder(**settings).build(**given)


def create_set(settings, setter, value, user, challenge):
    b = CredentialCreationOptionsBuilder(**settings)
    c = getattr(b, setter)(value)
    return c.build(user=user, challenge=challenge), b.build(user=user, challenge=challenge)


def create_set_twice(settings, first, value, second, other, user, challenge):
    b = CredentialCreationOptionsBuilder(**settings)
    c = getattr(b, first)(value)
    d = getattr(c, second)(other)
    return (d.build(user=user, challenge=challenge), c.build(user=user, challenge=challenge),
            b.build(user=user, challenge=challenge))


def create_set_state(settings, setter, value, expected):
    return (getattr(CredentialCreationOptionsBuilder(**settings), setter)(value),
            CredentialCreationOptionsBuilder(**expected))


def request_set(settings, setter, value, given):
    b = CredentialRequestOptionsBuilder(**settings)
    c = getattr(b, setter)(value)
    return c.build(**given), b.build(**given)


def request_set_twice(settings, first, value, second, other, given):
    b = CredentialRequestOptionsBuilder(**settings)
    c = getattr(b, first)(value)
    d = getattr(c, second)(other)
    return d.build(**given), c.build(**given), b.build(**given)


def request_set_state(settings, setter, value, expected):
    return (getattr(CredentialRequestOptionsBuilder(**settings), setter)(value),
            CredentialRequestOptionsBuilder(**expected))


def asn1_schema(node, optional=False):
    """(optional, tags from the outside in, members) of a pyasn1 type."""
    tags = tuple((t.tagClass, t.tagId) for t in reversed(node.tagSet.superTags))
    inner = getattr(node, 'componentType', None)
    members = None
    if hasattr(inner, 'namedTypes'):
        members = tuple(asn1_schema(x.asn1Object, x.isOptional or x.isDefaulted) for x in inner.namedTypes)
    elif hasattr(inner, 'tagSet'):
        members = (asn1_schema(inner),)
    return optional, tags, members
