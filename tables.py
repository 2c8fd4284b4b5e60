"""The documented data types, identifiers and defaults, written down from the WebAuthn Level 1 recommendation, the
IANA COSE registry and the library's documentation.  Nothing here looks at the code."""

REQ = '<required>'

# class -> {member name: value}
ENUMS = {
    'PublicKeyCredentialType': {'PUBLIC_KEY': 'public-key'},
    'AuthenticatorTransport': {'USB': 'usb', 'NFC': 'nfc', 'BLE': 'ble', 'INTERNAL': 'internal'},
    'AuthenticatorAttachment': {'PLATFORM': 'platform', 'CROSS_PLATFORM': 'cross-platform'},
    'AttestationConveyancePreference': {'NONE': 'none', 'INDIRECT': 'indirect', 'DIRECT': 'direct'},
    'UserVerificationRequirement': {'REQUIRED': 'required', 'PREFERRED': 'preferred', 'DISCOURAGED': 'discouraged'},
    'ExtensionIdentifier': {'APPID': 'appid', 'TX_AUTH_SIMPLE': 'txAuthSimple', 'TX_AUTH_GENERIC': 'txAuthGeneric',
                            'AUTHN_SEL': 'authnSel', 'EXTS': 'exts', 'UVI': 'uvi', 'LOC': 'loc', 'UVM': 'uvm',
                            'BIOMETRIC_PERF_BOUNDS': 'biometricPerfBounds'},
    'CredentialMediationRequirement': {'SILENT': 'silent', 'OPTIONAL': 'optional', 'REQUIRED': 'required'},
    'TokenBindingStatus': {'SUPPORTED': 'supported', 'PRESENT': 'present'},
    'AuthenticatorDataFlag': {'UP': 0x01, 'RFU1': 0x02, 'UV': 0x04, 'RFU2': 0x38, 'AT': 0x40, 'ED': 0x80},
    'AttestationStatementFormatIdentifier': {
        'PACKED': 'packed', 'TPM': 'tpm', 'ANDROID_KEY': 'android-key', 'ANDROID_SAFETYNET': 'android-safetynet',
        'FIDO_U2F': 'fido-u2f', 'NONE': 'none'},
    'AttestationType': {'BASIC': 'Basic', 'SELF': 'Self', 'ATTCA': 'AttCA', 'ECDAA': 'ECDAA', 'NONE': 'None',
                        'UNCERTAIN': 'Uncertain'},
}
EXTENSION_KEYS = {'APPID': 'appid', 'TX_AUTH_SIMPLE': 'tx_auth_simple', 'TX_AUTH_GENERIC': 'tx_auth_generic',
                  'AUTHN_SEL': 'authn_sel', 'EXTS': 'exts', 'UVI': 'uvi', 'LOC': 'loc', 'UVM': 'uvm',
                  'BIOMETRIC_PERF_BOUNDS': 'biometric_perf_bounds'}

# class -> {member name: (textual identifier, numeric identifier)}
NAMED = {
    'COSEAlgorithmIdentifier': {'ES256': ('ES256', -7), 'ES384': ('ES384', -35), 'ES512': ('ES512', -36),
                                'EDDSA': ('EdDSA', -8)},
    'COSEKeyType': {'OKP': ('OKP', 1), 'EC2': ('EC2', 2), 'SYMMETRIC': ('Symmetric', 4)},
    'COSEKeyOperation': {
        'SIGN': ('sign', 1), 'VERIFY': ('verify', 2), 'ENCRYPT': ('encrypt', 3), 'DECRYPT': ('decrypt', 4),
        'WRAP_KEY': ('wrap key', 5), 'UNWRAP_KEY': ('unwrap key', 6), 'DERIVE_KEY': ('derive key', 7),
        'DERIVE_BITS': ('derive bits', 8), 'MAC_CREATE': ('MAC create', 9), 'MAC_VERIFY': ('MAC verify', 10)},
    'EC2Curve': {'P_256': ('P-256', 1), 'P_384': ('P-384', 2), 'P_521': ('P-521', 3)},
    'OKPCurve': {'ED25519': ('Ed25519', 6), 'ED448': ('Ed448', 7)},
}
COORDINATE = {'P_256': 32, 'P_384': 48, 'P_521': 66, 'ED25519': 32, 'ED448': 57}
HASH = {'ES256': ('sha256', 32), 'ES384': ('sha384', 48), 'ES512': ('sha512', 64)}


class E:
    """A default that is an enumeration member."""
    def __init__(self, cls, name):
        self.cls, self.name = cls, name


def _o(*names):
    return [(n, None) for n in names]


def _r(*names):
    return [(n, REQ) for n in names]


_EXT = _o('appid', 'tx_auth_simple', 'tx_auth_generic', 'authn_sel', 'exts', 'uvi', 'loc', 'uvm',
          'biometric_perf_bounds')
_KEY = _r('kty') + _o('kid', 'alg', 'key_ops', 'base_IV')

# (module, class) -> [(attribute, default or REQ)]
CLASSES = {
    ('types', 'PublicKeyCredentialEntity'): _r('name') + _o('icon'),
    ('types', 'PublicKeyCredentialRpEntity'): _r('name') + _o('icon') + _r('id'),
    ('types', 'PublicKeyCredentialUserEntity'): _r('name') + _o('icon') + _r('id', 'display_name'),
    ('types', 'PublicKeyCredentialParameters'): _r('type', 'alg'),
    ('types', 'PublicKeyCredentialDescriptor'): _r('type', 'id') + _o('transports'),
    ('types', 'TxAuthGenericArg'): _r('content_type', 'content'),
    ('types', 'Coordinates'): _r('latitude', 'longitude') + _o('altitude') + _r('accuracy') +
    _o('altitude_accuracy', 'heading', 'speed'),
    ('types', 'AuthenticatorBiometricPerfBounds'): _r('FAR', 'FRR'),
    ('types', 'AuthenticationExtensionsClientInputs'): _EXT,
    ('types', 'AuthenticationExtensionsClientOutputs'): _EXT,
    ('types', 'AuthenticatorSelectionCriteria'): _o('authenticator_attachment') + [
        ('require_resident_key', False), ('user_verification', E('UserVerificationRequirement', 'PREFERRED'))],
    ('types', 'PublicKeyCredentialCreationOptions'): _r('rp', 'user', 'challenge', 'pub_key_cred_params') +
    _o('timeout', 'authenticator_selection', 'extensions') +
    [('attestation', E('AttestationConveyancePreference', 'NONE'))] + _o('exclude_credentials'),
    ('types', 'PublicKeyCredentialRequestOptions'): _r('challenge') +
    _o('timeout', 'rp_id', 'extensions', 'allow_credentials') +
    [('user_verification', E('UserVerificationRequirement', 'PREFERRED'))],
    ('types', 'CredentialCreationOptions'): _r('public_key'),
    ('types', 'CredentialRequestOptions'): [('mediation', E('CredentialMediationRequirement', 'OPTIONAL'))] +
    _r('public_key'),
    ('types', 'AuthenticatorResponse'): _r('client_data_JSON'),
    ('types', 'AuthenticatorAttestationResponse'): _r('client_data_JSON', 'attestation_object'),
    ('types', 'AuthenticatorAssertionResponse'): _r('client_data_JSON', 'authenticator_data', 'signature') +
    _o('user_handle'),
    ('types', 'Credential'): _r('id', 'type'),
    ('types', 'PublicKeyCredential'): _r('id', 'type', 'raw_id', 'response'),
    ('types', 'TokenBinding'): _r('status') + _o('id'),
    ('types', 'CollectedClientData'): _r('type', 'challenge', 'origin') + _o('token_binding'),
    ('types', 'CredentialPublicKey'): _KEY,
    ('types', 'EC2CredentialPublicKey'): _KEY + _r('x', 'y', 'crv'),
    ('types', 'OKPCredentialPublicKey'): _KEY + _r('crv', 'x'),
    ('types', 'AttestedCredentialData'): _r('aaguid', 'credential_id_length', 'credential_id') +
    _o('credential_public_key'),
    ('types', 'AuthenticatorData'): _r('rp_id_hash', 'flags', 'sign_count') +
    _o('attested_credential_data', 'extensions'),
    ('types', 'AttestationStatement'): _o('alg', 'sig'),
    ('types', 'PackedAttestationStatement'): _r('alg', 'sig'),
    ('types', 'PackedX509AttestationStatement'): _r('alg', 'sig', 'x5c'),
    ('types', 'PackedECDAAAttestationStatement'): _r('alg', 'sig', 'ecdaa_key_id'),
    ('types', 'TPMAttestationStatement'): _r('alg', 'sig', 'ver', 'cert_info', 'pub_area'),
    ('types', 'TPMX509AttestationStatement'): _r('alg', 'sig', 'ver', 'cert_info', 'pub_area', 'x5c'),
    ('types', 'TPMECDAAAttestationStatement'): _r('alg', 'sig', 'ver', 'cert_info', 'pub_area', 'ecdaa_key_id'),
    ('types', 'AndroidKeyAttestationStatement'): _r('alg', 'sig', 'x5c'),
    ('types', 'AndroidSafetyNetAttestationStatement'): _r('ver', 'response'),
    ('types', 'FIDOU2FAttestationStatement'): _r('sig', 'x5c'),
    ('types', 'NoneAttestationStatement'): _o('alg', 'sig'),
    ('types', 'AttestationObject'): _r('auth_data', 'fmt', 'att_stmt'),
}
# attributes that a class has on top of its arguments, with their value
EXTRA = {'AndroidSafetyNetAttestationStatement': _o('alg', 'sig'), 'FIDOU2FAttestationStatement': _o('alg')}
TUPLES = {
    ('types', 'Origin'): _r('scheme', 'hostname', 'port'),
    ('registrars', 'CredentialData'): _r('credential_public_key', 'signature_count', 'user_entity') +
    _o('rp_entity'),
}
POSITIONAL = ['AttestedCredentialData', 'Origin', 'CredentialData']

# builder -> (settings with defaults, [settings that must not be None])
CREATE = [('rp', None), ('pub_key_cred_params', None), ('timeout', None), ('authenticator_selection', None),
          ('extensions', None), ('attestation', E('AttestationConveyancePreference', 'NONE')),
          ('exclude_credentials', None)]
REQUEST = [('mediation', E('CredentialMediationRequirement', 'OPTIONAL')), ('timeout', None), ('rp_id', None),
           ('extensions', None), ('user_verification', E('UserVerificationRequirement', 'PREFERRED'))]
CREATE_NEEDS = ['rp', 'pub_key_cred_params', 'attestation']
REQUEST_NEEDS = ['mediation']


def camel(s):
    """client_data_JSON -> clientDataJSON"""
    words = [w for w in s.split('_') if w]
    return ''.join(w if i == 0 else w[0].upper() + w[1:] for i, w in enumerate(words))


def snake(s):
    """txAuthSimple -> tx_auth_simple"""
    out = ''
    for i, c in enumerate(s):
        out += ('_' if c.isupper() else '') + c
    return out.lower()


# ASN.1 schema of the Android key attestation extension: (optional, tags from the outside in, members)
def _asn(kind, explicit=None, optional=False):
    u = {'int': 2, 'octets': 4, 'null': 5, 'enum': 10, 'bool': 1, 'seq': 16, 'set': 17}
    members = None
    if isinstance(kind, tuple):
        kind, members = kind
    tags = (() if explicit is None else ((0x80, explicit),)) + ((0, u[kind]),)
    return optional, tags, members


_ROT = ('seq', (_asn('octets'), _asn('bool'), _asn('enum'), _asn('octets')))
_SET = ('set', (_asn('int'),))
_AUTHZ = ('seq', tuple(_asn(k, t, True) for t, k in (
    (1, _SET), (2, 'int'), (3, 'int'), (5, _SET), (6, _SET), (10, 'int'), (200, 'int'), (303, 'null'), (400, 'int'),
    (401, 'int'), (402, 'int'), (503, 'null'), (504, 'int'), (505, 'int'), (506, 'null'), (507, 'null'),
    (508, 'null'), (509, 'null'), (600, 'null'), (601, 'octets'), (701, 'int'), (702, 'int'), (703, 'null'),
    (704, _ROT), (705, 'int'), (706, 'int'), (709, 'octets'), (710, 'octets'), (711, 'octets'), (712, 'octets'),
    (713, 'octets'), (714, 'octets'), (715, 'octets'), (716, 'octets'), (717, 'octets'), (718, 'int'),
    (719, 'int'))))
KEY_DESCRIPTION = _asn(('seq', (_asn('int'), _asn('enum'), _asn('int'), _asn('enum'), _asn('octets'),
                                _asn('octets'), _asn(_AUTHZ), _asn(_AUTHZ))))
