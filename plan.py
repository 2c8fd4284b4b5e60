"""Which contracts decide which property.

An obligation labelled with the property counts as its own.  On top of that a property may rest on obligations of
callees (their result and refusal obligations), given as patterns over obligation names."""
import re

SPECS = ['parsing', 'crypto', 'attest', 'backend', 'data']

REG = 'backends.CredentialsBackend.handle_credential_attestation'
ASS = 'backends.CredentialsBackend.handle_credential_assertion'
REGD, ASSD = REG + '#defaults', ASS + '#defaults'      # optional arguments left out
EXACT = [r'result', r'refuses', r'fact']
HONEST = [r'refuses-only-invalid', r'result']
STMT = ['parsers.parse_%s_attestation_statement' % s for s in (
    'packed', 'tpm', 'android_key', 'android_safetynet', 'fido_u2f', 'none')]
KEYS = ['parsers.parse_cose_key', 'parsers.parse_ec2_public_key', 'parsers.parse_okp_public_key']
VALID = ['validators.validate_ec2_public_key', 'validators.validate_okp_public_key']
CONV = ['converters.cryptography_ec2_public_key', 'converters.cryptography_okp_public_key',
        'converters.cryptography_public_key', 'converters.cryptography_public_key#other']
VERIFY = ['verifiers.verify_ec2_public_key', 'verifiers.verify_okp_public_key', 'verifiers.verify',
          'verifiers.verify#other']
ENC = ['converters.cose_ec2_public_key', 'converters.cose_okp_public_key', 'converters.cose_key',
       'converters.cose_key#other', 'lemma.cose_roundtrip']
ATT = ['attesters.attest_fido_u2f', 'attesters.attest_android_key', 'attesters.attest_none', 'attesters.attest']
CLIENT = ['parsers.parse_client_data', 'parsers.parse_origin']
AD, AO, EXTS = 'parsers.parse_authenticator_data', 'parsers.parse_attestation_object', 'parsers.parse_extensions'
CRED = 'parsers.parse_public_key_credential'
EVERY = [REG, ASS, REGD, ASSD, AD, AO, EXTS, CRED] + STMT + KEYS + VALID + CONV + VERIFY + ENC + ATT + CLIENT


FRAMES = r'converters\.jsonify|lemma\.construct_json#|lemma\.(create|request)_(options|set#)|utils\.[^#]*$|lemma\.lookup'


def rest(names, pats):
    return {n: list(pats) for n in names}


# expected cost, for scheduling
COST = {AD: 20, REG: 6, ASS: 6, 'parsers.parse_ec2_public_key': 3}

OWN = {
    'C01': [REG, REGD], 'C02': [REG, REGD], 'C03': [REG] + ATT, 'C04': [ASS, ASSD], 'C05': [ASS, ASSD],
    'C06': [ASS], 'C07': [ASS, ASSD], 'C08': [ASS, ASSD], 'C09': [REG, ASS], 'C10': [REG, ASS, REGD, ASSD],
    'C11': [REG, ASS],
    'C12': ['parsers.parse_origin'], 'C13': [CRED], 'C14': ['parsers.parse_client_data'], 'C15': [AD],
    'C16': KEYS + VALID, 'C17': ENC, 'C18': CONV + VERIFY, 'C19': ['attesters.attest_fido_u2f'],
    'C20': ['attesters.attest_android_key', 'lemma.asn1_schema'], 'C21': STMT + [AO], 'C22': [EXTS],
    'C25': [AD, AO, EXTS, CRED] + STMT + KEYS + CLIENT,
    'C26': EVERY,
}
RESTS = {
    'C01': rest(CLIENT, EXACT),
    'C02': {**rest([AD, AO], [r'refuses', r'result(\[0\]\.auth_data)?\.(rp_id_hash|flags|extensions|attested_cred)',
                              r'fact']), **rest([EXTS], EXACT)},
    'C03': {**rest(ATT[:3] + [AO, 'converters.cryptography_public_key'], EXACT), **rest(STMT, EXACT)},
    'C04': rest(CLIENT, EXACT),
    'C05': {**rest([AD], [r'refuses', r'result\.(rp_id_hash|flags|extensions)', r'fact']), **rest([EXTS], EXACT)},
    'C06': rest(VERIFY[:3] + CONV[:3], EXACT),
    'C08': rest([AD], [r'result\.sign_count']),
    'C10': rest(CLIENT + [AD, AO, EXTS] + STMT + KEYS + VALID + CONV + VERIFY + ATT, HONEST),
    'C11': {**rest(VERIFY + ATT + ['parsers.parse_origin'], [r'raises-only-documented']),
            **rest([REG, ASS], [r'refuses:'])},
    'C15': rest(KEYS + VALID + [EXTS], EXACT),
    'C16': {},
    'C17': rest(KEYS, EXACT),
    'C20': rest(CONV[:3], EXACT),
    'C21': rest([AD], EXACT),
}


def items(P, reg):
    """contract -> patterns of supporting obligations."""
    own = OWN.get(P) or [n for n, c in reg.items() if P in c.props]
    if P == 'C26':
        own = own + [n for n, c in reg.items() if re.match(FRAMES, n)]
    out = {n: [r'refuses-only-invalid'] if 'C12' <= P <= 'C22' else [] for n in own}
    for n, pats in RESTS.get(P, {}).items():
        out.setdefault(n, [])
        out[n] = out[n] + pats
    return {n: p for n, p in out.items() if n in reg and not reg[n].assumed}


COMMON_ASSUMPTIONS = [
    'arguments have their annotated types; integers are mathematical (they are in Python); strings are sequences of '
    'code points below 0x110000 in practice bounded by memory',
    'MemoryError, KeyboardInterrupt and interpreter limits other than the int/str digit limit and JSON/CBOR recursion '
    'are not modelled; the code does not run under python -O',
    'library models (json, cbor2, base64, urllib, hashlib, struct, cryptography, pyasn1) are assumed contracts: what '
    'they return on a given input is an uninterpreted function with the facts stated in pyvc/libs.py, cross-checked by '
    'the concrete cases of this run',
]
ASSUMPTIONS = {}
