"""Small kit for demonstrations: a relying party, an authenticator and a client, all in memory."""
import base64
import hashlib
import json
import os
import sys

sys.path.insert(0, os.getcwd())
import cbor2
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.parsers import parse_authenticator_data, parse_cose_key
from webauthn_rp.registrars import CredentialData, CredentialsRegistrar
from webauthn_rp.types import *
from webauthn_rp import errors

RP = PublicKeyCredentialRpEntity(name='rp', id='a.example')
USER = PublicKeyCredentialUserEntity(name='u', id=b'user', display_name='U')
CURVES = {1: (ec.SECP256R1, 32), 2: (ec.SECP384R1, 48), 3: (ec.SECP521R1, 66)}
HASHES = {-7: hashes.SHA256, -35: hashes.SHA384, -36: hashes.SHA512}


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def sha(b):
    return hashlib.sha256(b).digest()


class Key:
    def __init__(self, crv=1, alg=-7):
        self.crv, self.alg = crv, alg
        if crv in CURVES:
            c, n = CURVES[crv]
            self.sk = ec.generate_private_key(c(), default_backend())
            p = self.sk.public_key().public_numbers()
            self.map = {1: 2, 3: alg, -1: crv, -2: p.x.to_bytes(n, 'big'), -3: p.y.to_bytes(n, 'big')}
        else:
            self.alg = -8
            self.sk = (ed25519.Ed25519PrivateKey if crv == 6 else ed448.Ed448PrivateKey).generate()
            self.map = {1: 1, 3: -8, -1: crv, -2: self.sk.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)}

    def sign(self, data, alg=None):
        if self.crv in CURVES:
            return self.sk.sign(data, ec.ECDSA(HASHES[alg or self.alg]()))
        return self.sk.sign(data)

    def cose(self, **more):
        return cbor2.dumps(self.map)

    def obj(self):
        return parse_cose_key(self.cose())


class Store(CredentialsRegistrar):
    """One credential; remembers everything it is told."""
    def __init__(self, key=None, count=None, user=USER, rp=RP, answer=None):
        self.key, self.count, self.user, self.rp, self.answer = key, count, user, rp, answer
        self.log = []

    def register_credential_attestation(self, *a, **k):
        self.log.append(('att', k))
        return self.answer

    def register_credential_assertion(self, *a, **k):
        self.log.append(('asr', k))
        return self.answer

    def get_credential_data(self, credential_id):
        self.log.append(('get', credential_id))
        if self.key is None:
            return None
        return CredentialData(credential_public_key=self.key, signature_count=self.count, user_entity=self.user, rp_entity=self.rp)


def client_data(type, chal, origin='https://a.example', **more):
    d = dict(type=type, challenge=b64u(chal), origin=origin)
    d.update(more)
    return json.dumps(d).encode()


def auth_data(rp='a.example', flags=1, count=1, key=None, cid=b'cred', ext=None, aaguid=bytes(16)):
    att = b''
    if key is not None:
        flags |= 0x40
        att = aaguid + len(cid).to_bytes(2, 'big') + cid + (key if isinstance(key, bytes) else key.cose())
    if ext is not None:
        flags |= 0x80
        att += ext if isinstance(ext, bytes) else cbor2.dumps(ext)
    return sha(rp.encode()) + bytes([flags]) + count.to_bytes(4, 'big') + att


def att_obj(ad, fmt='none', stmt=None):
    return cbor2.dumps({'fmt': fmt, 'attStmt': stmt or {}, 'authData': ad})


def reg_cred(cd, ao):
    return PublicKeyCredential(id='x', type='public-key', raw_id=b'cred',
                               response=AuthenticatorAttestationResponse(client_data_JSON=cd, attestation_object=ao))


def auth_cred(cd, ad, sig, uh=None, raw=b'cred'):
    return PublicKeyCredential(id='x', type='public-key', raw_id=raw,
                               response=AuthenticatorAssertionResponse(client_data_JSON=cd, authenticator_data=ad, signature=sig, user_handle=uh))


def register(store, cd, ao, chal, backend=None, **kw):
    a = dict(credential=reg_cred(cd, ao), user=USER, rp=RP, expected_challenge=chal, expected_origin='https://a.example')
    a.update(kw)
    return (backend or CredentialsBackend(store)).handle_credential_attestation(**a)


def login(store, key, chal, cd=None, ad=None, sig=None, uh=None, raw=b'cred', backend=None, **kw):
    cd = client_data('webauthn.get', chal) if cd is None else cd
    ad = auth_data() if ad is None else ad
    sig = key.sign(ad + sha(cd)) if sig is None else sig
    a = dict(credential=auth_cred(cd, ad, sig, uh, raw), user=USER, rp=RP, expected_challenge=chal, expected_origin='https://a.example')
    a.update(kw)
    return (backend or CredentialsBackend(store)).handle_credential_assertion(**a)


def refused(fn, *cls):
    try:
        fn()
    except errors.WebAuthnRPError as e:
        if cls and type(e).__name__ not in cls:
            print('refused with', type(e).__name__)
            return False
        return True
    except Exception as e:
        print('escaped:', repr(e))
        return False
    return False


def accepted(fn):
    try:
        return fn() is None
    except Exception as e:
        print('refused:', repr(e))
        return False


def ensure(cond, what):
    if not cond:
        print('BROKEN:', what)
        sys.exit(1)


def der(tag, body):
    n = len(body)
    size = bytes([n]) if n < 128 else (bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255]))
    return (tag if isinstance(tag, bytes) else bytes([tag])) + size + body


def tagged(n, body):
    return der(bytes([0xA0 | n]) if n < 31 else bytes([0xBF, 0x80 | n >> 7, n & 127]), body)


def purposes(*l):
    return tagged(1, der(0x31, b''.join(der(2, bytes([p])) for p in l)))


def origin_entry(n=0):
    return tagged(702, der(2, bytes([n])))


ALL_APPS = tagged(600, der(5, b''))


def key_description(challenge, sw=b'', tee=None):
    tee = purposes(2) + origin_entry(0) if tee is None else tee
    return der(0x30, der(2, b'\3') + der(10, b'\1') + der(2, b'\4') + der(10, b'\1') + der(4, challenge) + der(4, b'') + der(0x30, sw) + der(0x30, tee))


def certificate(public_key, description=None):
    import datetime
    from cryptography import x509
    name = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, 'c')])
    b = (x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(public_key).serial_number(7)
         .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)))
    if description is not None:
        b = b.add_extension(x509.UnrecognizedExtension(x509.ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'), description), False)
    ca = ec.generate_private_key(ec.SECP256R1(), default_backend())
    return b.sign(ca, hashes.SHA256(), default_backend()).public_bytes(Encoding.DER)


def android(store, chal, description=lambda h: key_description(h), key=None, cert_key=None, **kw):
    """A registration with android-key attestation."""
    key = key or Key()
    cd = client_data('webauthn.create', chal)
    ad = auth_data(key=key)
    cert = certificate((cert_key or key).sk.public_key(), description(sha(cd)))
    return register(store, cd, att_obj(ad, 'android-key', {'alg': key.alg, 'sig': (cert_key or key).sign(ad + sha(cd)), 'x5c': [cert]}), chal, **kw)


def u2f(store, chal, certs=None, signer=None, key=None, **kw):
    """A registration with fido-u2f attestation; signer signs with SHA-256, its certificate is the first unless certs are given."""
    key = key or Key()
    signer = signer or ec.generate_private_key(ec.SECP256R1(), default_backend())
    cd = client_data('webauthn.create', chal)
    msg = b'\0' + sha(b'a.example') + sha(cd) + b'cred' + b'\4' + key.map[-2] + key.map[-3]
    certs = [certificate(signer.public_key())] if certs is None else certs(signer)
    return register(store, cd, att_obj(auth_data(key=key), 'fido-u2f', {'sig': signer.sign(msg, ec.ECDSA(hashes.SHA256())), 'x5c': certs}), chal, **kw)
