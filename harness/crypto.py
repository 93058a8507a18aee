"""Keys, signatures, certificates and the facts about them that the specification is given."""
import datetime
import hashlib

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from cryptography.x509.oid import NameOID, ObjectIdentifier

import der

BE = default_backend()
EC = {'P_256': (ec.SECP256R1, 32), 'P_384': (ec.SECP384R1, 48), 'P_521': (ec.SECP521R1, 66),
      'K_256': (ec.SECP256K1, 32), 'BP_256': (ec.BrainpoolP256R1, 32)}         # the last two only in certificates
HASH = {'ES256': hashes.SHA256, 'ES384': hashes.SHA384, 'ES512': hashes.SHA512}
LEN = {'P_256': 32, 'P_384': 48, 'P_521': 66, 'ED25519': 32, 'ED448': 57, 'K_256': 32, 'BP_256': 32}
ALGN = {'ES256': -7, 'ES384': -35, 'ES512': -36, 'EDDSA': -8}
ALGT = {'ES256': 'ES256', 'ES384': 'ES384', 'ES512': 'ES512', 'EDDSA': 'EdDSA'}
CRVN = {'P_256': 1, 'P_384': 2, 'P_521': 3, 'ED25519': 6, 'ED448': 7}
CRVT = {'P_256': 'P-256', 'P_384': 'P-384', 'P_521': 'P-521', 'ED25519': 'Ed25519', 'ED448': 'Ed448'}
P = {
    'P_256': (2**256 - 2**224 + 2**192 + 2**96 - 1,
              0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B),
    'P_384': (2**384 - 2**128 - 2**96 + 2**32 - 1,
              0xB3312FA7E23EE7E4988E056BE3F82D19181D9C6EFE8141120314088F5013875AC656398D8A2ED19D2A85C8EDD3EC2AEF),
    'P_521': (2**521 - 1,
              0x0051953EB9618E1C9A1F929A21A0B68540EEA2DA725B99B315F3B8B489918EF109E156193951EC7E937B1652C0BD3BB1BF073573DF883D2C34F1EF451FD46B503F00),
}


ORDER = {'P_256': 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
         'P_384': 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
         'P_521': 0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409}


def on_curve(crv, x, y):
    p, b = P[crv]
    X, Y = int.from_bytes(x, 'big'), int.from_bytes(y, 'big')
    return X < p and Y < p and (Y * Y - (X * X * X - 3 * X + b)) % p == 0


def is_ed(crv):
    return crv.startswith('ED')


class Key:
    """A key pair."""
    def __init__(self, crv, priv):
        self.crv, self.priv = crv, priv
        pub = priv.public_key()
        if is_ed(crv):
            self.x = pub.public_bytes(Encoding.Raw, PublicFormat.Raw)
            self.y = b''
        else:
            n = pub.public_numbers()
            self.x = n.x.to_bytes(LEN[crv], 'big')
            self.y = n.y.to_bytes(LEN[crv], 'big')

    @classmethod
    def make(cls, rnd, crv):
        if crv == 'ED25519':
            return cls(crv, ed25519.Ed25519PrivateKey.from_private_bytes(rnd.randbytes(32)))
        if crv == 'ED448':
            return cls(crv, ed448.Ed448PrivateKey.from_private_bytes(rnd.randbytes(57)))
        c, n = EC[crv]
        d = rnd.getrandbits({'P_384': 380, 'P_521': 515}.get(crv, 250)) + 2
        return cls(crv, ec.derive_private_key(d, c(), BE))

    def negated(self):
        """The key whose point has the same x: the other root."""
        n = ORDER[self.crv]
        return Key(self.crv, ec.derive_private_key(n - self.priv.private_numbers().private_value, EC[self.crv][0](), BE))

    @classmethod
    def make_short(cls, rnd, crv, which='x'):
        """A key with a leading zero byte in a coordinate."""
        while True:
            k = cls.make(rnd, crv)
            if is_ed(crv) or (k.x if which == 'x' else k.y)[1 if crv == 'P_521' else 0] == 0:
                return k

    def sign(self, h, msg):
        if is_ed(self.crv):
            return self.priv.sign(msg)
        return memo(('sig', self.crv, self.x, h, bytes(msg)), lambda: self.priv.sign(msg, ec.ECDSA(HASH[h]())))

    def spec_h(self, alg):
        return 'EDDSA' if is_ed(self.crv) else alg


MEMO = None         # while set, the same message is signed, and the same certificate made, once
_rsa = []


def memo(k, make):
    if MEMO is None:
        return make()
    if k not in MEMO:
        MEMO[k] = make()
    return MEMO[k]



def rsa_key():
    if not _rsa:
        _rsa.append(rsa.generate_private_key(65537, 1024, BE))
    return _rsa[0]


class Facts:
    """What the harness itself made true: handed to the specification."""
    def __init__(self):
        self.sigs, self.certs, self.points, self.hash = [], [], [], []
        self._h = set()

    def sign(self, key, alg, msg):
        """Make a signature and record it."""
        s = key.sign(alg, msg)
        self.sig(key, alg, msg, s)
        return s

    def sig(self, key, alg, msg, s):
        self.sigs.append({'crv': key.crv, 'x': list(key.x), 'y': list(key.y), 'h': key.spec_h(alg),
                          'msg': list(msg), 'sig': list(s)})

    def sha(self, b):
        d = hashlib.sha256(b).digest()
        if b not in self._h:
            self._h.add(b)
            self.hash.append([list(b), list(d)])
        return d

    def point(self, crv, x, y):
        if crv in P:
            self.points.append({'crv': crv, 'x': list(x), 'y': list(y), 'on': on_curve(crv, x, y)})

    def cert(self, der_, kind, key=None, ext=None, ok=True):
        self.certs.append({'der': list(der_), 'ok': ok, 'kind': kind,
                           'crv': key.crv if key else '', 'x': list(key.x) if key else [],
                           'y': list(key.y) if key else [],
                           'ext': {'k': 'none'} if ext is None else {'k': 'some', 'b': list(ext)}})

    def dump(self):
        return {'sigs': self.sigs, 'certs': self.certs, 'points': self.points}


OID_KD = ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17')
OID_AAGUID = ObjectIdentifier('1.3.6.1.4.1.45724.1.1.4')
OID_OTHER = ObjectIdentifier('1.3.6.1.4.1.11129.2.1.18')


def certificate(facts, rnd, key, kd=None, kind=None, kd_oid=OID_KD, signer=None, extras=True):
    """A DER certificate for a key, with an optional Android key description extension."""
    names = [x509.NameAttribute(NameOID.COMMON_NAME, 'c%d' % rnd.randrange(10**6))]
    if rnd.random() < .3:
        names.append(x509.NameAttribute(NameOID.ORGANIZATIONAL_UNIT_NAME, 'Authenticator Attestation'))
    name = x509.Name(names)
    priv = key.priv if isinstance(key, Key) else key
    b = x509.CertificateBuilder().subject_name(name).issuer_name(
        x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'i%d' % rnd.randrange(10**6))]))
    serial = rnd.randrange(1, 2**100)
    b = b.public_key(priv.public_key()).serial_number(serial)
    year = rnd.choice([1999, 2010, 2019, 2024])
    b = b.not_valid_before(datetime.datetime(year, 1, 1)).not_valid_after(
        datetime.datetime(rnd.choice([year + 1, 2049, 2060]), 1, 1))
    if extras and rnd.random() < .5:
        b = b.add_extension(x509.BasicConstraints(False, None), rnd.random() < .5)
    if extras and rnd.random() < .3:
        b = b.add_extension(x509.UnrecognizedExtension(OID_AAGUID, der.octets(rnd.randbytes(16))), False)
    if kd is not None:
        b = b.add_extension(x509.UnrecognizedExtension(kd_oid, kd), rnd.random() < .2)
    sp = (signer or priv)
    if isinstance(sp, Key):
        sp = sp.priv
    alg = None if isinstance(sp, (ed25519.Ed25519PrivateKey, ed448.Ed448PrivateKey)) else hashes.SHA256()
    d = memo(('cert', serial, kd, kd_oid.dotted_string, priv.public_key().public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)), lambda: b.sign(sp, alg, BE).public_bytes(Encoding.DER))
    if isinstance(key, Key):
        facts.cert(d, kind or ('ed' if is_ed(key.crv) else 'ec'), key,
                   kd if kd is not None and kd_oid == OID_KD else None)
    else:
        facts.cert(d, kind or 'rsa', None, kd)
    return d


class KD:
    """Android key description under construction."""
    def __init__(self, challenge):
        self.challenge = challenge
        self.sw, self.tee = {}, {}
        self.head = (3, 1, 4, 1)
        self.unique = b''

    @staticmethod
    def entries(d):
        return der.seq(*[der.explicit(n, d[n]) for n in sorted(d)])

    def der(self):
        v, sl, kv, ksl = self.head
        return der.seq(der.integer(v), der.enumerated(sl), der.integer(kv), der.enumerated(ksl),
                       der.octets(self.challenge), der.octets(self.unique),
                       self.entries(self.sw), self.entries(self.tee))


INTS = [2, 3, 10, 200, 400, 401, 402, 504, 505, 701, 705, 706, 718, 719]
NULLS = [303, 503, 506, 507, 508, 509, 703]
OCTS = [601, 709, 710, 711, 712, 713, 714, 715, 716, 717]


def extra_entries(rnd, d, n):
    """Entries of no concern to attestation."""
    for _ in range(n):
        k = rnd.choice(INTS + NULLS + OCTS + [5, 6, 704])
        if k in INTS:
            d[k] = der.integer(rnd.choice([0, 1, 2, 127, 128, 256, 2**31, 2**40]))
        elif k in NULLS:
            d[k] = der.null()
        elif k in OCTS:
            d[k] = der.octets(rnd.randbytes(rnd.choice([0, 1, 9, 40, 200])))
        elif k == 704:
            d[k] = der.seq(der.octets(rnd.randbytes(32)), der.boolean(rnd.random() < .5),
                           der.enumerated(rnd.randrange(4)), der.octets(rnd.randbytes(32)))
        else:
            d[k] = der.setof(*{der.integer(x) for x in rnd.sample(range(6), rnd.randrange(3))})


def odd_key(r, cert):
    """The certificate with a key that no implementation can load."""
    a = bytes.fromhex('2a8648ce3d0201')
    if a not in cert:
        return cert[:-1]
    if r.random() < .5:
        return cert.replace(a, a[:-1] + bytes([7]))
    i = cert.index(a) + len(a)
    return cert[:i] + cert[i:].replace(bytes.fromhex('2a8648ce3d0301'), bytes.fromhex('2a8648ce3d0309'), 1).replace(bytes.fromhex('2b8104'), bytes.fromhex('2b8109'), 1)
