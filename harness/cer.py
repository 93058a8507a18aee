"""Ceremonies made to measure: a plan says what the relying party expects and what the client
sends; build() turns it into real bytes, keys, signatures and certificates.  Nothing here decides
whether a ceremony should be accepted."""
import threading
import base64
import hashlib
import json
import random

import cborx
import crypto
import der
import near
from crypto import Facts, KD, Key
from enc import enc

LOC = ['latitude', 'longitude', 'altitude', 'accuracy', 'altitudeAccuracy', 'heading', 'speed']
EXTS = ['appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts', 'uvi', 'loc', 'uvm', 'biometricPerfBounds']
PAIRS = [('P_256', 'ES256'), ('P_384', 'ES384'), ('P_521', 'ES512'), ('P_256', 'ES384'), ('P_256', 'ES512'),
         ('P_384', 'ES256'), ('P_384', 'ES512'), ('P_521', 'ES256'), ('P_521', 'ES384'),
         ('ED25519', 'EDDSA'), ('ED448', 'EDDSA')]


def b64u(b, pad=False):
    s = base64.urlsafe_b64encode(b).decode()
    return s if pad else s.rstrip('=')


# ---- JSON text ----
def jstr(s, rnd, style):
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch == '"' or ch == '\\':
            out.append('\\' + ch)
        elif o < 32:
            out.append({8: '\\b', 9: '\\t', 10: '\\n', 12: '\\f', 13: '\\r'}.get(o) if o in (8, 9, 10, 12, 13) and rnd.random() < .5 else '\\u%04x' % o)
        elif ch == '/' and style > 0 and rnd.random() < .5:
            out.append('\\/')
        elif (style > 1 and rnd.random() < .3) or (o > 126 and style > 0):
            u16 = ch.encode('utf-16-be', 'surrogatepass')
            for u in (u16[i:i + 2] for i in range(0, len(u16), 2)):
                h = u.hex()
                out.append('\\u' + (h.upper() if rnd.random() < .5 else h))
        else:
            out.append(ch)
    out.append('"')
    return ''.join(out)


class Members(list):
    """A JSON object given as (name, value) pairs."""


class JRaw(str):
    """JSON text spliced in as it is."""


def jtext(v, rnd, style=0):
    ws = (lambda: rnd.choice(['', '', ' ', '\n', '\t', '  ', '\r\n'])) if style > 0 else (lambda: '')
    if isinstance(v, JRaw):
        return str(v)
    if isinstance(v, str):
        return jstr(v, rnd, style)
    if v is None:
        return 'null'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, (int, float)):
        return json.dumps(v)
    if isinstance(v, (Members, dict)):
        items = list(v.items()) if isinstance(v, dict) else v
        return '{' + ws() + ','.join(ws() + jstr(k, rnd, style) + ws() + ':' + ws() + jtext(x, rnd, style) + ws()
                                     for k, x in items) + '}'
    return '[' + ws() + ','.join(ws() + jtext(x, rnd, style) + ws() for x in v) + ']'


def random_json(rnd, depth=2):
    r = rnd.random()
    if depth == 0 or r < .5:
        return rnd.choice([None, True, False, 0, -1, 1.5, 10**20, '', rnd.text(), [], {}])
    if r < .75:
        return [random_json(rnd, depth - 1) for _ in range(rnd.randrange(4))]
    return Members([(rnd.text(), random_json(rnd, depth - 1)) for _ in range(rnd.randrange(4))])


# ---- extension outputs ----
def ext_value(rnd, name, empty=False):
    if name in ('appid', 'authnSel', 'biometricPerfBounds'):
        return False if empty else rnd.random() < .5
    if name == 'txAuthSimple':
        return '' if empty else rnd.text()
    if name in ('txAuthGeneric', 'uvi'):
        return b'' if empty else rnd.blob(hi=300)
    if name == 'exts':
        return [] if empty else [rnd.text(12) for _ in range(rnd.randrange(4))]
    if name == 'uvm':
        return rnd.choice([[], [[]]]) if empty else [[rnd.choice([0, 1, 2, 4, 256, 2**16, 2**32, -1]) for _ in range(rnd.randrange(5))]
                                                     for _ in range(rnd.randrange(4))]
    if name == 'loc':
        return {} if empty else {k: rnd.choice([0, 1, -1, 90, 0.0, -122.5, 1e300, 3.25, rnd.uniform(-180, 180)])
                                 for k in rnd.sample(LOC, rnd.randrange(8))}
    raise KeyError(name)


def ext_map(rnd, names, empty=False):
    l = [(n, ext_value(rnd, n, empty)) for n in names]
    rnd.shuffle(l)
    return cborx.Pairs(l)


# ---- keys ----
def cose_pairs(rnd, key, alg, plain=False):
    """The COSE map of a key, with varied optional members, names and order."""
    ed = crypto.is_ed(key.crv)
    named = (not plain) and rnd.random() < .25
    m = [(1, ('OKP' if ed else 'EC2') if named and rnd.random() < .6 else (1 if ed else 2)),
         (3, crypto.ALGT[alg] if named and rnd.random() < .6 else crypto.ALGN[alg]),
         (-1, crypto.CRVT[key.crv] if named and rnd.random() < .6 else crypto.CRVN[key.crv]), (-2, key.x)]
    if not ed:
        m.append((-3, key.y))
    if not plain:
        if rnd.random() < .2:
            m.append((2, rnd.blob(hi=100)))
        if rnd.random() < .2:
            m.append((4, [rnd.choice([1, 2, 'sign', 'verify', 3, 10, 'MAC verify', 'derive key'])
                          for _ in range(rnd.randrange(1, 4))]))
        if rnd.random() < .2:
            m.append((5, rnd.blob(hi=40)))
        if rnd.random() < .3:
            rnd.shuffle(m)
    return cborx.Pairs(m)


def key_object(T, key, alg, rnd=None, named=False):
    """The library's key object for a key."""
    v = 'Name' if named else 'Value'
    kw = dict(alg=getattr(getattr(T.COSEAlgorithmIdentifier, v), alg))
    kw['kid'] = kw['key_ops'] = kw['base_IV'] = None
    if rnd is not None:
        if rnd.random() < .2:
            kw['kid'] = rnd.blob(hi=60)
        if rnd.random() < .2:
            kw['key_ops'] = [rnd.choice(list(T.COSEKeyOperation.Value) + list(T.COSEKeyOperation.Name))
                             for _ in range(rnd.randrange(1, 4))]
        if rnd.random() < .2:
            kw['base_IV'] = rnd.blob(hi=40)
    if crypto.is_ed(key.crv):
        return T.OKPCredentialPublicKey(x=key.x, kty=getattr(T.COSEKeyType, v).OKP,
                                        crv=getattr(getattr(T.OKPCurve, v), key.crv), **kw)
    return T.EC2CredentialPublicKey(x=key.x, y=key.y, kty=getattr(T.COSEKeyType, v).EC2,
                                    crv=getattr(getattr(T.EC2Curve, v), key.crv), **kw)


_keys = {}


def pooled_key(rnd, crv, n=8):
    """One of a few keys of a curve, the same in every process; the first ones have a leading zero byte."""
    k = rnd.randrange(n)
    if (crv, k) not in _keys:
        r = random.Random('key:%s:%d' % (crv, k))
        short = k < 2 and crv != 'P_521' and not crypto.is_ed(crv)
        _keys[crv, k] = Key.make_short(r, crv, 'xy'[k]) if short else Key.make(r, crv)
    return _keys[crv, k]


class Registrar:
    pass


ABSENT = object()


_kept = threading.local()


def kept(what, value):
    """The same list, set or dictionary every time, holding the value: what a caller with a variable of its own would pass."""
    mine = _kept.__dict__.setdefault(what, {})
    c = mine.setdefault(type(value), type(value)())
    c.clear()
    c.extend(value) if type(value) is list else c.update(value)
    return c


class Plan:
    """Everything about one ceremony; a fresh plan is valid and varied."""
    def __init__(self, rnd, kind, simple=False):
        self.rnd, self.kind, self.simple = rnd, kind, simple
        r = rnd
        self.type = 'webauthn.create' if kind == 'reg' else 'webauthn.get'
        self.chal = r.blob(r.choice([16, 32]) if simple else r.length(hi=1200))
        self.chal_text = b64u(self.chal, r.chance(.2))
        self.origins, self.client_origin = self.origin_default()
        self.coll = self.collection()
        self.tb_want = self.tb_got = None
        if r.chance(.25):
            st = r.choice(['PRESENT', 'SUPPORTED'])
            i = r.text() if st == 'PRESENT' or r.chance(.5) else None
            self.tb_want = self.tb_got = (st, i)
        self.tb_extra = r.chance(.2)
        self.cd_style = 0 if simple else r.choice([0, 0, 0, 1, 2])
        self.cd_extra = 0 if simple else r.choice([0, 0, 1, 2, 4])
        self.cd_raw = None
        self.uv = r.chance(.4)
        self.flags = 1 | (4 if self.uv or r.chance(.4) else 0)
        if r.chance(.2):
            self.flags |= r.choice([2, 8, 16, 32, 2 | 8 | 16 | 32])
        self.att = kind == 'reg' or (not simple and r.chance(.12))
        self.ext_req = None if r.chance(.6) else r.sample(EXTS, r.choice([0, 1, 1, 2, 9]))
        if self.ext_req is None:
            self.exts = None if r.chance(.6) else r.sample(EXTS, r.choice([0, 1, 2, 5]))
        else:
            self.exts = list(set(self.ext_req) | set(r.sample(EXTS, r.choice([0, 0, 1, 3]))))
            if not self.exts and r.chance(.5):
                self.exts = None
        self.ext_empty = r.chance(.3)
        self.ext_bytes = None
        self.rp_id = r.choice(['a.example', 'localhost', 'rp%d.example' % r.randrange(1000), r.text() or 'x', 'exämple.test'])
        self.rphash, self.hash_of = 'ok', None
        self.count = r.u32() if kind == 'reg' else None
        self.aaguid = r.blob(16)
        self.cid = r.blob(r.choice([16, 32, 64]) if simple else r.length(0, 1500))
        self.crv, self.alg = r.choice(PAIRS[:3] + PAIRS[-2:]) if r.chance(.7) else r.choice(PAIRS)
        self.key = None
        self.keymap = None
        self.user_id = b'' if r.chance(.06) else r.blob(r.length(1, 64 if r.chance(.8) else 300))
        self.user_name, self.rp_name = r.text(), r.text()
        self.rsp = 'none'
        self.ad_edit = None            # bytes -> bytes, after signing
        self.ad_pre = lambda b: b      # before signing
        self.raw_id = None
        self.near_cdh = self.near_msg = lambda b: b         # what is signed, or attested to
        if kind == 'reg':
            if r.chance(.06):          # open whether that is accepted, but the attested id is what storage learns
                self.raw_id = r.choice([r.blob(r.length(0, 64)), near.nbytes(r, self.cid)])
            self.fmt = r.choice(['none'] * 5 + ['fido-u2f'] * 2 + ['android-key'] * 2)
            if self.fmt == 'fido-u2f':
                self.crv, self.alg = 'P_256', r.choice(['ES256', 'ES256', 'ES384'])
            self.u2f = {'n': 1, 'cert': 'p256', 'crv': None, 'msg': 'ok', 'signer': 'cert', 'hash': 'ES256'}
            self.ak = {'n': r.choice([1, 1, 2, 3]), 'cert': 'same', 'alg': 'ok', 'msg': 'ok', 'signer': 'cert', 'ext': 'kd',
                       'chal': 'ok', 'swAll': False, 'teeAll': False, 'teeOrigin': '0', 'swOrigin': r.choice(['none', '0', '1']),
                       'teePurpose': r.choice(['2', '2,3', '0,1,2']), 'swPurpose': r.choice(['none', '2', '3']), 'more': r.choice([0, 0, 2, 6])}
            self.stmt = None           # overriding statement
            self.ao_order = r.chance(.5)
            self.ao_edit = None
        else:
            self.sig_mode = 'ok'
            self.near_sig = lambda b: b
            self.user_bytes = self.allow_bytes = None
            stored = r.choice([None, 'less'])
            got = r.u32()
            self.ignore = r.chance(.15)
            if stored == 'less':
                if got == 0:
                    got = 1
                stored = r.choice([0, got - 1, r.randrange(got), min(got - 1, r.u32())])
            elif r.chance(.1):
                self.ignore = True
            self.stored, self.count = stored, got
            self.get = 'some'          # 'some' | 'none' | raise mode
            self.allow = r.choice([None, None, ['raw'], ['other', 'raw'], ['raw', 'other'], ['other', 'other', 'raw']])
            mode = r.choice(['user', 'handle', 'both'])
            self.user = 'owner' if mode != 'handle' else None
            self.uh = self.user_id if mode != 'user' else None
            rpm = r.choice(['stored', 'given', 'both'])
            self.srp = self.rp_id if rpm != 'given' else None
            self.rp = self.rp_id if rpm != 'stored' else None

    def collection(self):
        if len(self.origins) == 1 and self.rnd.chance(.4):
            return 'str'
        return self.rnd.choice(['list', 'tuple', 'set', 'frozenset', 'dict', 'keys'])

    def origin_default(self):
        r = self.rnd
        host = r.choice(['a.example', 'localhost', '127.0.0.1', 'h%d.example' % r.randrange(999), 'x' * 63 + '.example',
                         'a-b.example', 'xn--bcher-kva.example', 'a.b.c.d.e.f', '10.0.0.1', 'under_score.example', 'example.com.',
                         '[::1]', '[2001:db8::%x]' % r.randrange(65536), '[1:2:3:4:5:6:7:%x]' % r.randrange(65536)])
        scheme = r.choice(['https', 'https', 'http'])
        port = r.choice([None, None, 443, 80, 8443, 1, 65535, 8080, r.randrange(1, 65536)])
        dflt = {'https': 443, 'http': 80}[scheme]
        me = scheme + '://' + host + ('' if port is None else ':%d' % port)
        exp = me
        if port in (None, dflt) and r.chance(.5):
            exp = scheme + '://' + host + ('' if port == dflt else ':%d' % dflt)
        others = [r.choice(['https', 'http']) + '://' + r.choice(['b.example', 'c.example', host]) + r.choice(['', ':8443', ':80', ':444'])
                  for _ in range(r.choice([0, 0, 0, 1, 2, 5]))]
        l = others + [exp]
        r.shuffle(l)
        return l, me

    # ---- pieces ----
    def client_data(self):
        if self.cd_raw is not None:
            return self.cd_raw
        r = self.rnd
        m = [('type', self.type), ('challenge', self.chal_text), ('origin', self.client_origin)]
        if self.tb_got is not None:
            st, i = self.tb_got
            tb = [('status', st.lower())] + ([] if i is None else [('id', i)])
            if self.tb_extra:
                tb.append((r.text() + '_', random_json(r, 1)))
                r.shuffle(tb)
            m.append(('tokenBinding', Members(tb)))
        elif r.chance(.1) and not self.simple:
            m.append(('tokenBinding', None))
        used = {'type', 'challenge', 'origin', 'tokenBinding'}
        for _ in range(self.cd_extra):
            k = r.choice([r.text(), 'crossOrigin', 'extra_keys_may_be_added_here', 'Type', 'hashAlgorithm', 'clientExtensions', 'androidPackageName', 'id', 'status'])
            if k not in used:
                used.add(k)
                m.append((k, random_json(r)))
        if not self.simple and r.chance(.4):
            r.shuffle(m)
        if not self.simple and r.chance(.04):       # an earlier member of the same name, which does not count
            i = r.randrange(len(m))
            m.insert(r.randrange(i + 1), (m[i][0], r.choice([None, '', r.text(), b64u(r.blob()), 'https://a.example', 'webauthn.get', random_json(r)])))
        t = jtext(Members(m), r, self.cd_style)
        if self.cd_style and r.chance(.3):
            t = r.choice([' ', '\n', '\t ']) + t + r.choice([' ', '\n'])
        return t.encode('utf-8', 'surrogatepass')

    def rp_hash(self, facts, rp_id):
        if self.hash_of is not None:
            return facts.sha(self.hash_of.encode('utf-8', 'surrogatepass'))
        h = facts.sha(rp_id.encode())
        m = self.rphash
        if m == 'ok':
            return h
        i = self.rnd.randrange(256)
        if m == 'flip_first':
            i = 0
        if m == 'flip_last':
            i = 255
        if m.startswith('flip'):
            return bytes(b ^ (128 >> (i % 8)) if j == i // 8 else b for j, b in enumerate(h))
        import hashlib
        s = hashlib.sha256
        return {'other_rp': s(b'other.example').digest(), 'origin': s(self.client_origin.encode()).digest(),
                'plain': rp_id.encode()[:32].ljust(32, b'\0'), 'zeros': bytes(32), 'rotated': h[1:] + h[:1],
                'upper': s((rp_id + '.').encode()).digest(), 'double': s(h).digest(), 'sha_hex': s(h.hex().encode()).digest(),
                'prefix16': h[:16] + bytes(16), 'suffix16': bytes(16) + h[16:]}[m]

    def auth_data(self, facts, rp_id):
        r = self.rnd
        att = b''
        fl = self.flags & ~0xC0
        if self.att:
            fl |= 0x40
            att = self.aaguid + len(self.cid).to_bytes(2, 'big') + self.cid
            km = self.keymap if self.keymap is not None else cose_pairs(r, self.key, self.alg, self.simple)
            att += km if isinstance(km, bytes) else cborx.enc(km)
        ext = b''
        if self.ext_bytes is not None:
            fl |= 0x80
            ext = self.ext_bytes
        elif self.exts is not None:
            fl |= 0x80
            ext = cborx.enc(ext_map(r, self.exts, self.ext_empty))
        self.out_flags = fl
        return self.ad_pre(self.rp_hash(facts, rp_id) + bytes([fl]) + self.count.to_bytes(4, 'big') + att + ext)

    # ---- attestation statements ----
    def stmt_u2f(self, facts, ad, cdh):
        r, u = self.rnd, self.u2f
        kinds = {'p256': 'P_256', 'p384': 'P_384', 'p521': 'P_521', 'ed': 'ED25519', 'k256': 'K_256', 'bp256': 'BP_256'}
        if u['cert'] in kinds:
            ck = pooled_key(r, kinds[u['cert']])
            if ck is self.key:
                ck = Key.make(r, ck.crv)
            cert = crypto.certificate(facts, r, ck, signer=r.choice([None, pooled_key(r, 'P_256')]))
        elif u['cert'] == 'rsa':
            ck = pooled_key(r, 'P_256')
            cert = crypto.certificate(facts, r, crypto.rsa_key())
        else:
            ck = pooled_key(r, 'P_256')
            good = crypto.certificate(Facts(), r, ck)
            cert = r.choice([b'', r.randbytes(40), good[:-5], b'\x30\x03\x02\x01\x05', good[:40], b'\x00' + good, crypto.odd_key(r, good), crypto.odd_key(r, good)])
            facts.cert(cert, '', None, None, ok=False)
        signer = {'cert': ck, 'cred': self.key}.get(u['signer'])
        if signer is None or (u['signer'] != 'cert' and signer is ck):
            signer = Key.make(r, ck.crv)
        h, k = ad[:32], self.key
        x, y = k.x, k.y
        parts = dict(zero=b'\0', rph=h, cdh=cdh, cid=self.cid, pt=b'\4' + x + y)
        m = u['msg']
        flip = lambda b: (bytes([b[0] ^ 1]) + b[1:]) if b else b'\1'
        if m == 'rphash':
            parts['rph'] = flip(h)
        elif m == 'cdh':
            parts['cdh'] = flip(cdh)
        elif m == 'cid':
            parts['cid'] = flip(self.cid)
        elif m == 'point':
            parts['pt'] = b'\4' + x + flip(y)
        elif m == 'no_zero':
            parts['zero'] = b''
        elif m == 'one':
            parts['zero'] = b'\1'
        elif m == 'compressed':
            parts['pt'] = bytes([2 + (y[-1] & 1 if y else 0)]) + x
        elif m == 'bare_point':
            parts['pt'] = x + y
        elif m == 'reserved':
            parts['zero'] = bytes([r.choice([5, 5, 5, 2, 3, 4, 6, 255, r.randrange(1, 256)])])
        elif m == 'hybrid':
            parts['pt'] = bytes([r.choice([6, 7, 0, 2, 3, 5, 255])]) + x + y
        elif m == 'with_lengths':
            parts['cid'] = r.choice([bytes([len(self.cid) & 255]), len(self.cid).to_bytes(2, 'big')]) + self.cid
        elif m == 'rp_raw':
            parts['rph'] = r.choice([self.rp_id.encode(), hashlib.sha256(h).digest(), self.client_origin.encode()])
        elif m == 'cd_raw':
            parts['cdh'] = r.choice([hashlib.sha256(cdh).digest(), self.chal, hashlib.sha256(self.chal).digest()])
        elif m == 'cid_hash':
            parts['cid'] = hashlib.sha256(self.cid).digest()
        elif m == 'no_cid':
            parts['cid'] = b'' if self.cid else b'\0'
        elif m == 'swap_xy':
            parts['pt'] = b'\4' + y + x + (b'\7' if x == y or not y else b'')
        msg = b''.join(parts.values())
        if m == 'order':
            msg = b'\0' + cdh + h + self.cid + b'\4' + x + y
        elif m == 'raw_ad':
            msg = ad + cdh
        elif m == 'sign_form':         # what U2F signs at authentication
            msg = h + b'\1' + ad[33:37] + cdh
        msg = self.near_msg(msg)
        if crypto.is_ed(signer.crv):
            sig = facts.sign(signer, 'EDDSA', msg)
        else:
            sig = facts.sign(signer, u['hash'], msg)
        x5c = [cert] * min(u['n'], 1)
        for _ in range(u['n'] - 1):
            x5c.append(crypto.certificate(facts, r, pooled_key(r, 'P_256')))
        self.u2f_sig = sig
        return {'sig': sig, 'x5c': x5c}

    def stmt_ak(self, facts, ad, cdh):
        r, a = self.rnd, self.ak
        key, alg = self.key, self.alg
        kd = KD(cdh)
        ch = a['chal']
        kd.challenge = {'ok': cdh, 'other': r.randbytes(32), 'empty': b'', 'prefix': cdh[:-1], 'raw_challenge': self.chal if self.chal != cdh else b'x',
                        'flip': cdh[:31] + bytes([cdh[31] ^ 1]), 'in_unique': b'\0' * 32}[ch]
        kd.challenge = self.near_cdh(kd.challenge)
        if ch == 'in_unique':
            kd.unique = cdh
        if a['more']:
            crypto.extra_entries(r, kd.sw, r.randrange(a['more'] + 1))
            crypto.extra_entries(r, kd.tee, r.randrange(a['more'] + 1))
            kd.head = (r.choice([0, 1, 3, 100]), r.randrange(3), r.choice([0, 4, 41]), r.randrange(3))
            kd.unique = r.randbytes(r.choice([0, 8])) if ch != 'in_unique' else kd.unique
        if a['swAll']:
            kd.sw[600] = der.null()
        if a['teeAll']:
            kd.tee[600] = der.null()
        for d, o, p in ((kd.sw, a['swOrigin'], a['swPurpose']), (kd.tee, a['teeOrigin'], a['teePurpose'])):
            if o != 'none':
                d[702] = der.integer(int(o))
            if p != 'none':
                d[1] = der.setof(*[der.integer(int(x)) for x in p.split(',')]) if p != 'empty' else der.setof()
        ext = kd.der()
        oid = crypto.OID_KD
        e = a['ext']
        if e == 'absent':
            ext = None
        elif e == 'other_oid':
            oid = crypto.OID_OTHER
        elif e == 'garbage':
            ext = r.choice([b'\xff\xff', b'\x04\x03abc', b'\x30\x80', ext[:-3], b'\x30\x05\x02'])
        elif e == 'short':
            ext = der.seq(der.integer(3), der.enumerated(1), der.integer(4), der.enumerated(1), der.octets(cdh))
        elif e == 'empty':
            ext = b''
        c = a['cert']
        ck = key
        if c == 'other':
            ck = Key.make(r, key.crv)
        elif c == 'other_crv':
            ck = Key.make(r, r.choice([x for x in ('P_256', 'P_384', 'P_521') if x != key.crv]))
        elif c == 'neg':
            ck = key.negated()
        if c == 'rsa':
            cert = crypto.certificate(facts, r, crypto.rsa_key(), ext)
        elif c == 'garbage':
            good = crypto.certificate(Facts(), r, key, ext)
            cert = r.choice([b'', r.randbytes(30), good[:-1], good[1:], crypto.odd_key(r, good), crypto.odd_key(r, good)])
            facts.cert(cert, '', None, None, ok=False)
        else:
            cert = crypto.certificate(facts, r, ck, ext, kd_oid=oid, signer=r.choice([None, pooled_key(r, 'P_256')]))
        signer = ck if a['signer'] == 'cert' else Key.make(r, ck.crv)
        msg = {'ok': ad + cdh, 'ad': ad, 'cdh': cdh, 'order': cdh + ad, 'empty': b''}[a['msg']]
        msg = self.near_msg(msg)
        salg = alg
        if crypto.is_ed(ck.crv):
            salg = 'EDDSA'
        elif alg == 'EDDSA':
            salg = 'ES256'
        sig_h = salg
        stmt_alg = salg
        if a['alg'] == 'wrong' and not crypto.is_ed(ck.crv):
            stmt_alg = r.choice([x for x in ('ES256', 'ES384', 'ES512') if x != salg])
        elif a['alg'] == 'wrong':
            signer = Key.make(r, ck.crv)
        sig = facts.sign(signer, sig_h, msg)
        n = a['n']
        x5c = [cert][:n] + [crypto.certificate(facts, r, pooled_key(r, 'P_256'), kd.der()) for _ in range(n - 1)]
        av = crypto.ALGN[stmt_alg] if r.chance(.8) else crypto.ALGT[stmt_alg]
        return cborx.Pairs(r.sample([('alg', av), ('sig', sig), ('x5c', x5c)], 3))

    def surplus(self, m):
        """m with one member more than its format has."""
        r = self.rnd
        names = [n for n in ['x', 'Sig', 'attStmt', 'x5C', 'x5c', 'sig', 'alg', 'ver', 'ecdaaKeyId', 'response', 'certInfo', '', 'fmt', 'authData', 1, b'sig', None, False] if n not in m]
        if 'sig' in m:
            names = [n for n in names if n not in ('x5c', 'ecdaaKeyId')]
        l = list(m.items())
        l.insert(r.randrange(len(l) + 1), (r.choice(names), r.choice([None, None, b'', b'x', '', 'x', 0, 1, -7, False, True, [], {}, [b'c'], 0.0])))
        return dict(l)

    def other_stmt(self, fmt, mode):
        """Statements of formats without verification, and misfits (axis fmt)."""
        r = self.rnd
        base = {'none': {}, 'packed': {'alg': -7, 'sig': b's'}, 'packed_x5c': {'alg': -7, 'sig': b's', 'x5c': [b'c']},
                'packed_ecdaa': {'alg': -7, 'sig': b's', 'ecdaaKeyId': b'k'},
                'tpm': {'alg': -7, 'sig': b's', 'ver': '2.0', 'certInfo': b'c', 'pubArea': b'p'},
                'tpm_x5c': {'alg': -7, 'sig': b's', 'ver': '2.0', 'certInfo': b'c', 'pubArea': b'p', 'x5c': []},
                'tpm_ecdaa': {'alg': -7, 'sig': b's', 'ver': '2.0', 'certInfo': b'c', 'pubArea': b'p', 'ecdaaKeyId': b''},
                'android-safetynet': {'ver': '1', 'response': b'jws'}}
        b = base.get(fmt, {})
        s = {'ok': b, 'extra': self.surplus(b),
             'of_none': {}, 'of_u2f': {'sig': b's', 'x5c': [b'c']}, 'of_android': {'alg': -7, 'sig': b's', 'x5c': [b'c']},
             'of_packed': {'alg': -7, 'sig': b's'}, 'not_map': r.choice([[], b'', 'x', 1, None, [{}]])}[mode]
        return s

    # ---- build ----
    def id_text(self, rid, allow):
        """The id text of a credential; nothing depends on it."""
        r = self.rnd
        return r.choice([b64u(rid)] * 4 + [b64u(a) for a in (allow or [])[:3]] + ['', 'x', b64u(rid) + '=', b64u(self.user_id), b64u(rid).lower()])

    def build(self, L):
        """-> dict with everything needed to run and to log the ceremony. L: library handle."""
        r, T = self.rnd, L.T
        f = Facts()
        if self.key is None or self.key.crv != self.crv:
            self.key = pooled_key(r, self.crv)
        cfg = {'chal': list(self.chal), 'uv': self.uv,
               'origins': [list(o.encode('utf-8', 'surrogatepass')) for o in self.origins],
               'tb': {'k': 'none'} if self.tb_want is None else {'k': 'some', 'status': self.tb_want[0], 'id': enc(self.tb_want[1])},
               'ext': {'k': 'none'} if self.ext_req is None else {'k': 'some', 'l': list(self.ext_req)}}
        origins = {'str': lambda l: l[0], 'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset,
                   'dict': dict.fromkeys, 'keys': lambda l: dict.fromkeys(l).keys()}[self.coll](self.origins)
        if type(origins) in (list, set, dict) and r.chance(.6):
            origins = kept('origins', origins)
        kw = dict(expected_challenge=self.chal, expected_origin=origins)
        if self.tb_want is not None:
            kw['token_binding'] = T.TokenBinding(status=T.TokenBindingStatus[self.tb_want[0]], id=self.tb_want[1])
        elif r.chance(.3):
            kw['token_binding'] = None
        if self.uv or r.chance(.5):
            kw['require_user_verification'] = self.uv
        if self.ext_req is not None:
            s = {T.ExtensionIdentifier(n) for n in self.ext_req}
            kw['expected_extensions'] = r.choice([set, frozenset, lambda x: kept('extensions', x)])(s)
        elif r.chance(.3):
            kw['expected_extensions'] = None
        cd = self.client_data()
        cdh = f.sha(cd)
        e = {'op': self.kind, 'cfg': cfg, 'rsp': {'k': 'none'} if self.rsp == 'none' else {'k': self.rsp}}
        rp_ent = lambda i: T.PublicKeyCredentialRpEntity(name=self.rp_name, id=i)
        us_ent = lambda i, n: T.PublicKeyCredentialUserEntity(name=n, id=i, display_name=n + '!')
        ad = None
        if self.kind == 'reg':
            ad = self.auth_data(f, self.rp_id)
            f.point(self.key.crv, self.key.x, self.key.y)
            if self.stmt is not None:
                fmt, stmt = self.stmt
                fmt = fmt.split('_')[0] if fmt.startswith(('packed_', 'tpm_')) else fmt
            elif self.fmt == 'none':
                fmt, stmt = 'none', {}
            elif self.fmt == 'fido-u2f':
                fmt, stmt = 'fido-u2f', self.stmt_u2f(f, ad, cdh)
            else:
                fmt, stmt = 'android-key', self.stmt_ak(f, ad, cdh)
            if self.ad_edit:
                ad = self.ad_edit(ad)
            m = [('fmt', fmt), ('attStmt', stmt), ('authData', ad)]
            if self.ao_order:
                r.shuffle(m)
            ao = cborx.enc(cborx.Pairs(m))
            if self.ao_edit:
                ao = self.ao_edit(ao)
            rid = self.cid if self.raw_id is None else self.raw_id
            cred = T.PublicKeyCredential(id=self.id_text(rid, []), type='public-key', raw_id=rid,
                                         response=T.AuthenticatorAttestationResponse(client_data_JSON=cd, attestation_object=ao))
            e['cred'] = {'raw': list(rid), 'cd': list(cd), 'ao': list(ao)}
            user, rp = us_ent(self.user_id, self.user_name), rp_ent(self.rp_id)
            kw.update(user=user, rp=rp)
            cfg['rp'] = {'k': 'some', 'id': list(self.rp_id.encode())}
            e['ent'] = {'user': enc(user), 'rp': enc(rp), 'suser': enc(None), 'srp': enc(None)}
            store = None
        else:
            rp_force = self.rp if self.rp is not None else self.srp if self.srp is not None else self.rp_id
            other = [r.blob(r.length(0, 64)) for _ in range(4)]
            rid = self.cid if self.raw_id is None else self.raw_id
            other = [o if o != rid else o + b'x' for o in other] + ([rid[:-1]] if rid else []) + [rid + b'\0']
            allow = None if self.allow is None else [rid if a == 'raw' else r.choice(other) for a in self.allow]
            if self.allow_bytes is not None:
                allow = self.allow_bytes
            self.att and f.point(self.key.crv, self.key.x, self.key.y)
            att_key = self.key
            if self.att:           # attested data in an assertion may name any key
                self.key = pooled_key(r, self.crv)
                f.point(self.key.crv, self.key.x, self.key.y)
            ad = self.auth_data(f, rp_force)
            self.key = att_key
            if self.rp is not None:
                f.sha(self.rp.encode())
            if self.srp is not None:
                f.sha(self.srp.encode())
            cd, ad, sig, kobj = self.sign(L, f, cd, cdh, ad)
            f.sha(cd)
            if self.ad_edit:
                ad = self.ad_edit(ad)
            cred = T.PublicKeyCredential(id=self.id_text(rid, allow), type='public-key', raw_id=rid,
                                         response=T.AuthenticatorAssertionResponse(client_data_JSON=cd, authenticator_data=ad, signature=sig,
                                                                                   user_handle=self.uh))
            e['cred'] = {'raw': list(rid), 'cd': list(cd), 'ad': list(ad), 'sig': list(sig),
                         'uh': {'k': 'none'} if self.uh is None else {'k': 'some', 'b': list(self.uh)}}
            suser = us_ent(self.user_id, self.user_name)
            srp = None if self.srp is None else rp_ent(self.srp)
            user = rp = None
            if self.user is not None:
                uid = self.user_id if self.user == 'owner' else r.choice([self.user_id + b'\0', self.user_id[:-1], r.blob(16), b''])
                if self.user != 'owner' and uid == self.user_id:
                    uid += b'y'
                if self.user_bytes is not None:
                    uid = self.user_bytes
                user = us_ent(uid, r.choice([self.user_name, 'someone']))
                kw['user'] = user
            elif r.chance(.3):
                kw['user'] = None
            if self.rp is not None:
                rp = T.PublicKeyCredentialRpEntity(name=r.choice([self.rp_name, 'given']), id=self.rp)
                kw['rp'] = rp
            elif r.chance(.3):
                kw['rp'] = None
            if allow is not None:
                kw['allow_credentials'] = r.choice([list, tuple, lambda x: kept('allow', list(x))])(
                    T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=i,
                                                    transports=r.choice([None, [T.AuthenticatorTransport.USB]])) for i in allow)
            elif r.chance(.3):
                kw['allow_credentials'] = None
            if self.ignore or r.chance(.4):
                kw['ignore_clone_error'] = self.ignore
            cfg['rp'] = {'k': 'none'} if rp is None else {'k': 'some', 'id': list(rp.id.encode())}
            cfg['user'] = {'k': 'none'} if user is None else {'k': 'some', 'id': list(user.id)}
            cfg['allow'] = {'k': 'none'} if allow is None else {'k': 'some', 'l': [list(a) for a in allow]}
            cfg['ignore'] = self.ignore
            e['ent'] = {'user': enc(user), 'rp': enc(rp), 'suser': enc(suser), 'srp': enc(srp)}
            if self.get == 'some':
                store = L.R.CredentialData(kobj, self.stored, suser, srp)
                e['store'] = {'k': 'some', 'key': enc(kobj),
                              'count': {'k': 'none'} if self.stored is None else {'k': 'some', 'b': list(self.stored.to_bytes(4, 'big'))},
                              'user': list(self.user_id), 'rp': {'k': 'none'} if self.srp is None else {'k': 'some', 'id': list(self.srp.encode())}}
            else:
                store = self.get
                e['store'] = {'k': 'none' if self.get == 'none' else 'raise'}
                e['ent']['suser'] = e['ent']['srp'] = enc(None)
        e['hash'] = f.hash
        e.update(f.dump())
        return {'e': e, 'cred': cred, 'kw': kw, 'store': store, 'rsp': self.rsp, 'facts': f}

    def sign(self, L, f, cd, cdh, ad):
        """Assertion signature with its deviations (axis sig)."""
        r, m = self.rnd, self.sig_mode
        key, alg = self.key, self.alg
        kobj = key_object(L.T, key, alg, None if self.simple else r, named=r.chance(.15))
        msg = ad + cdh
        others = [a for a in ('ES256', 'ES384', 'ES512') if a != alg]
        salg = alg
        if m in ('other_key', 'other_curve'):
            crv = key.crv if m == 'other_key' else r.choice([c for c in ('P_256', 'P_384', 'P_521') if c != key.crv])
            signer = Key.make(r, crv)
            if crypto.is_ed(key.crv) and m == 'other_curve':
                salg = 'ES256'
        else:
            signer = key
        if m == 'other_hash' and alg != 'EDDSA':
            salg = r.choice(others)
        msg = {'no_cd': ad, 'cd_raw': ad + cd, 'swapped': cdh + ad, 'hash_only': cdh, 'ad_only': ad, 'twice': msg + msg,
               'other_msg': r.randbytes(69), 'u2f_msg': ad[:32] + ad[32:33] + ad[33:37] + f.sha(self.chal)}.get(m, msg)
        if m == 'ad_only':
            import hashlib
            msg = hashlib.sha256(ad).digest() + cdh
        s = self.near_sig(f.sign(signer, salg, self.near_msg(msg)))
        if m == 'flip':
            i = r.randrange(len(s) * 8)
            s = bytes(b ^ (1 << (i % 8)) if j == i // 8 else b for j, b in enumerate(s))
        elif m == 'empty':
            s = b''
        elif m == 'trunc':
            s = s[:-r.choice([1, 1, 2, len(s) // 2])]
        elif m == 'extend':
            s += r.choice([b'\0', b'\1', s, r.randbytes(3)])
        elif m == 'zeros':
            s = bytes(len(s)) if crypto.is_ed(key.crv) or r.chance(.5) else b'\x30\x06\x02\x01\x00\x02\x01\x00'
        elif m == 'random':
            s = r.randbytes(len(s))
        elif m == 'hex':
            s = s.hex().encode()
        elif m == 'raw_rs' and not crypto.is_ed(key.crv):
            from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
            a, b = decode_dss_signature(s)
            n = crypto.LEN[key.crv]
            s = a.to_bytes(n, 'big') + b.to_bytes(n, 'big')
        elif m == 'raw_rs':
            s = s[len(s) // 2:] + s[:len(s) // 2]
        elif m == 'ad_flip' and len(ad) > 36:           # a bit that no other check looks at: the counter
            self.stored = None
            ad = ad[:36] + bytes([ad[36] ^ 1]) + ad[37:]
        elif m == 'ad_trunc' or m == 'ad_extend':
            # drop or add an extension output nobody required
            self.ext_req = self.ext_req
            if m == 'ad_trunc':
                s = f.sign(signer, salg, ad + b'\0' + cdh)
            else:
                s = f.sign(signer, salg, ad[:-1] + cdh)
        elif m == 'cd_flip':
            cd = cd + b' '
        elif m == 'cd_reser':
            cd = b' ' + cd
        elif m == 'offcurve':
            if crypto.is_ed(key.crv):
                s = r.randbytes(len(s))
            else:
                y = bytearray(key.y)
                y[-1] ^= 1
                bad = Key.__new__(Key)
                bad.crv, bad.x, bad.y, bad.priv = key.crv, key.x, bytes(y), None
                kobj = key_object(L.T, bad, alg, None)
                f.point(bad.crv, bad.x, bad.y)
        f.point(key.crv, key.x, key.y)
        return cd, ad, s, kobj

    # ---- axes of GenCer ----
    def apply(self, ax, v):
        r = self.rnd
        some = lambda o: o['k'] == 'some'
        if ax == 'type':
            self.type = bytes(v['text']).decode()
        elif ax == 'chal':
            self.chal, self.chal_text = bytes(v['want']), bytes(v['text']).decode()
        elif ax == 'origin':
            self.origins = [bytes(o).decode() for o in v['allowed']]
            self.client_origin = bytes(v['client']).decode()
            if self.origins and r.chance(.4):
                self.origins.insert(r.randrange(len(self.origins) + 1), r.choice(['https://elsewhere.test', 'http://elsewhere.test:8443', 'https://else.where.test:1']))
            self.coll = self.collection()
        elif ax == 'tb':
            dec = lambda g: None if g['k'] == 'none' else (g['status'], None if g['id']['t'] == 'none' else bytes(g['id']['u']).decode())
            self.tb_want, self.tb_got = dec(v['want']), dec(v['got'])
        elif ax == 'flags':
            self.uv, self.flags = v['uv'], v['flags']
            self.att = bool(v['flags'] & 64)
            if v['flags'] & 128:
                self.exts = self.exts or []
            elif self.ext_req is not None:
                self.ext_req = self.exts = None
            else:
                self.exts = None
            if self.kind == 'reg' and not self.att:
                self.fmt = 'none'
        elif ax == 'ext':
            self.ext_req = v['req']['l'] if some(v['req']) else None
            self.exts = v['present']['l'] if some(v['present']) else None
            self.ext_empty = v['empty']
        elif ax == 'rphash':
            self.rphash = v['mode']
        elif ax == 'count':
            self.stored = int.from_bytes(bytes(v['stored']['b']), 'big') if some(v['stored']) else None
            self.count = int.from_bytes(bytes(v['got']), 'big')
            self.ignore = v['ignore']
        elif ax == 'res':
            self.allow = ['raw' if a == [1] else 'other' for a in v['allow']['l']] if some(v['allow']) else None
            st = v['store']
            self.get = 'some' if some(st) else 'none' if st['k'] == 'none' else 'raise_runtime'
            self.user = {1: 'owner', 2: 'other'}[v['user']['id'][0]] if some(v['user']) else None
            self.uh = None
            if some(v['uh']):
                b = v['uh']['b']
                if not b and not self.user_id:      # there the owner has a name
                    self.user_id = b'u'
                self.uh = b'' if not b else self.user_id if b == [1] else r.choice([self.user_id + b'\0', self.user_id[:-1] or b'zz', r.blob(16) + b'q'])
            self.srp = self.rp_id if some(st) and some(st['rp']) else None
            self.rp = None
            if some(v['rp']):
                self.rp = self.rp_id if v['rp']['id'] == [1] or self.srp is None else r.choice([self.rp_id + '.', self.rp_id[:-1] or 'zz', 'sub.' + self.rp_id, self.rp_id.swapcase() + '2'])
        elif ax == 'sig':
            self.sig_mode, self.crv, self.alg = v['mode'], v['crv'], v['alg']
        elif ax == 'rsp':
            self.rsp = v['mode']
        elif ax == 'getrsp':
            self.get = v['mode']
        elif ax == 'u2f':
            self.fmt = 'fido-u2f'
            self.crv = v['crv']
            self.alg = 'EDDSA' if v['crv'] == 'ED25519' else 'ES256'
            self.u2f = dict(v)
        elif ax == 'ak':
            self.fmt = 'android-key'
            self.ak = dict(v)
            if v['cert'] in ('other_crv', 'neg') and self.crv.startswith('ED'):
                self.crv, self.alg = 'P_256', 'ES256'
        elif ax == 'fmt':
            self.stmt = (v['fmt'], self.other_stmt(v['fmt'], v['stmt']))
        elif ax.startswith('x_'):
            self.fuzz(ax, v)
        elif ax.startswith('n_'):
            self.nearly(ax)
        else:
            raise KeyError(ax)

    def nearly(self, ax):
        """What is expected and what arrives differ in little; what that means is for the specification to say."""
        r = self.rnd
        if ax == 'n_chal':
            t = near.nbytes(r, self.chal)
            if r.chance(.2):
                self.chal, t = t, self.chal
            self.chal_text = b64u(t, r.chance(.2))
            if r.chance(.15):
                self.chal_text = near.ntext(r, self.chal_text)
        elif ax == 'n_type':
            self.type = near.ntext(r, r.choice([self.type, self.type, 'webauthn.get', 'webauthn.create'])) if r.chance(.8) else r.choice(near.TYPES)
        elif ax == 'n_origin':
            l, me = self.origins, self.client_origin
            exact = [o for o in l if near.unorigin(o)[1] != near.unorigin(me)[1]]
            l = exact[:r.choice([0, 0, 1, 2])] + [near.norigin(r, me) for _ in range(r.choice([1, 1, 2, 3]))]
            if r.chance(.5) and len(l) == 1:        # the other way round
                l, me = [me], l[0]
            r.shuffle(l)
            self.origins, self.client_origin = l, me
            self.coll = self.collection()
        elif ax == 'n_tb':
            st, i = r.choice(['PRESENT', 'SUPPORTED']), r.choice([r.text(), b64u(r.blob(r.choice([1, 8, 32])), r.chance(.3)), 'tb'])
            j = near.ntext(r, i)
            st2 = st if r.chance(.8) else r.choice(['PRESENT', 'SUPPORTED'])
            if st2 == st == 'SUPPORTED' and r.chance(.2):
                i, j = r.choice([(None, ''), ('', None), (None, 'None'), (None, 'null'), (None, '0'), ('0', None), (None, None)])
            self.tb_want, self.tb_got = (st, i), (st2, j)
        elif ax == 'n_rphash':
            self.hash_of = r.choice([near.ntext(r, self.rp_id), near.ntext(r, self.rp_id), self.client_origin, r.choice(self.origins), 'https://' + self.rp_id, near.unorigin(self.client_origin)[1], self.rp_name, self.rp_id + '/', ''])
            if r.chance(.4):
                self.exts = sorted(set(self.exts or []) | {r.choice(EXTS)})
        elif ax == 'n_count':
            self.stored = s = r.u32()
            d = r.choice([0, 0, 1, -1, 2, 255, 256, -256, 2**16, -2**16, 2**24, 2**31, -2**31, 2**31 - 1, r.randrange(2**32)])
            b = s.to_bytes(4, 'big')
            self.count = r.choice([(s + d) % 2**32, (s + d) % 2**32, int.from_bytes(b[::-1], 'big'), int.from_bytes(near.nbytes(r, b)[:4].ljust(4, b'\0'), 'big'), 0, 1, 2**32 - 1])
        elif ax == 'n_uh':
            self.uh = near.nbytes(r, self.user_id)
        elif ax == 'n_user':
            self.user, self.user_bytes = 'other', near.nbytes(r, self.user_id)
            self.uh = r.choice([None, self.user_id, self.user_bytes])
        elif ax == 'n_allow':
            self.allow = ['other']
            self.allow_bytes = [near.nbytes(r, self.cid) for _ in range(r.choice([1, 1, 2, 3]))]
        elif ax == 'n_rp':
            self.srp, self.rp = self.rp_id, near.ntext(r, self.rp_id).encode('utf-8', 'ignore').decode()
            if r.chance(.5):
                self.srp, self.rp = self.rp, self.srp
            self.hash_of = r.choice([self.srp, self.rp])
        elif ax == 'n_sig':
            f = lambda b: near.nbytes(r, b)
            if r.chance(.5) and self.alg != 'EDDSA':
                self.near_msg = f       # other bytes were signed
            else:
                self.near_sig = f
        elif ax == 'n_u2f':
            self.fmt, self.crv, self.alg = 'fido-u2f', 'P_256', 'ES256'
            self.stmt, self.near_msg = None, lambda b: near.nbytes(r, b)
        elif ax == 'n_ak':
            self.fmt, self.stmt = 'android-key', None
            f = lambda b: near.nbytes(r, b)
            if r.chance(.7):
                self.near_cdh = f
            else:
                self.near_msg = f
        else:
            raise KeyError(ax)

    def relate(self, group):
        """Share identities with the other ceremonies of a group (what a cache or a mix-up would need)."""
        r, g = self.rnd, self.rnd.__class__(group)
        for f in ('cid', 'user_id', 'rp_id', 'chal', 'origins', 'crv', 'aaguid', 'user_name'):
            q = Plan.__new__(Plan)
            q.rnd, q.kind = g, self.kind
            v = {'cid': lambda: g.blob(g.choice([1, 16, 32, 64])), 'user_id': lambda: g.blob(g.length(1, 64)), 'rp_id': lambda: 'rp%d.example' % g.randrange(1000),
                 'chal': lambda: g.blob(32), 'origins': q.origin_default, 'crv': lambda: g.choice(PAIRS[:5]), 'aaguid': lambda: g.blob(16), 'user_name': g.text}[f]()
            if r.chance(.2):
                continue
            if f == 'chal':
                self.chal, self.chal_text = v, b64u(v)
            elif f == 'origins':
                self.origins, self.client_origin = v
                self.coll = r.choice(['list', 'tuple', 'set'])
            elif f == 'crv':
                if self.kind == 'auth' or self.fmt != 'fido-u2f':
                    self.crv, self.alg = v
            elif f == 'rp_id':
                self.rp_id = v
                if self.kind == 'auth':
                    self.srp, self.rp = self.srp and v, self.rp and v
            elif f == 'user_id':
                self.user_id = v
                if self.kind == 'auth' and self.uh is not None:
                    self.uh = v
            else:
                setattr(self, f, v)
        self.key = pooled_key(self.rnd.__class__(group, 'key', r.randrange(2)), self.crv)

    def fuzz(self, ax, v):
        """Parts taken from the decoding cases (or mangled); what they mean is for the specification to say."""
        import ops
        from enc import dec
        r = self.rnd
        if ax == 'x_cd':
            j = dec(v)
            if isinstance(j, dict):
                for k, old, new in (('type', 'webauthn.get', self.type), ('challenge', 'AAAA', self.chal_text), ('origin', 'https://a.example', self.client_origin)):
                    if j.get(k) == old:
                        j[k] = new
            if not (isinstance(j, dict) and j.get('tokenBinding')):
                self.tb_want = None
            self.cd_raw = jtext(j, r, r.choice([0, 1])).encode('utf-8', 'surrogatepass')
        elif ax == 'x_cdraw':
            self.cd_raw = ops.mangle_text(r, self.client_data())
        elif ax == 'x_key':
            self.att = True
            self.keymap = ops.cbor_of(r, dec({'t': 'map', 'm': v}))
            if self.kind == 'reg':
                self.fmt = 'none'
        elif ax == 'x_ext':
            self.ext_bytes = ops.cbor_of(r, dec({'t': 'map', 'm': v}))
            self.ext_req = None
        elif ax == 'x_stmt':
            names = {'PACKED': 'packed', 'TPM': 'tpm', 'ANDROID_KEY': 'android-key', 'ANDROID_SAFETYNET': 'android-safetynet', 'FIDO_U2F': 'fido-u2f', 'NONE': 'none'}
            self.stmt = (names[v['fmt']], dec({'t': 'map', 'm': v['m']}))
            if r.chance(.15):
                self.stmt = ('none', self.surplus({}))
        elif ax == 'x_ad':
            self.ad_pre = lambda b: ops.mangle(r, b)
        elif ax == 'x_ao':
            self.ao_edit = lambda b: ops.mangle(r, b)
        else:
            raise KeyError(ax)
