"""Items to events: each item names a call and a case; the event records what the call did."""
import base64
import io
import json
import math
from enum import Enum

import cborx
import cer
import crypto
import lib
import near
from crypto import Facts, Key
from enc import dec, enc
from pool import Pool


def huge(r, p):
    p.att = True
    p.cid = r.randbytes(r.choice([4096, 16383, 32767, 32768, 32769, 40000, 65279, 65280, 65534, 65535]))


def ceremony_plan(it):
    r = Pool(it['seed'])
    p = cer.Plan(r, it['kind'], it.get('simple', False))
    if it.get('group'):
        p.relate(it['group'])
    if it.get('huge'):
        huge(r, p)
    for ax, v in it['apply']:
        p.apply(ax, v)
    return p


def op_cer(L, it, dry):
    b = ceremony_plan(it).build(L)
    return lib.ceremony(L, it['kind'], b, dry, shared=it.get('shared', False), twin=it.get('twin', False))


def event(L, op, inp, fn, dry, arg=None, live=None, **more):
    """Call fn; arg is what has to stay as it is."""
    e = {'op': op, 'in': inp}
    e.update(more)
    if dry:
        e.update(out={'k': 'crash'}, pure=True)
        return e
    before = enc(arg)
    if arg is not None or live is not None:
        lib.earlier(L, [arg if live is None else live], fn)
    out, v = lib.call(L, fn)
    e.update(out=out, pure=before == enc(arg))
    return e


# ---- variations that keep a document's meaning ----
def vary(r, v, p=.5):
    """Byte strings get other contents of the same length."""
    if isinstance(v, bytes) and v and r.chance(p):
        return r.blob(len(v))[:len(v)].ljust(len(v), b'\0')
    if isinstance(v, list):
        return [vary(r, x, p) for x in v]
    if isinstance(v, dict):
        return {k: vary(r, x, p) for k, x in v.items()}
    return v


NUMBERS = [0, 0, 1, -1, 2, 255, -256, 2**31, -2**31, 2**32 - 1, 2**53 + 1, 2**63, -2**63, 2**64 - 1]
FLOATS = [0.0, -0.0, 1e300, 5e-324, -1.5, 1.0, 180.0, 0.1]


def revalue(r, v, p=.5):
    """Every number, text and byte string may become another of its type."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, list):
        v = [revalue(r, x, p) for x in v]
        return v + [v[-1]] if v and r.chance(.05) else v
    if isinstance(v, dict):
        return {k: revalue(r, x, p) for k, x in v.items()}
    if not r.chance(p):
        return v
    if isinstance(v, int):
        return r.choice(NUMBERS) if r.chance(.7) else r.u32()
    if isinstance(v, float):
        return r.choice(FLOATS)
    return r.text() if isinstance(v, str) else r.blob()


def cbor_of(r, v, wild=True):
    """CBOR of a value with members in any order and numbers in any width."""
    if isinstance(v, dict):
        items = list(v.items())
        if wild and r.chance(.4):
            r.shuffle(items)
        return cborx.head(5, len(items), wide(r, len(items), wild)) + b''.join(cbor_of(r, k, False) + cbor_of(r, x, wild) for k, x in items)
    if isinstance(v, list):
        return cborx.head(4, len(v), wide(r, len(v), wild)) + b''.join(cbor_of(r, x, wild) for x in v)
    if isinstance(v, float):
        return cborx.enc(v)
    if isinstance(v, bool) or v is None:
        return cborx.enc(v)
    if isinstance(v, int):
        return cborx.enc(v, wide(r, abs(v), wild))
    return cborx.enc(v, wide(r, len(v.encode()) if isinstance(v, str) else len(v), wild))


def wide(r, n, wild):
    if not wild or r.chance(.85):
        return None
    return r.choice([w for w in (1, 2, 4, 8) if n < 1 << (8 * w)])


def mangle(r, b, n=None):
    """Random byte edits."""
    b = bytearray(b)
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(8)
        i = r.randrange(len(b) + 1) if b else 0
        if k == 0 and b:
            b[i % len(b)] ^= 1 << r.randrange(8)
        elif k == 1 and b:
            b[i % len(b)] = r.choice([0, 1, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x3b, 0x40, 0x5f, 0x60, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xd8, 0xf4, 0xf6, 0xf7, 0xf8, 0xf9, 0xfb, 0xff, 0x22, 0x7b])
        elif k == 2:
            b[i:i] = r.randbytes(r.choice([1, 1, 2, 4]))
        elif k == 3 and b:
            del b[i % len(b)]
        elif k == 4:
            b = b[:i]
        elif k == 5:
            b += r.choice([b'\0', b'\xf6', b'\xa0', b'}', b' ', b'\xff', r.randbytes(2)])
        elif k == 6 and len(b) > 2:
            j = r.randrange(len(b))
            i, j = min(i, j), max(i, j)
            b[i:j] = b''
        elif k == 7 and b:
            j = min(len(b), i + r.choice([1, 2, 4, 8, 16]))
            b[i:i] = b[i:j]
    return bytes(b)


def mangle_text(r, b):
    if r.chance(.4):
        return mangle(r, b)
    i = r.randrange(len(b) + 1)
    return b[:i] + r.choice([b'"', b'\\', b'\\u', b'\\ud800', b'{', b'}', b'[', b']', b',', b':', b'null', b'NaN', b'Infinity', b'-', b'1e999', b'0', b'\x00', b'\xff', b'\xc0\x80',
                             b'\xed\xa0\x80', b'\xef\xbb\xbf', b'"a":1,', b'/**/', b"'", b'\n', b'tru', b'\xe2\x80\xa8', b'"type":"webauthn.get",', b'"challenge":"AAAA",']) + b[i + r.choice([0, 0, 1]):]


# ---- parsers ----
def nearly(r, v, p=.2):
    """Now and then with one leaf or name near the old one."""
    return near.value(r, v) if r.chance(p) else v


def near_cbor(r, b, at=0):
    """The same for the items encoded from some position on."""
    import cbor2
    f = io.BytesIO(b)
    f.read(at)
    l = []
    try:
        while f.tell() < len(b):
            l.append(cbor2.load(f))
        if not l or not near.plain(l):
            return b
        i = r.randrange(len(l))
        l[i] = near.value(r, l[i])
        return b[:at] + b''.join(cbor_of(r, x) for x in l)
    except Exception:
        return b


def key_at(b):
    """Where the encoded items of authenticator data begin."""
    return 37 if len(b) < 55 or not b[32] & 64 else 55 + int.from_bytes(b[53:55], 'big')


def op_cose(L, it, dry):
    r = Pool(it['seed'])
    m = nearly(r, vary(r, dec({'t': 'map', 'm': it['m']})))
    if r.chance(.3):
        m = dict(r.sample(list(m.items()), len(m)))
    if it.get('form', 'map') == 'map':
        return event(L, 'parse_cose_key', enc(m), lambda: L.P.parse_cose_key(m), dry, m, form='map')
    b = cbor_of(r, m)
    if it.get('mangle'):
        b = mangle(r, b)
    return event(L, 'parse_cose_key', list(b), lambda: L.P.parse_cose_key(b), dry, b, form='bytes')


def op_ext(L, it, dry):
    r = Pool(it['seed'])
    m = nearly(r, revalue(r, dec({'t': 'map', 'm': it['m']}), r.choice([0, .3, .8])))
    if r.chance(.3):
        m = dict(r.sample(list(m.items()), len(m)))
    return event(L, 'parse_extensions', enc(m), lambda: L.P.parse_extensions(m), dry, m)


STMT = {'PACKED': 'parse_packed_attestation_statement', 'TPM': 'parse_tpm_attestation_statement', 'ANDROID_KEY': 'parse_android_key_attestation_statement',
        'ANDROID_SAFETYNET': 'parse_android_safetynet_attestation_statement', 'FIDO_U2F': 'parse_fido_u2f_attestation_statement', 'NONE': 'parse_none_attestation_statement'}


def op_stmt(L, it, dry):
    r = Pool(it['seed'])
    m = vary(r, dec({'t': 'map', 'm': it['m']}))
    if r.chance(.5):
        m = {k: r.text() if k in ('ver', 'fmt') and isinstance(x, str) else r.blob() if isinstance(x, bytes) and r.chance(.3) else x for k, x in m.items()}
    if r.chance(.3):
        m = dict(r.sample(list(m.items()), len(m)))
    m = nearly(r, m)
    return event(L, 'parse_stmt', enc(m), lambda: getattr(L.P, STMT[it['fmt']])(m), dry, m, fmt=it['fmt'])


def op_ad(L, it, dry):
    r = Pool(it['seed'])
    b = bytes(it['b'])
    if r.chance(.5) and len(b) >= 32:
        b = r.blob(32)[:32].ljust(32, b'\0') + b[32:]
    if r.chance(.5) and len(b) >= 37:
        b = b[:33] + r.u32().to_bytes(4, 'big') + b[37:]
    if it.get('mangle'):
        b = mangle(r, b)
    return event(L, 'parse_authenticator_data', list(b), lambda: L.P.parse_authenticator_data(b), dry, b)


def op_adplan(L, it, dry):
    """Authenticator data of a ceremony plan (sizes and parts varied)."""
    r = Pool(it['seed'])
    p = cer.Plan(r, it['kind'])
    p.att = r.chance(.7)
    if it.get('huge'):
        huge(r, p)
    p.key = cer.pooled_key(r, p.crv)
    if p.count is None:
        p.count = r.u32()
    b = p.auth_data(Facts(), p.rp_id)
    if it.get('mangle'):
        b = mangle(r, b)
    elif r.chance(.15):
        b = near_cbor(r, b, key_at(b))
    return event(L, 'parse_authenticator_data', list(b), lambda: L.P.parse_authenticator_data(b), dry, b)


def op_ao(L, it, dry):
    r = Pool(it['seed'])
    b = bytes(it['v'])
    if it.get('mangle'):
        b = mangle(r, b)
    elif r.chance(.15):
        b = near_cbor(r, b)
    return event(L, 'parse_attestation_object', list(b), lambda: L.P.parse_attestation_object(b), dry, b)


def op_aoplan(L, it, dry):
    r = Pool(it['seed'])
    p = cer.Plan(r, 'reg')
    b = p.build(L)['cred'].response.attestation_object
    if it.get('mangle'):
        b = mangle(r, b)
    elif r.chance(.25):
        b = near_cbor(r, b)
    return event(L, 'parse_attestation_object', list(b), lambda: L.P.parse_attestation_object(b), dry, b)


def b64_vary(r, m):
    """Text members that hold base64 of bytes get base64 of other bytes."""
    if isinstance(m, dict):
        return {k: (base64.b64encode(r.blob()).decode() if isinstance(v, str) and k in ('rawId', 'clientDataJSON', 'attestationObject', 'authenticatorData', 'signature', 'userHandle')
                    and v in ('AAAA', 'e30=', 'AQID', 'MAA=', 'AQ==', 'oA==') and r.chance(.7) else b64_vary(r, v)) for k, v in m.items()}
    if isinstance(m, list):
        return [b64_vary(r, x) for x in m]
    if isinstance(m, str) and m in ('abc', 'public-key') and r.chance(.3):
        return r.text()
    return m


def op_pkc(L, it, dry):
    r = Pool(it['seed'])
    m = b64_vary(r, dec({'t': 'map', 'm': it['m']}))
    if r.chance(.3):
        it2 = list(m.items())
        r.shuffle(it2)
        m = dict(it2)
    m = nearly(r, m)
    if it.get('round'):
        def go():
            c = L.P.parse_public_key_credential(m)
            j = L.C.jsonify(c)
            if r.chance(.5):
                j = json.loads(json.dumps(j))
            return L.P.parse_public_key_credential(j)
        return event(L, 'pkc_roundtrip', enc(m), go, dry, m)
    return event(L, 'parse_pkc', enc(m), lambda: L.P.parse_public_key_credential(m), dry, m)


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    return [jsonable(x) for x in v] if isinstance(v, list) else v.decode('latin-1') if isinstance(v, bytes) else v


def again(r, v):
    """The same object with some member given twice; the last one counts."""
    l = list(v.items() if isinstance(v, dict) else v)
    i = r.randrange(len(l) + 1)
    if i < len(l):
        k, old = l[i]
        if isinstance(old, (dict, cer.Members)) and r.chance(.7):
            l[i] = (k, again(r, old))
        else:
            new = r.choice([old, None, 'webauthn.create', 'present', r.text(), cer.b64u(r.blob()), cer.random_json(r)])
            l.insert(r.randrange(len(l) + 1), (k, new))
    return cer.Members(l)


def op_cd(L, it, dry):
    r = Pool(it['seed'])
    v = dec(it['j'])
    if isinstance(v, dict) and r.chance(.15):
        v = jsonable(near.value(r, v))
    if isinstance(v, dict) and r.chance(.6):
        for k, old in (('type', 'webauthn.get'), ('challenge', 'AAAA'), ('origin', 'https://a.example')):
            if v.get(k) == old and r.chance(.6):
                v[k] = r.text() if r.chance(.6) else cer.b64u(r.blob())
        if r.chance(.5):
            for _ in range(r.randrange(3)):
                v.setdefault(r.text() + '.', cer.random_json(r))
        it2 = list(v.items())
        if r.chance(.5):
            r.shuffle(it2)
        v = cer.Members(it2)
    if isinstance(v, (dict, cer.Members)) and r.chance(.3):
        v = again(r, v)
    st = r.choice([0, 0, 1, 2])
    b = cer.jtext(v, r, st).encode('utf-8', 'surrogatepass')
    if it.get('mangle'):
        b = mangle_text(r, b)
    elif r.chance(.1):
        b = {0: b'\xef\xbb\xbf' + b, 1: b.decode('utf-8', 'replace').encode('utf-16'), 2: b + b'\n ', 3: b.decode('utf-8', 'replace').encode('latin-1', 'replace')}[r.randrange(4)]
    return event(L, 'parse_client_data', list(b), lambda: L.P.parse_client_data(b), dry, b)


def op_origin(L, it, dry):
    s = bytes(it['v']).decode('utf-8')
    return event(L, 'parse_origin', it['v'], lambda: L.P.parse_origin(s), dry, s)


# ---- keys ----
def build_key(L, r, v):
    """(library key object, facts, key pair or None)"""
    T = L.T
    f = Facts()
    key = cer.pooled_key(r, v['crv'])
    x, y = key.x, key.y
    pt, n = v['pt'], crypto.LEN[v['crv']]
    P = crypto.P.get(v['crv'])
    if pt == 'flip_y':
        y = mangle_bit(r, y)
    elif pt == 'flip_x':
        x = mangle_bit(r, x)
    elif pt == 'zero':
        x = y = bytes(n)
    elif pt == 'max':
        x = y = b'\xff' * n
    elif pt == 'neg_y':
        y = (P[0] - int.from_bytes(y, 'big')).to_bytes(n, 'big')
    elif pt == 'swap':
        x, y = y, x
    elif pt == 'prime':
        x, y = (int.from_bytes(x, 'big') + P[0]).to_bytes(n + 1, 'big')[-n:], y
    elif pt == 'y0':
        y = bytes(n)
    ns = 'Name' if v['named'] == 1 else 'Value'
    mix = v['named'] == 2
    N = lambda: r.choice(['Name', 'Value']) if mix else ns
    kw = dict(alg=getattr(getattr(T.COSEAlgorithmIdentifier, N()), v['alg']),
              kid={0: None, 1: r.blob(), 2: b''}[v['kid']], base_IV={0: None, 1: r.blob(), 2: b''}[v['iv']])
    op = lambda: r.choice(list(getattr(T.COSEKeyOperation, N())))
    kw['key_ops'] = {0: None, 1: [op()], 2: [op() for _ in range(r.randrange(2, 5))], 3: [o for a, b in zip(T.COSEKeyOperation.Name, T.COSEKeyOperation.Value) for o in ([a, b] if mix else [a if ns == 'Name' else b])]}[v['ops']]
    if v['ops'] == 3:
        r.shuffle(kw['key_ops'])
    if v['ops'] and r.chance(.2):
        kw['key_ops'] = tuple(kw['key_ops'])
    if crypto.is_ed(v['crv']):
        k = T.OKPCredentialPublicKey(x=x, kty=getattr(T.COSEKeyType, N()).OKP, crv=getattr(getattr(T.OKPCurve, N()), v['crv']), **kw)
    else:
        k = T.EC2CredentialPublicKey(x=x, y=y, kty=getattr(T.COSEKeyType, N()).EC2, crv=getattr(getattr(T.EC2Curve, N()), v['crv']), **kw)
    f.point(v['crv'], x, y)
    return k, f, key


def mangle_bit(r, b):
    i = r.randrange(len(b) * 8)
    return bytes(c ^ (1 << (i % 8)) if j == i // 8 else c for j, c in enumerate(b))


def op_keyobj(L, it, dry):
    r = Pool(it['seed'])
    k, f, key = build_key(L, r, it['v'])
    sub, inp, pts = it['sub'], enc(k), f.points
    if sub == 'cose_key':
        return event(L, 'cose_key', inp, lambda: L.C.cose_key(k), dry, k)
    if sub == 'cose_roundtrip':
        return event(L, 'cose_roundtrip', inp, lambda: L.P.parse_cose_key(L.C.cose_key(k)), dry, k)
    if sub == 'validate':
        return event(L, 'validate', inp, lambda: L.D.validate(k), dry, k)
    if sub == 'crypto_key':
        e = event(L, 'crypto_key', inp, lambda: crypto_point(L, k), dry, k, points=pts)
        if e['out']['k'] == 'ret':
            m = {bytes(a['u']).decode(): b for a, b in e['out']['v']['m']}
            e['out']['v'] = {'c': bytes(m['c']['u']).decode(), 'x': m['x']['b'], 'y': m['y']['b']}
        return e
    if sub == 'verify':
        alg = it['v']['alg']
        data = r.blob()
        salg = alg if crypto.is_ed(key.crv) or alg != 'EDDSA' else 'ES256'
        mode = r.choice(['ok', 'ok', 'ok', 'flip', 'data', 'data_ext', 'data_cut', 'hash', 'key', 'empty', 'trunc', 'ext', 'prehash', 'zeros', 'raw'])
        sig = f.sign(key, salg, data)
        if mode == 'flip':
            sig = mangle_bit(r, sig)
        elif mode == 'data':
            data = mangle_bit(r, data) if data else b'\0'
        elif mode == 'data_ext':
            data += r.choice([b'\0', b'\1', data or b'x'])
        elif mode == 'data_cut':
            data = data[:-1] if r.chance(.5) else data[:64]
        elif mode == 'hash' and not crypto.is_ed(key.crv):
            sig = f.sign(key, r.choice([a for a in crypto.HASH if a != alg]), data)
        elif mode == 'key':
            sig = f.sign(Key.make(r, key.crv), salg, data)
        elif mode == 'empty':
            sig = b''
        elif mode == 'trunc':
            sig = sig[:-1]
        elif mode == 'ext':
            sig += b'\0'
        elif mode == 'zeros':
            sig = bytes(len(sig))
        elif mode == 'raw':
            sig = r.randbytes(len(sig))
        elif mode == 'prehash':
            import hashlib
            sig = f.sign(key, salg, hashlib.sha256(data).digest())
        return event(L, 'verify', inp, lambda: L.V.verify(k, sig, data), dry, [k, sig, data], sigs=f.sigs, points=pts, data=list(data), sig=list(sig))
    raise KeyError(sub)


def crypto_point(L, k):
    pk = L.C.cryptography_public_key(k)
    from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    if isinstance(pk, ec.EllipticCurvePublicKey):
        n = pk.public_numbers()
        c = {'secp256r1': 'P_256', 'secp384r1': 'P_384', 'secp521r1': 'P_521'}[pk.curve.name]
        return {'c': c, 'x': n.x.to_bytes(66, 'big'), 'y': n.y.to_bytes(66, 'big')}
    c = 'ED25519' if isinstance(pk, ed25519.Ed25519PublicKey) else 'ED448'
    return {'c': c, 'x': pk.public_bytes(Encoding.Raw, PublicFormat.Raw), 'y': b''}


def op_attest(L, it, dry):
    """attest() on its own, on the statement of a registration plan."""
    p = ceremony_plan(it)
    b = p.build(L)
    e, cred = b['e'], b['cred']
    if dry:
        return event(L, 'robust', {'what': 'unparsed'}, None, dry)
    try:
        o, _ = L.P.parse_attestation_object(cred.response.attestation_object)
    except Exception:
        return event(L, 'robust', {'what': 'unparsed'}, lambda: None, dry)
    raw = cborx_authdata(cred.response.attestation_object)
    import hashlib
    cdh = hashlib.sha256(cred.response.client_data_JSON).digest()
    return event(L, 'attest', {}, lambda: L.A.attest(o.att_stmt, o, raw, cdh), dry, [o, raw, cdh], fmt=o.fmt.name, stmt=enc(o.att_stmt), ad=enc(o.auth_data),
                 raw=list(raw), cdh=list(cdh), sigs=e['sigs'], certs=e['certs'], points=e['points'])


def cborx_authdata(ao):
    import cbor2
    return cbor2.loads(ao)['authData']


# ---- names and base64 ----
def op_names(L, it, dry):
    s = bytes(it['v']).decode()
    fn = {'camel': L.U.snake_to_camel_case, 'snake': L.U.camel_to_snake_case}[it['sub']]
    return event(L, it['sub'], it['v'], lambda: fn(s), dry, s)


NAMES = ['rp_id', 'pub_key_cred_params', 'display_name', 'exclude_credentials', 'authenticator_selection', 'attested_credential_data', 'raw_id', 'user_handle', 'timeout', 'sign_count',
         'authn_sel', 'biometric_perf_bounds', 'tx_auth_simple', 'tx_auth_generic', 'resident_key', 'require_resident_key', 'user_verification', 'authenticator_attachment', 'rp_id_hash',
         'public_key', 'allow_credentials', 'content_type', 'altitude_accuracy', 'far', 'frr', 'icon', 'x5c', 'a1', 'a1_b2', 'p256_key', 'es256', 'sha256_hash_x']


def op_names_r(L, it, dry):
    r = Pool(it['seed'])
    s = r.choice(NAMES) if r.chance(.4) else '_'.join(''.join(r.choice('abcdefgz0159') if i else r.choice('abcxyz') for i in range(r.choice([1, 1, 2, 3, 9, 30])))
                                                     for _ in range(r.choice([1, 2, 2, 3, 6, 20])))
    if it['sub'] == 'camel' and r.chance(.3):
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice(['_', '__', '_1', '_9z', '_A', 'Q', '_0_1', '2']) + s[i:]
    if it['sub'] == 'snake':
        w = s.split('_')
        s = w[0] + ''.join(x[0].upper() + x[1:] for x in w[1:])
        if r.chance(.2):
            s += r.choice('ABZ')
    return op_names(L, dict(it, v=list(s.encode())), dry)


def op_b64(L, it, dry):
    r = Pool(it['seed'])
    b = bytes(it['v']) if 'v' in it else r.blob(hi=3000)
    if it['sub'] == 'b64enc':
        return event(L, 'b64enc', list(b), lambda: L.U.url_base64_encode(b), dry, b)
    s = cer.b64u(b, r.chance(.4))
    if it.get('mangle'):
        s = mangle_text(r, s.encode()).decode('latin-1')
        s = s.encode('ascii', 'replace').decode()
    return event(L, 'b64dec', list(s.encode()), lambda: L.U.url_base64_decode(s), dry, s)


def op_extkeys(L, it, dry):
    return event(L, 'extkeys', {}, lambda: [[e.value, e.key] for e in L.T.ExtensionIdentifier], dry)


# ---- JSON conversion ----
def enc_json(v):
    if isinstance(v, (bytearray, memoryview)):
        return {'t': 'open'}        # could be taken for bytes
    if isinstance(v, Enum):
        return {'t': 'enumv', 'v': enc_json(v.value)}
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return {'t': 'list', 'l': [enc_json(x) for x in v]}
    if type(v) is dict:
        return {'t': 'map', 'm': [[enc(k), enc_json(x)] for k, x in v.items()]}
    if type(v).__module__.startswith('webauthn_rp.') or type(v).__module__ == __name__:
        return {'t': 'objl', 'c': type(v).__name__, 'm': [[list(k.encode()), enc_json(x)] for k, x in vars(v).items()]}
    return enc(v)


class Bag:
    """Any object with attributes."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Colour(Enum):
    RED = 'red'
    NEG = -3


def json_value(L, r, v):
    import datetime
    import decimal
    leaf = {'none': None, 'true': True, 'false': False, 'int': r.choice([0, 1, 42, 2**31]), 'neg': -r.choice([1, 7, 2**40]), 'big': 10**30, 'float': r.choice([0.0, 1.5, -2.25, 1e300]),
            'text': r.text(), 'empty': '', 'bytes': r.blob(), 'nobytes': b'', 'long': r.blob(r.length(100, 3000)), 'enum': r.choice([Colour.RED, L.T.AuthenticatorTransport.USB, L.T.PublicKeyCredentialType.PUBLIC_KEY]),
            'enumneg': r.choice([Colour.NEG, L.T.COSEAlgorithmIdentifier.Value.ES256]), 'set': {1}, 'complex': 1j, 'bytearray': bytearray(b'x'), 'frozenset': frozenset({1}), 'range': range(3),
            'decimal': decimal.Decimal('1.5'), 'class': object(), 'iter': iter([1]), 'memory': memoryview(b'x'), 'date': datetime.date(2020, 1, 1)}[v['leaf']]
    other = r.choice([1, 'x', b'y', True])
    w = v['wrap']
    name = lambda: r.choice(['', '_', '__', '_a', 'a_', '__init__', '_a_b', 'a__b', 'a_1', '1_2_x', 'A_B', 'aB_cD', 'publicKey', 'public_key', '\u00fcber', 'a.b_c', '$ref', 'a b_c', 'a-b', 'id', 'type', 'x5c', 'None', '0'])
    return {'leaf': lambda: leaf, 'list': lambda: [leaf], 'tuple': lambda: (leaf, other), 'dict': lambda: {'a': leaf}, 'list2': lambda: [other, leaf, other, leaf],
            'obj': lambda: Bag(some_name=leaf, other=other), 'dictlist': lambda: {'a_b': [leaf, {'c_d': leaf}]}, 'objlist': lambda: [Bag(x_y=leaf), Bag(z=other)],
            'nested': lambda: Bag(one_two=Bag(three_four={'five_six': (leaf, Bag(seven_eight=leaf))})), 'intkey': lambda: {'a': 1, 1: leaf}, 'nonekey': lambda: {None: leaf},
            'snakekey': lambda: r.choice([{'some_key': leaf, 'otherKey': other, 'x': {'in_ner': leaf}}, {name(): leaf, name(): other, 'x': {name(): leaf}}, {'q': [{name(): leaf}]}, Bag(**{name(): leaf, 'z': {name(): other}})]), 'byteskey': lambda: {b'k': leaf}, 'emptylist': lambda: {'a': [], 'b': leaf}, 'emptydict': lambda: {'a': {}, 'b': leaf},
            'second': lambda: {'a': other, 'b_c': leaf, 'd': other}, 'enumkey': lambda: {Colour.RED: leaf}, 'tuplekey': lambda: {'z': {(1, 2): leaf}}, 'boolkey': lambda: [{True: leaf}]}[w]()


def option_makers(L, r):
    """Makers of random option and credential objects."""
    T = L.T
    opt = lambda f, p=.5: f() if r.chance(p) else None
    desc = lambda: T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=r.blob(), transports=opt(lambda: r.sample(list(T.AuthenticatorTransport), r.randrange(3))))
    descs = lambda: r.choice([list, tuple])(desc() for _ in range(r.choice([0, 1, 2, 5])))
    uvr = lambda: r.choice(list(T.UserVerificationRequirement))
    coord = lambda: T.Coordinates(**{k: r.choice([0.0, 1.5, -3.25, 90.0]) for k in ['latitude', 'longitude', 'accuracy'] + r.sample(['altitude', 'altitude_accuracy', 'heading', 'speed'], r.randrange(5))})
    exts = lambda: T.AuthenticationExtensionsClientInputs(**{k: f() for k, f in {
        'appid': r.text, 'tx_auth_simple': r.text, 'tx_auth_generic': lambda: T.TxAuthGenericArg(content_type=r.text(), content=r.blob()),
        'authn_sel': lambda: [r.blob(16) for _ in range(r.randrange(3))], 'exts': lambda: r.chance(.5), 'uvi': lambda: r.chance(.5), 'loc': lambda: r.chance(.5), 'uvm': lambda: r.chance(.5),
        'biometric_perf_bounds': lambda: T.AuthenticatorBiometricPerfBounds(FAR=r.choice([0.0, .5]), FRR=r.choice([0.0, .25]))}.items() if r.chance(.4)})
    outs = lambda: T.AuthenticationExtensionsClientOutputs(**{k: f() for k, f in {
        'appid': lambda: r.chance(.5), 'tx_auth_simple': r.text, 'tx_auth_generic': r.blob, 'authn_sel': lambda: r.chance(.5), 'exts': lambda: [r.text()], 'uvi': r.blob, 'loc': coord,
        'uvm': lambda: [[1, 2, 3]], 'biometric_perf_bounds': lambda: r.chance(.5)}.items() if r.chance(.4)})
    rp = lambda: T.PublicKeyCredentialRpEntity(name=r.text(), id=opt(r.text), icon=opt(r.text))
    user = lambda: T.PublicKeyCredentialUserEntity(name=r.text(), id=r.blob(), display_name=r.text(), icon=opt(r.text))
    pars = lambda: [T.PublicKeyCredentialParameters(type=T.PublicKeyCredentialType.PUBLIC_KEY, alg=r.choice(list(T.COSEAlgorithmIdentifier.Value) + list(T.COSEAlgorithmIdentifier.Name))) for _ in range(r.randrange(4))]
    sel = lambda: T.AuthenticatorSelectionCriteria(**{k: f() for k, f in {'authenticator_attachment': lambda: r.choice(list(T.AuthenticatorAttachment)), 'require_resident_key': lambda: r.chance(.5),
                                                                         'user_verification': uvr}.items() if r.chance(.6)})
    creation = lambda: T.CredentialCreationOptions(public_key=T.PublicKeyCredentialCreationOptions(
        rp=rp(), user=user(), challenge=r.blob(), pub_key_cred_params=pars(), timeout=opt(lambda: r.u32()), authenticator_selection=opt(sel), extensions=opt(exts),
        exclude_credentials=opt(descs), **({'attestation': r.choice(list(T.AttestationConveyancePreference))} if r.chance(.7) else {})))
    request = lambda: T.CredentialRequestOptions(mediation=r.choice(list(T.CredentialMediationRequirement)), public_key=T.PublicKeyCredentialRequestOptions(
        challenge=r.blob(), timeout=opt(lambda: r.choice([0, 1, 60000])), rp_id=opt(r.text), allow_credentials=opt(descs), user_verification=opt(uvr), extensions=opt(exts)))
    cred = lambda: T.PublicKeyCredential(id=r.text(), type='public-key', raw_id=r.blob(), response=r.choice([
        lambda: T.AuthenticatorAttestationResponse(client_data_JSON=r.blob(), attestation_object=r.blob()),
        lambda: T.AuthenticatorAssertionResponse(client_data_JSON=r.blob(), authenticator_data=r.blob(), signature=r.blob(), user_handle=opt(r.blob))])())
    key = lambda: cer.key_object(T, cer.pooled_key(r, 'P_256'), 'ES256', r, r.chance(.5))
    m = dict(locals())
    return {k: m[k] for k in ('creation', 'request', 'cred', 'exts', 'outs', 'sel', 'rp', 'user', 'desc', 'coord', 'key', 'pars', 'descs')}


def random_options(L, r):
    """An option or credential object with random members."""
    m = option_makers(L, r)
    return r.choice([m[k] for k in ['creation'] * 3 + ['request'] * 3 + ['cred'] * 2 + ['exts', 'outs', 'sel', 'rp', 'user', 'desc', 'coord', 'key', 'pars', 'descs']])()


def op_json(L, it, dry):
    r = Pool(it['seed'])
    if 'v' in it:
        v, conv = json_value(L, r, it['v']), it['v']['conv']
    else:
        v, conv = random_options(L, r), r.chance(.8)
    inp = enc_json(v)
    got, short = [], conv and r.chance(.5)

    def go():
        got.clear()
        x = L.C.jsonify(v) if short else L.C.jsonify(v, conv)
        got.append(x)
        return x
    e = event(L, 'jsonify', inp, go, dry, None, live=v, conv=conv, serial=True)
    if got:
        try:
            e['serial'] = json.loads(json.dumps(got[0], allow_nan=False)) == got[0] or has_float(got[0])
        except (TypeError, ValueError):
            e['serial'] = False
    e['pure'] = enc_json(v) == inp
    return e


def has_float(v):
    return isinstance(v, float) or isinstance(v, list) and any(map(has_float, v)) or isinstance(v, dict) and any(map(has_float, v.values()))


# ---- robustness: inputs beyond what the specification decodes; only containment is judged ----
def hostile(r):
    k = r.randrange(16)
    n = r.choice([50, 200, 1000, 5000, 40000])
    if k == 0:
        return b'\x81' * n
    if k == 1:
        return b'\xa1\x01' * n + b'\x00'
    if k == 2:
        return b'\xc1' * n
    if k == 3:
        return r.choice([b'\x5b', b'\x7b', b'\x9b', b'\xbb']) + r.choice([b'\xff' * 8, b'\x7f' + b'\xff' * 7, b'\0\0\0\1\0\0\0\0'])
    if k == 4:
        return r.choice([b'\x5a', b'\x7a', b'\x9a', b'\xba']) + r.choice([b'\xff\xff\xff\xff', b'\x7f\xff\xff\xff', b'\x10\0\0\0'])
    if k == 5:
        return r.choice([b'\x9f', b'\xbf', b'\x5f', b'\x7f']) + r.randbytes(r.randrange(20))
    if k == 6:
        return bytes([0xc0 + r.randrange(24)]) + r.choice([b'\x60', b'\x40', b'\xf6', b'\x80', b'\x82\x01\x02', b'\x82\xf6\xf6', b'\xa0', b'\x63abc', b'\xfb\x7f\xf0\0\0\0\0\0\0', b'\x1b' + b'\xff' * 8])
    if k == 7:
        return b'\xd8' + bytes([r.choice([25, 28, 29, 30, 35, 36, 37, 43, 100, 256 % 256, 258 % 256])]) + r.choice([b'\x82\x01\x00', b'\x61[', b'\x63(?P', b'\x40', b'\x00', b'\xf6', b'\x18\xff', b'\x80', b'\x81\xd8\x1d\0'])
    if k == 8:
        return b'\xd9\x01' + r.choice([b'\0', b'\2', b'\4']) + r.choice([b'\x81\x01', b'\x82\x81\x01\xa0', b'\xf6', b'\x61a'])
    if k == 9:
        return b'{' * r.choice([1, 0]) + b'[' * n
    if k == 10:
        return b'{"a":' * n
    if k == 11:
        return b'9' * n
    if k == 12:
        return b'\xa1' + r.choice([b'\x80', b'\xa0', b'\x81\x80', b'\xd9\x01\x02\x80', b'\xf7', b'\xfb\x7f\xf8\0\0\0\0\0\0']) + b'\0'
    if k == 13:
        return b'-' + b'1' * n + b'e' + b'9' * 5
    if k == 14:
        return b'"' + b'\\ud800' * r.randrange(3) + b'"'
    return r.randbytes(r.randrange(200))


def op_robust(L, it, dry):
    r = Pool(it['seed'])
    b = hostile(r)
    what = it['what']
    T = L.T
    ad = bytes(32) + b'\x41' + bytes(4) + bytes(16) + b'\0\1z'
    if what == 'cd':
        fn = lambda: L.P.parse_client_data(r.choice([b, b'{"type":' + b, b'{"type":"a","challenge":"b","origin":"c","x":' + b + b'}']))
    elif what == 'ad':
        fn = lambda: L.P.parse_authenticator_data(r.choice([ad + b, bytes(32) + b'\x81' + bytes(4) + b, ad + b'\xa5\x01\x02\x03' + b, bytes(32) + b'\xc1' + bytes(4) + bytes(16) + b'\0\0' + b]))
    elif what == 'ao':
        fn = lambda: L.P.parse_attestation_object(r.choice([b, b'\xa3\x63fmt' + b, b'\xa3\x63fmt\x64none\x67attStmt\xa0\x68authData' + b, b'\xa3\x63fmt\x64none\x68authData\x41\0\x67attStmt' + b]))
    elif what == 'key':
        fn = lambda: L.P.parse_cose_key(r.choice([b, b'\xa5\x01' + b, b'\xa5\x01\x02\x03' + b, b'\xa6\x01\x02\x03\x26\x04' + b]))
    elif what == 'map':
        v = cer.random_json(r, 3)
        v = v if isinstance(v, dict) else {1: v, 3: -7, 'fmt': v, 'x': v, None: v}
        fn = lambda: r.choice([L.P.parse_cose_key, L.P.parse_extensions, L.P.parse_public_key_credential] + [getattr(L.P, s) for s in STMT.values()])(dict(v))
    else:
        p = cer.Plan(r, what)
        x = r.randrange(4)
        if x == 0:
            p.cd_raw = b
        elif x == 1:
            p.ext_bytes = b
        elif x == 2:
            p.keymap = b
            p.att = True
            if what == 'reg':
                p.fmt = 'none'
        elif what == 'reg':
            p.ao_edit = lambda a: r.choice([b, a[:r.randrange(len(a))] + b])
        bd = p.build(L)
        e = lib.ceremony(L, what, bd, dry)
        return {'op': 'robust', 'in': {'what': what}, 'out': slim(e['out']), 'pure': e['pure']}
    e = event(L, 'robust', {'what': what}, fn, dry)
    e['out'] = slim(e['out'])
    return e


def slim(out):
    return {'k': 'ret'} if out['k'] == 'ret' else out


OPS = {'cer': op_cer, 'cose': op_cose, 'ext': op_ext, 'stmt': op_stmt, 'ad': op_ad, 'adplan': op_adplan, 'ao': op_ao, 'aoplan': op_aoplan, 'pkc': op_pkc, 'cd': op_cd, 'origin': op_origin,
       'keyobj': op_keyobj, 'attest': op_attest, 'names': op_names, 'names_r': op_names_r, 'b64': op_b64, 'extkeys': op_extkeys, 'json': op_json, 'robust': op_robust}


def run(L, it, dry):
    if it['op'] not in OPS:
        import hist
        import mix
        OPS.update(hist.OPS)
        OPS.update(mix.OPS)
    return OPS[it['op']](L, it, dry)
