"""Histories: sequences of calls drawn by the specification, replayed on the library."""
import base64
import copy
import hashlib
import json

import cborx
import cer
import crypto
import der
import lib
from crypto import KD
from enc import enc, public_attrs
from ops import option_makers
from pool import Pool

HANDLES = ['rp', 'rp', 'pub_key_cred_params', 'pub_key_cred_params', 'timeout', 'timeout', 'authenticator_selection', 'authenticator_selection', 'extensions', 'extensions',
           'attestation', 'attestation', 'exclude_credentials', 'exclude_credentials', 'mediation', 'mediation', 'rp_id', 'rp_id', 'user_verification', 'user_verification',
           'user', 'user', 'challenge', 'challenge']
FIELDS = {'create': ['rp', 'user', 'challenge', 'pub_key_cred_params', 'timeout', 'authenticator_selection', 'extensions', 'attestation', 'exclude_credentials'],
          'request': ['mediation', 'challenge', 'timeout', 'rp_id', 'extensions', 'allow_credentials', 'user_verification']}


class Interner:
    """Contents as numbers; 0..3 are none and the defaults."""
    def __init__(self, L):
        T = L.T
        self.n = {}
        for v in (None, T.AttestationConveyancePreference.NONE, T.CredentialMediationRequirement.OPTIONAL, T.UserVerificationRequirement.PREFERRED):
            self(v)

    def __call__(self, v):
        return self.n.setdefault(repr(enc(v)), len(self.n))


def places(v, depth=0):
    """Mutable objects below v."""
    if depth > 6:
        return
    if isinstance(v, (list, dict)):
        yield v
    if type(v).__module__ == 'webauthn_rp.types' and hasattr(v, '__dict__') and not hasattr(type(v), '__members__'):
        yield v
        for x in public_attrs(v).values():
            yield from places(x, depth + 1)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from places(x, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            yield from places(x, depth + 1)


def mutate(r, v):
    """Change v in place somewhere; False if nothing below it can change."""
    for _ in range(8):
        p = list(places(v))
        if not p:
            return False
        o = r.choice(p)
        if isinstance(o, list):
            k = r.randrange(4)
            if k == 0 and o:
                o.pop(r.randrange(len(o)))
            elif k == 1 and o:
                o[r.randrange(len(o))] = r.text() + str(r.random())
            elif k == 2 and o:
                o.clear()
            else:
                o.insert(r.randrange(len(o) + 1), r.text() + str(r.random()))
            return True
        if isinstance(o, dict):
            o[r.text()] = r.random()
            return True
        at = sorted(public_attrs(o))
        if at:
            try:
                setattr(o, r.choice(at), r.choice([r.text() + str(r.random()), r.randbytes(6), None, r.u32()]))
            except Exception:
                continue
            return True
    return False


def make_handle(L, r, m, ty):
    T = L.T
    mk = {'pub_key_cred_params': lambda: r.choice([list, list, tuple])(m['pars']()), 'timeout': lambda: r.choice([0, 1, 60000, r.u32(), r.u32()]), 'authenticator_selection': m['sel'], 'extensions': m['exts'],
          'attestation': lambda: r.choice(list(T.AttestationConveyancePreference)), 'exclude_credentials': m['descs'], 'mediation': lambda: r.choice(list(T.CredentialMediationRequirement)),
          'rp_id': r.text, 'user_verification': lambda: r.choice(list(T.UserVerificationRequirement)), 'challenge': r.blob, 'rp': m['rp'], 'user': m['user']}
    return mk[ty]()


def args(x):
    return [{'a': a, 'h': h} for a, h in (x.items() if isinstance(x, dict) else [])]


def failed(e):
    return {'k': 'err', 'cls': type(e).__name__}


def op_builders(L, it, dry):
    r = Pool(it['seed'])
    B, m = L.BU, option_makers(L, r)
    intern = Interner(L)
    log, hands, bl, rs = [], [], [], []
    for ty in HANDLES:
        h = make_handle(L, r, m, ty)
        hands.append(h)
        log.append({'act': 'handle', 'c': intern(h)})
    H = lambda h: None if h == 0 else hands[h - 1]

    def seen(kind, o):
        pk = getattr(o, 'public_key', None)
        return [{'a': a, 'c': intern(getattr(o if a == 'mediation' else pk, a, '(gone)'))} for a in FIELDS[kind]]

    def step(s):
        act = s['act']
        if act == 'new':
            a = args(s['args'])
            e = {'act': 'new', 'kind': s['kind'], 'args': a}
            log.append(e)
            cls = B.CredentialCreationOptionsBuilder if s['kind'] == 'create' else B.CredentialRequestOptionsBuilder
            try:
                bl.append((s['kind'], cls(**{x['a']: H(x['h']) for x in a})))
                e['out'] = {'k': 'ok'}
            except Exception as x:
                e['out'] = failed(x)
                return False
        elif act == 'set':
            kind, b = bl[s['b'] - 1]
            e = {'act': 'set', 'b': s['b'], 'a': s['a'], 'h': s['h'], 'same': False, 'cls': ''}
            log.append(e)
            try:
                n = getattr(b, s['a'])(H(s['h']))
            except Exception as x:
                e['out'] = failed(x)
                return False
            e.update(out={'k': 'ok'}, same=any(n is x for _, x in bl), cls=type(n).__name__)
            if not hasattr(n, 'build'):
                return False
            bl.append((kind, n))
        elif act == 'build':
            kind, b = bl[s['b'] - 1]
            x = args(s['extra'])
            if kind == 'request' and r.chance(.5):      # left out rather than none
                x = [y for y in x if y['h']]
            e = {'act': 'build', 'b': s['b'], 'extra': x, 'shape': '', 'seen': []}
            log.append(e)
            try:
                o = b.build(**{y['a']: H(y['h']) for y in x})
            except Exception as y:
                e['out'] = failed(y)
                rs.append(None)
                return True
            e.update(out={'k': 'ok'}, shape=type(o).__name__ + '/' + type(getattr(o, 'public_key', None)).__name__, seen=seen(kind, o))
            rs.append((kind, o))
        elif act == 'mut':
            h = hands[s['h'] - 1]
            if mutate(r, h):
                log.append({'act': 'mut', 'h': s['h'], 'c': intern(h)})
        elif act == 'mutres':
            if rs[s['r'] - 1]:
                kind, o = rs[s['r'] - 1]
                v = getattr(o if s['a'] == 'mediation' else o.public_key, s['a'], None)
                if mutate(r, v):
                    log.append({'act': 'mutres', 'r': s['r'], 'a': s['a'], 'c': intern(v)})
        elif act == 'look':
            if rs[s['r'] - 1]:
                log.append({'act': 'look', 'r': s['r'], 'seen': seen(*rs[s['r'] - 1])})
        return True

    if not dry:
        steps = list(it['steps'])
        while steps and step(steps.pop(0)):
            pass
        else:
            if not steps:       # finally, everything once more
                for k in range(len(bl)):
                    x = {'user': r.choice([21, 22]), 'challenge': r.choice([23, 24])} if bl[k][0] == 'create' else {'challenge': r.choice([23, 24]), 'allow_credentials': r.choice([0, 13, 14])}
                    step({'act': 'build', 'b': k + 1, 'extra': x})
                for k in range(len(rs)):
                    step({'act': 'look', 'r': k + 1})
    return {'op': 'builders', 'steps': log, 'out': {'k': 'ret'}}


# ---- histories of Protocol ----
HONEST_ATT, ATTACK_ATT = 80, 92


class World:
    """What the symbols of Protocol stand for in one history; the same symbol, the same bytes."""
    def __init__(self, L, r):
        self.L, self.r, self.memo = L, r, {}
        self.facts = crypto.Facts()
        near = r.chance(.5)         # values that a sloppy comparison would mix up
        self.near = near
        base = r.randbytes(r.choice([16, 16, 32, 64]))
        self.base = base
        h = r.choice(['a.example', 'localhost', 'h%d.example' % r.randrange(99)])
        p = r.choice([None, 443, 8443])
        po = lambda q: '' if q is None else ':%d' % q
        one = ('https', h, p)
        two = r.choice([('https', 'login.' + h, p), ('https', h, 8444), ('http', h, 8080), ('https', h + 'x', p)])
        thr = r.choice([('https', h + '.evil.test', p), ('https', 'evil.test', p), ('http', h, p), ('https', 'evil' + h, p), ('https', h, 4430)])
        self.org = {k: [s + '://' + n + po(q)] + ([s + '://' + n + po({None: 443, 443: None}[q])] if s == 'https' and q in (None, 443) else [])
                    for k, (s, n, q) in ((1, one), (2, two), (3, thr))}
        self.rps = {1: h, 2: r.choice(['login.' + h, h + '.', h.upper(), h + 'x']), 3: r.choice(['evil.test', 'evil' + h, h[:-1]])}
        u = r.randbytes(r.choice([1, 16, 32, 63]))
        self.users = {1: u, 2: u + b'\0' if near else r.randbytes(16), 3: u[:-1] + bytes([u[-1] ^ 1])}
        self.names = {k: r.choice(['n', 'n', 'user %d' % k]) for k in (1, 2, 3)}
        c, n = [], 0 if r.chance(.8) else r.randrange(5)
        step = r.choice([[1], [1, 1, 2, 3], [1, 255, 256, 257], [1, 2**24, 2**16], [2**25, 1, 2**24 - 1]])
        while len(c) < 120:
            c.append(n)
            n += r.choice(step)
        if r.chance(.5):            # around the sign bit or at the very end
            off = min(2**32 - 1 - c[-1], 2**31 - c[r.choice([2, 4, 6])] if r.chance(.6) and c[6] < 2**31 else 2**32 - 1 - c[-1])
            c = [c[0]] + [x + off for x in c[1:]] if off > 0 else c
        self.counts, self.uncount = c, {x: k for k, x in enumerate(c)}
        self.trusting = r.chance(.5)
        self.wire, self.read = r.chance(.5), {}     # do options and credentials travel as JSON?  what the client read there
        self.tb = {1: 'id', 2: r.choice(['ID', 'id ', 'idx', '', 'i']), 3: None}

    def once(self, kind, sym, make):
        k = kind + ' ' + json.dumps(sym, sort_keys=True)
        if k not in self.memo:
            self.memo[k] = make()
        return self.memo[k]

    def chal(self, n):
        b = self.base
        if not self.near:
            return self.once('chal', n, lambda: self.r.randbytes(self.r.choice([16, 32, 33])))
        return self.once('chal', n, lambda: {0: lambda: b + b, 1: lambda: b, 2: lambda: b + b'\0', 3: lambda: b[:-1] + bytes([b[-1] ^ 1]), 4: lambda: bytes([b[0] ^ 1]) + b[1:],
                                             5: lambda: b[:-1]}.get(n, lambda: b + bytes([n]) * n)())

    def cid(self, n):
        b = self.base[:8]
        return self.once('cid', n, lambda: (b + bytes([n]) if n % 2 else bytes([n]) + b) if self.near else self.r.randbytes(self.r.choice([1, 16, 64, 255, 300])) + bytes([n]))

    def key(self, k):
        """(key, algorithm)"""
        def make():
            r = self.r
            pairs = [p for p in cer.PAIRS if (p[0] != 'P_256') == (k % 3 == 0)]
            if k in (HONEST_ATT, ATTACK_ATT):
                pairs = [('P_256', 'ES256')]
            crv, alg = r.choice(pairs if k % 3 == 0 else [('P_256', 'ES256')] * 4 + pairs)
            for _ in range(50):
                key = cer.pooled_key(r, crv, 24)
                if all(x[0] is not key for n, x in self.memo.items() if n.startswith('key ')):
                    return key, alg
            return crypto.Key.make(r, crv), alg
        return self.once('key', k, make)

    def unkey(self, o):
        x, n = getattr(o, 'x', None), getattr(getattr(o, 'crv', None), 'name', None)
        for k, v in self.memo.items():
            if k.startswith('key ') and v[0].x == x and v[0].crv == n and (crypto.is_ed(v[0].crv) or v[0].y == getattr(o, 'y', None)):
                return int(k[4:])
        return -2

    def back(self, kind, v):
        for k, x in self.memo.items():
            if k.startswith(kind + ' ') and x == v:
                return int(k[len(kind) + 1:])
        return -2

    def cd(self, c):
        def make():
            r = self.r
            m = [('type', 'webauthn.' + c['type']), ('challenge', cer.b64u(self.read.get(('chal', c['chal']), self.chal(c['chal'])), r.chance(.1))), ('origin', r.choice(self.org[c['org']]))]
            if c['tb']:
                m.append(('tokenBinding', cer.Members([('status', 'supported')] if c['tb'] == 3 else [('status', 'present'), ('id', self.tb[c['tb']])])))
            if r.chance(.3):
                m.append(r.choice([('crossOrigin', False), ('extra', cer.random_json(r, 1)), ('tokenbinding', {'status': 'present', 'id': 'id'})]))
            r.shuffle(m)
            return cer.jtext(cer.Members(m), r, r.choice([0, 0, 1])).encode('utf-8', 'surrogatepass')
        return self.once('cd', c, make)

    def ad(self, a):
        def make():
            r = self.r
            fl = (1 if a['up'] else 0) | (4 if a['uv'] else 0) | r.choice([0, 0, 0, 2, 8, 16, 32])
            att = ext = b''
            if a['att']:
                fl |= 64
                cid, (key, alg) = self.cid(a['att'][0]), self.key(a['att'][1])
                att = r.randbytes(16) + len(cid).to_bytes(2, 'big') + cid + cborx.enc(cer.cose_pairs(r, key, alg))
            if a['ext'] or r.chance(.2):
                fl |= 128
                ext = cborx.enc(cer.ext_map(r, (['uvi'] if a['ext'] else []) + r.choice([[], [], ['loc'], ['exts', 'appid']]), r.chance(.3)))
            return hashlib.sha256(self.rps[a['rp']].encode()).digest() + bytes([fl]) + self.counts[a['cnt']].to_bytes(4, 'big') + att + ext
        return self.once('ad', a, make)

    def sig(self, s):
        def make():
            r = self.r
            if s['tag'] == 'junk':
                return r.choice([b'', r.randbytes(64), r.randbytes(70), bytes.fromhex('3006020101020101')])
            key, alg = self.key(s['key'])
            cdh = hashlib.sha256(self.cd(s['cd'])).digest()
            if s['tag'] == 'ad':
                return key.sign(alg, self.ad(s['ad']) + cdh)
            a = s['ad']
            k = self.key(a['att'][1])[0]
            return key.sign('ES256', b'\0' + hashlib.sha256(self.rps[a['rp']].encode()).digest() + cdh + self.cid(a['att'][0]) + b'\4' + k.x + k.y)
        return self.once('sig', s, make)

    def cert(self, akey, kd):
        def make():
            r = self.r
            ext = None
            if kd is not None:
                d = KD(hashlib.sha256(self.cd(kd)).digest())
                d.tee = {702: der.integer(0), 1: der.setof(der.integer(2))}
                ext = d.der()
            return crypto.certificate(self.facts, r, self.key(akey)[0], ext, extras=r.chance(.5))
        return self.once('cert', [akey, kd], make)

    def statement(self, m):
        r, f = self.r, m['fmt']
        if f == 'none':
            return 'none', {}
        sig = self.sig(m['sig'])
        if f == 'u2f':
            return 'fido-u2f', {'sig': sig, 'x5c': [self.cert(m['akey'], None)]}
        if f == 'ak':
            return 'android-key', {'alg': crypto.ALGN[self.key(m['akey'])[1]], 'sig': sig, 'x5c': [self.cert(m['akey'], m['kd'])]}
        return 'packed', r.choice([{'alg': -7, 'sig': sig}, {'alg': -7, 'sig': sig, 'x5c': [self.cert(ATTACK_ATT, None)]}])

    def rp_entity(self, n):
        return self.L.T.PublicKeyCredentialRpEntity(name=self.r.choice(['rp', 'RP']), id=self.rps[n])

    def user_entity(self, n):
        return self.L.T.PublicKeyCredentialUserEntity(name=self.names[n], id=self.users[n], display_name=self.names[n])

    def credential(self, s, m):
        """The message of a submission, as the library is handed it."""
        def make():
            T, r = self.L.T, self.r
            cd, ad = self.cd(m['cd']), self.ad(m['ad'])
            if s['kind'] == 'reg':
                fmt, stmt = self.statement(m)
                parts = [('fmt', fmt), ('attStmt', stmt), ('authData', ad)]
                r.shuffle(parts)
                rid = self.cid(m['ad']['att'][0])
                rsp = T.AuthenticatorAttestationResponse(client_data_JSON=cd, attestation_object=cborx.enc(cborx.Pairs(parts)))
            else:
                rid = self.read.get(('cid', m['cid']), self.cid(m['cid']))
                rsp = T.AuthenticatorAssertionResponse(client_data_JSON=cd, authenticator_data=ad, signature=self.sig(m['sig']),
                                                       user_handle=None if m['uh'] == 0 else self.read.get(('user', m['uh']), self.users[m['uh']]))
            # nothing depends on the text form of the id
            known = rid != self.cid(99)
            text = cer.b64u(rid if r.chance(.75 if known else .2) else self.cid(r.choice([10, 10, 11, 12, 99])))
            return T.PublicKeyCredential(id=text, type='public-key', raw_id=rid, response=rsp)
        return self.once('cred', m, make) if self.r.chance(.5) else make()

    def issue(self, n, s):
        """The options of a session as the client reads them."""
        if not self.wire:
            return
        L, T, r = self.L, self.L.T, self.r
        m = option_makers(L, r)
        opt = lambda **kw: {k: f() for k, f in kw.items() if r.chance(.4)}
        unb = lambda t: base64.b64decode(t, validate=True)
        try:
            if s['kind'] == 'reg':
                b = L.BU.CredentialCreationOptionsBuilder(**opt(timeout=r.u32, authenticator_selection=m['sel'], extensions=m['exts'], attestation=lambda: r.choice(list(T.AttestationConveyancePreference)),
                                                                exclude_credentials=m['descs']), rp=self.rp_entity(s['rp']), pub_key_cred_params=m['pars']())
                if r.chance(.4):
                    b = b.timeout(r.u32()).rp(self.rp_entity(s['rp']))
                j = json.loads(json.dumps(L.C.jsonify(b.build(user=self.user_entity(s['user']), challenge=self.chal(n)))))['publicKey']
                self.read['user', s['user']] = unb(j['user']['id'])
            else:
                b = L.BU.CredentialRequestOptionsBuilder(**opt(timeout=r.u32, extensions=m['exts'], user_verification=lambda: r.choice(list(T.UserVerificationRequirement)),
                                                               mediation=lambda: r.choice(list(T.CredentialMediationRequirement)), rp_id=lambda: self.rps[s['rp']]))
                if r.chance(.4):
                    b = b.timeout(r.u32()).rp_id(self.rps[s['rp']])
                a = {'allow_credentials': self.allowed(s)} if s['allow'] else {}
                j = json.loads(json.dumps(L.C.jsonify(b.build(challenge=self.chal(n), **a))))['publicKey']
                for c, d in zip(s['allow'] or [], j.get('allowCredentials', [])):
                    self.read['cid', c] = unb(d['id'])
            self.read['chal', n] = unb(j['challenge'])
        except Exception:
            self.read['chal', n] = b'(no options)'

    def allowed(self, s):
        T = self.L.T
        return [T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=self.cid(c)) for c in s['allow']]

    def received(self, c):
        """The credential as the server reads it."""
        if not self.wire:
            return c
        x, e = c.response, lambda v: base64.b64encode(v).decode()
        d = {'clientDataJSON': e(x.client_data_JSON)}
        if hasattr(x, 'attestation_object'):
            d['attestationObject'] = e(x.attestation_object)
        else:
            d.update(authenticatorData=e(x.authenticator_data), signature=e(x.signature))
            if x.user_handle is not None:
                d['userHandle'] = e(x.user_handle)
        return self.L.P.parse_public_key_credential(json.loads(json.dumps({'id': c.id, 'type': c.type, 'rawId': e(c.raw_id), 'response': d})))

    def expectations(self, n, s):
        T, r = self.L.T, self.r
        orgs = [r.choice(self.org[o]) for o in s['orgs']]
        kw = dict(expected_challenge=self.chal(n), expected_origin=orgs[0] if len(orgs) == 1 and r.chance(.5) else r.choice([list, tuple, set])(orgs))
        if s['tb']:
            kw['token_binding'] = T.TokenBinding(status=T.TokenBindingStatus.SUPPORTED if s['tb'] == 3 else T.TokenBindingStatus.PRESENT, id=self.tb[s['tb']])
        if s['uv'] or r.chance(.5):
            kw['require_user_verification'] = s['uv']
        if s['ext']:
            kw['expected_extensions'] = {T.ExtensionIdentifier.UVI}
        elif r.chance(.3):
            kw['expected_extensions'] = r.choice([None, set()])
        if s['kind'] == 'reg':
            kw.update(user=self.user_entity(s['user']), rp=self.rp_entity(s['rp']))
        else:
            if s['user']:
                kw['user'] = self.user_entity(s['user'])
            if s['given']:
                kw['rp'] = self.rp_entity(s['rp'])
            if s['allow']:
                kw['allow_credentials'] = self.allowed(s)
            if s['ign'] or r.chance(.4):
                kw['ignore_clone_error'] = s['ign']
        return kw


class Storage:
    """The application's storage of Protocol."""
    def __init__(self, w):
        self.w, self.rows, self.calls, self.s = w, {}, 0, None

    def fork(self):
        o = Storage(self.w)
        o.rows, o.s = copy.deepcopy(self.rows), self.s
        return o

    def registrar(self):
        st, w, L = self, self.w, self.w.L

        class Rows(L.R.CredentialsRegistrar):
            def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
                st.calls += 1
                a = att.auth_data.attested_credential_data
                cid = bytes(a.credential_id)
                if cid in st.rows:
                    return 'taken'
                st.rows[cid] = {'key': copy.deepcopy(a.credential_public_key), 'cnt': att.auth_data.sign_count if st.s['count'] else None, 'user': user, 'rp': rp if st.s['keep'] else None}

            def register_credential_assertion(self, credential, authenticator_data, user, rp):
                st.calls += 1
                row = st.rows.get(bytes(credential.raw_id))
                if row is None:             # a trusting storage has nothing to say to that
                    return None if w.trusting else 'unknown'
                row['cnt'] = authenticator_data.sign_count

            def get_credential_data(self, credential_id):
                row = st.rows.get(bytes(credential_id))
                if row is not None:
                    return L.R.CredentialData(row['key'], row['cnt'], row['user'], row['rp'])
        return Rows()

    def snapshot(self):
        w = self.w
        inv = lambda d, v: next((k for k, x in d.items() if x == v), -2)
        return [{'cid': w.back('cid', c), 'key': w.unkey(x['key']), 'cnt': -1 if x['cnt'] is None else w.uncount.get(x['cnt'], -2),
                 'user': inv(w.users, getattr(x['user'], 'id', None)), 'rp': 0 if x['rp'] is None else inv(w.rps, getattr(x['rp'], 'id', None))} for c, x in self.rows.items()]


def op_protocol(L, it, dry):
    r = Pool(it['seed'])
    w = World(L, r)
    for n in range(0, 12):
        w.chal(n)
    store = Storage(w)
    backend = L.B.CredentialsBackend(store.registrar())
    log, sess = [], []
    for s in [] if dry else it['steps']:
        e = dict(s)
        log.append(e)
        if s['act'] == 'sess':
            sess.append(s['s'])
            w.issue(len(sess), s['s'])
        elif s['act'] == 'submit':
            q, m = sess[s['n'] - 1], s['m']
            store.s, store.calls = q, 0
            cred, kw = w.credential(q, m), w.expectations(s['n'], q)
            fn = backend.handle_credential_attestation if q['kind'] == 'reg' else backend.handle_credential_assertion
            other = store.fork()        # a backend without a past
            out, _ = lib.call(L, lambda: fn(credential=w.received(cred), **kw))
            fresh = L.B.CredentialsBackend(other.registrar())
            fn = fresh.handle_credential_attestation if q['kind'] == 'reg' else fresh.handle_credential_assertion
            again, _ = lib.call(L, lambda: fn(credential=w.received(cred), **kw))
            short = lambda o: {'k': 'ok' if o['k'] == 'ret' else o['k'], 'cls': o.get('cls', ''), 'lib': o.get('lib', False)}
            e.update(out=short(out), calls=store.calls, store=store.snapshot(), fresh={'out': short(again), 'calls': other.calls, 'store': other.snapshot()})
    return {'op': 'protocol', 'steps': log, 'out': {'k': 'ret'}}


OPS = {'builders': op_builders, 'protocol': op_protocol}
