"""What each check is made of."""
AXES = ['type', 'chal', 'origin', 'tb', 'flags', 'ext', 'rphash', 'count', 'res', 'sig', 'rsp', 'getrsp', 'u2f', 'ak', 'fmt']
ASSUMPTIONS = [
    'signatures and certificates are facts recorded where the harness made them; forging ECDSA/EdDSA signatures or SHA-256 collisions is assumed infeasible',
    'the specification leaves inputs outside its decoded fragment (CBOR tags, indefinite lengths, duplicate keys, trailing bytes after some objects) undecided: there only containment of errors is judged',
]


def cer(axes, **kw):
    return dict(axes=axes, **kw)


def data(op, n, fam=None, **kw):
    d = dict(op=op, n=n, **kw)
    if fam:
        d['fam'] = fam
    return d


BUILDER_MODELS = [dict(module='BuilderHeap', what='deep-copying builders implement persistent ones'),
                  dict(module='BuilderHeap', set={'CopyMode': '"eager"'}, what='so do builders that copy what they are given')] + [
    dict(module='BuilderHeap', set={'CopyMode': '"%s"' % m}, expect='violation', what='mutant') for m in ('shallow', 'lazy', 'inplace')]

SIZES = ('MaxSess', 'MaxGets', 'MaxCreds', 'MaxAcc')


def world(scene, sizes, deep=None, off=None):
    """Exploration of WebAuthnRP; with checks switched off the guarantees must break."""
    c = dict(Scene='"%s"' % scene, **dict(zip(SIZES, sizes)))
    d = dict(module='WebAuthnRP', what='guarantees against the attacker, ' + scene, set=c)
    if off:
        c['Off'] = '{%s}' % ', '.join('"%s"' % x for x in off.split())
        d.update(expect='violation', what='guarantees fail without the check: ' + off)
    if deep:
        d['set_thorough'] = dict(zip(SIZES, deep))
    return d


def mutants(scene, sizes, *offs):
    return [world(scene, sizes, off=o) for o in offs]


REPLAY = [world('replay', (1, 2, 1, 2), (1, 3, 1, 3)), world('replay', (2, 1, 0, 2), (2, 2, 0, 2))]
POLICY = [world('policy', (1, 1, 0, 1))]
REG = [world('reg', (1, 1, 1, 1), (2, 1, 1, 2)), world('reg', (1, 0, 2, 1), (2, 0, 1, 2))]
TAKEOVER = [world('takeover', (2, 0, 1, 2), (2, 1, 1, 2))]
R_, P_, G_, T_ = (lambda *o: mutants('replay', (2, 2, 1, 2), *o)), (lambda *o: mutants('policy', (1, 1, 0, 1), *o)), (lambda *o: mutants('reg', (1, 1, 1, 1), *o)), (lambda *o: mutants('takeover', (1, 1, 1, 1), *o))
HANDLER = [dict(module='Handler', what='calls served step by step, two at once'), dict(module='Handler', set={'Store': '"plain"'}, expect='violation', what='storage has to compare counters itself')]


def badly(*modes):
    return [dict(module='Handler', set={'Mode': '"%s"' % m}, expect='violation', what='wrong design: ' + m) for m in modes]


def laws(*fams):
    return [dict(module='Laws', set={'Fam': '"%s"' % f}, what='laws of the specification itself: ' + f) for f in fams]


LAWS = {'C01': 'b64', 'C02': 'origin', 'C03': 'opts', 'C04': 'opts', 'C05': 'opts ext', 'C07': 'count', 'C08': 'res', 'C11': 'raw', 'C13': 'kd', 'C14': 'stmt ao', 'C15': 'ad', 'C16': 'key cbor',
        'C17': 'key', 'C18': 'cd', 'C19': 'pkc', 'C20': 'stmt cbor', 'C21': 'ext', 'C23': 'json', 'C25': 'b64 names'}

MC = {
    'C10': HANDLER[:1] + badly('greedy'),
    'C11': HANDLER[:1] + badly('greedy', 'shared'),
    'C24': HANDLER + badly('shared', 'cached', 'stale'),
    'C01': REG[:1] + G_('type', 'chal') + R_('chal') + T_('type'),
    'C02': REG[:1] + G_('origin') + R_('origin'),
    'C03': REG[:1] + G_('tb') + P_('tb'),
    'C04': POLICY + G_('up', 'uv', 'rphash') + P_('up', 'uv', 'rphash'),
    'C05': POLICY + P_('ext'),
    'C06': REPLAY[:1] + R_('sig'),
    'C07': REPLAY + R_('count') + HANDLER,
    'C08': POLICY + P_('userid', 'uh', 'nouh', 'norp', 'notallowed', 'rpid rphash') + R_('uh', 'userid'),
    'C09': TAKEOVER + T_('rsp') + HANDLER[:1] + badly('early', 'truthy', 'twice'),
    'C12': REG[:1] + G_('u2f_sig'),
    'C13': REG[:1] + G_('ak_sig', 'ak_key'),
    'C14': REG[:1] + G_('fmt_unsupported'),
    'S01': REPLAY + POLICY + TAKEOVER + R_('chal', 'origin', 'sig', 'count', 'uh', 'userid') + P_('up', 'uv', 'ext', 'tb', 'rphash', 'notallowed', 'nouh', 'norp') + T_('rsp', 'type'),
    'S02': REG + TAKEOVER + G_('type', 'chal', 'origin', 'tb', 'rphash', 'up', 'uv', 'u2f_sig', 'ak_sig', 'ak_key', 'fmt_unsupported'),
}

C11_FAMS = ['cd', 'cose', 'ext', 'stmt', 'pkc', 'origin', 'keyobj']

# further calls for the checks of independence
MORE_CALLS = [data('keyobj', 1, 'keyobj', item={'sub': s}) for s in ('cose_key', 'cose_roundtrip', 'verify', 'validate')] + [data('json', 1), data('names_r', 1, vary={'sub': ['camel', 'snake']}),
              data('b64', 1, vary={'sub': ['b64enc', 'b64dec']}), data('pkc', 1, 'pkc', item={'round': True})]

PLANS = {
    'C01': dict(cer=cer(['type', 'chal'], singles=3200, merges=300, valid=200, pairs=3000, triples=800)),
    'C02': dict(cer=cer(['origin'], singles=2826, merges=250, valid=200, pairs=3500, triples=800), data=[data('origin', 1280, 'origin')]),
    'C03': dict(cer=cer(['tb'], singles=500, merges=300, valid=200, fuzz=['x_cd'], fuzzed=150, pairs=4000, triples=1000), need=['cd']),
    'C04': dict(cer=cer(['flags', 'rphash'], singles=1100, merges=300, valid=200, pairs=5000, triples=1000)),
    'C05': dict(cer=cer(['ext'], singles=3000, merges=250, valid=200, pairs=3000, triples=800), data=[data('extkeys', 1)]),
    'C06': dict(cer=cer(['sig'], kinds=('auth',), singles=500, merges=300, valid=400, pairs=3500, triples=1000), data=[data('keyobj', 1800, 'keyobj', item={'sub': 'verify'})]),
    'C07': dict(cer=cer(['count'], kinds=('auth',), twin=True, singles=700, merges=300, valid=400, pairs=4000, triples=1000)),
    'C08': dict(cer=cer(['res'], kinds=('auth',), singles=1008, merges=300, valid=200, pairs=4500, triples=1000)),
    'C09': dict(cer=cer(['rsp', 'getrsp'], singles=300, merges=400, valid=600, pairs=3500, triples=1000)),
    'C10': dict(cer=cer([], valid=5000, huge=16)),
    'C11': dict(cer=cer(AXES, singles=200, merges=200, valid=100, fuzz=['x_cd', 'x_cdraw', 'x_key', 'x_ext', 'x_stmt', 'x_ad', 'x_ao'], fuzzed=90), need=['cd', 'cose', 'ext', 'stmt'],
                data=[data('robust', 1600, vary={'what': ['cd', 'ad', 'ao', 'key', 'map', 'reg', 'auth']}), data('cose', 300, 'cose', item={'form': 'bytes', 'mangle': True}),
                      data('ext', 200, 'ext'), data('stmt', 200, 'stmt'), data('cd', 200, 'cd', item={'mangle': True}), data('pkc', 200, 'pkc'), data('origin', 200, 'origin'),
                      data('adplan', 200, item={'kind': 'reg', 'mangle': True}), data('aoplan', 200, item={'mangle': True}), data('keyobj', 100, 'keyobj', item={'sub': 'crypto_key'})]),
    'C12': dict(cer=cer(['u2f'], kinds=('reg',), singles=600, merges=200, valid=200, huge=6, also_attest=True, pairs=2500, triples=600)),
    'C13': dict(cer=cer(['ak'], kinds=('reg',), singles=960, merges=200, valid=200, huge=6, also_attest=True, pairs=3000, triples=600)),
    'C14': dict(cer=cer(['fmt'], kinds=('reg',), singles=300, merges=300, valid=300, also_attest=True, pairs=600, triples=200, fuzz=['x_stmt'], fuzzed=400), need=['stmt']),
    'C15': dict(cer=cer(['flags'], singles=100, merges=100, valid=150, fuzz=['x_ad'], fuzzed=200),
                data=[data('ad', 3001, 'ad'), data('ad', 400, 'ad', item={'mangle': True}), data('adplan', 600, vary={'kind': ['reg', 'auth'], 'mangle': [False, False, True]}), data('adplan', 16, item={'kind': 'reg', 'huge': True}, vary={'mangle': [False, False, True]})]),
    'C16': dict(cer=cer([], valid=100, fuzz=['x_key'], fuzzed=250), need=['cose'],
                data=[data('cose', 9000, 'cose', vary={'form': ['map', 'map', 'bytes']}), data('cose', 500, 'cose', item={'form': 'bytes', 'mangle': True}), data('keyobj', 600, 'keyobj', item={'sub': 'validate'})]),
    'C17': dict(data=[data('keyobj', 2304, 'keyobj', item={'sub': 'cose_key'}), data('keyobj', 2304, 'keyobj', item={'sub': 'cose_roundtrip'}), data('keyobj', 1500, 'keyobj', item={'sub': 'crypto_key'})]),
    'C18': dict(cer=cer([], valid=100, fuzz=['x_cd', 'x_cdraw'], fuzzed=150), need=['cd'], data=[data('cd', 3000, 'cd', fill=True), data('cd', 1200, 'cd', fill=True, item={'mangle': True})]),
    'C19': dict(data=[data('pkc', 3000, 'pkc', fill=True), data('pkc', 2000, 'pkc', fill=True, item={'round': True})]),
    'C20': dict(cer=cer([], kinds=('reg',), valid=100, fuzz=['x_stmt', 'x_ao'], fuzzed=150), need=['stmt'],
                data=[data('stmt', 7000, 'stmt'), data('ao', 2500, 'ao'), data('ao', 400, 'ao', item={'mangle': True}), data('aoplan', 300, vary={'mangle': [False, True]})]),
    'C21': dict(cer=cer([], valid=100, fuzz=['x_ext'], fuzzed=250), need=['ext'], data=[data('ext', 9000, 'ext', fill=True)]),
    'C22': dict(mc=BUILDER_MODELS, extra=['builders']),
    'C23': dict(data=[data('json', 912, 'json'), data('json', 2500)]),
    'C24': dict(cer=cer([], valid=600), need=C11_FAMS + ['json'], extra=['mix']),
    'C25': dict(data=[data('names', 3906, 'names', item={'sub': 'camel'}), data('names', 3906, 'names', item={'sub': 'snake'}), data('names_r', 1500, vary={'sub': ['camel', 'snake']}),
                      data('b64', 1576, 'b64', item={'sub': 'b64enc'}), data('b64', 1576, 'b64', item={'sub': 'b64dec'}), data('b64', 1500, vary={'sub': ['b64enc', 'b64dec', 'b64dec'], 'mangle': [False, True]}),
                      data('extkeys', 1)]),
    'S01': dict(cer=cer(AXES, kinds=('auth',), singles=800, merges=400, valid=300, pairs=4000, triples=1500)),
    'S02': dict(cer=cer(AXES, kinds=('reg',), singles=800, merges=400, valid=300, pairs=4000, triples=1500)),
}
# arguments that nearly agree: which, and how many ceremonies
NEAR = {
    'C01': (1500, ['n_chal', 'n_chal', 'n_type']),
    'C02': (1500, ['n_origin']),
    'C03': (1200, ['n_tb']),
    'C04': (1200, ['n_rphash']),
    'C06': (800, ['n_sig']),
    'C07': (1000, ['n_count']),
    'C08': (1600, ['n_uh', 'n_user', 'n_allow', 'n_rp']),
    'C12': (400, ['n_u2f']),
    'C13': (500, ['n_ak']),
    'S01': (1500, ['n_chal', 'n_type', 'n_origin', 'n_tb', 'n_rphash', 'n_count', 'n_uh', 'n_user', 'n_allow', 'n_rp', 'n_sig']),
    'S02': (1000, ['n_chal', 'n_type', 'n_origin', 'n_tb', 'n_rphash', 'n_u2f', 'n_ak']),
    'C10': (600, ['n_chal', 'n_origin', 'n_tb', 'n_rphash', 'n_count', 'n_uh', 'n_user', 'n_allow', 'n_rp']),
}
for _p, (_n, _l) in NEAR.items():
    PLANS[_p]['cer'].update(near=_l, nears=_n)
for _p, _l in MC.items():
    PLANS[_p]['mc'] = _l
for _p, _f in LAWS.items():
    PLANS[_p]['mc'] = PLANS[_p].get('mc', []) + laws(*_f.split())
PLANS['C11']['mc'].append(dict(laws('rawdeep')[0], only='thorough'))
for _p in ('C01', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C24', 'S01', 'S02'):
    PLANS[_p]['extra'] = PLANS[_p].get('extra', []) + ['protocol']
