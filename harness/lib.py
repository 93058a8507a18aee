"""The library under test, its storage stand-in and the recording of one call."""
import importlib
import os
import signal
import sys
import threading

from enc import enc

REPO = os.environ.get('WEBAUTHN_REPO', '/repo')


class Lib:
    def __init__(self):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        m = lambda n: importlib.import_module('webauthn_rp.' + n)
        self.T, self.R, self.B, self.P, self.C = m('types'), m('registrars'), m('backends'), m('parsers'), m('converters')
        self.E, self.V, self.U, self.A, self.D = m('errors'), m('verifiers'), m('utils'), m('attesters'), m('validators')
        self.BU = m('builders')


class Hang(BaseException):
    pass


tls = threading.local()         # tracer, before: set by mix.py for calls made in threads


def _alarm(*a):
    raise Hang()


def call(L, fn, limit=20):
    """Outcome of a call as the specification reads it; result encoded by the caller's choice."""
    if threading.current_thread() is not threading.main_thread():
        limit = 0
    elif getattr(tls, 'hung', 0) > 1:
        limit = 5
    tracer, before = getattr(tls, 'tracer', None), getattr(tls, 'before', None)
    if before:
        before()
    old = signal.signal(signal.SIGALRM, _alarm) if limit else None
    if limit:
        signal.alarm(limit)
    try:
        try:
            if tracer:
                sys.settrace(tracer)
            v = fn()
        finally:
            if tracer:
                sys.settrace(None)
            if limit:
                signal.alarm(0)
    except Hang:
        tls.hung = getattr(tls, 'hung', 0) + 1
        return {'k': 'hang'}, None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        return {'k': 'err', 'cls': type(e).__name__, 'lib': isinstance(e, L.E.WebAuthnRPError)}, None
    finally:
        if limit:
            signal.signal(signal.SIGALRM, old)
    got = getattr(tls, 'got', None)
    if got is not None:
        got.append(v)
    return {'k': 'ret', 'v': enc(v)}, v


def spoil(v, seen=None):
    """What a caller may do to a result it was given: change it all through."""
    import enum
    seen = set() if seen is None else seen
    if id(v) in seen or isinstance(v, (enum.Enum, type)):
        return
    seen.add(id(v))
    if isinstance(v, list):
        for x in v:
            spoil(x, seen)
        v.append('spoilt')
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x, seen)
        v['spoilt'] = 1
    elif isinstance(v, tuple):
        for x in v:
            spoil(x, seen)
    elif type(v).__module__.startswith('webauthn_rp.') and hasattr(v, '__dict__'):
        for k, x in list(vars(v).items()):
            spoil(x, seen)
            if isinstance(x, (bytes, str, int, float)) or x is None:
                try:
                    setattr(v, k, b'spoilt' if isinstance(x, bytes) else 'spoilt' if isinstance(x, str) else not x if isinstance(x, bool) else 77 if x is None else x + 1)
                except Exception:       # it does not allow that
                    pass


def change(v, r, undo, seen=None, depth=0):
    """What a caller may do to arguments of its own between two calls; undo gets what takes it back."""
    import enum
    seen = set() if seen is None else seen
    if id(v) in seen or isinstance(v, (enum.Enum, type)) or depth > 8:
        return
    seen.add(id(v))

    def other(x):
        if isinstance(x, bool):
            return not x
        if isinstance(x, enum.Enum):
            return r.choice(list(type(x)))
        if isinstance(x, int):
            return r.choice([x + 1, 0, x ^ 1])
        if isinstance(x, str):
            return r.choice([x + 'x', x[:-1], 'other'])
        if isinstance(x, bytes):
            return r.choice([x + b'x', x[:-1], bytes(len(x)), x[::-1]])
        return x
    kids, simple = [], (bool, int, str, bytes, enum.Enum)
    if isinstance(v, list):
        old = list(v)
        undo.append(lambda: v.__setitem__(slice(None), old))
        kids = old
        k = r.randrange(4)
        v[:] = [other(x) if isinstance(x, simple) else x for x in v] if k == 0 else v[::-1] if k == 1 else v[:-1] if k == 2 else v + v[:1]
    elif isinstance(v, dict):
        old = dict(v)
        undo.append(lambda: (v.clear(), v.update(old)))
        kids = list(old.values())
        for x in list(v):
            if isinstance(v[x], simple) and r.random() < .5:
                v[x] = other(v[x])
            elif r.random() < .1:
                del v[x]
    elif type(v) is set:
        old = set(v)
        undo.append(lambda: (v.clear(), v.update(old)))
        if v and r.random() < .5:
            v.pop()
    elif isinstance(v, tuple):
        kids = v
    elif type(v).__module__.startswith('webauthn_rp.') and hasattr(v, '__dict__'):
        for k, x in list(vars(v).items()):
            kids.append(x)
            if isinstance(x, simple) and r.random() < .7:
                try:
                    setattr(v, k, other(x))
                except Exception:       # it does not allow that
                    continue
                undo.append(lambda k=k, x=x: setattr(v, k, x))
    for x in kids:
        change(x, r, undo, seen, depth + 1)


def earlier(L, args, fn):
    """If asked for: the same call before, with the same objects, which then held something else."""
    r = getattr(tls, 'earlier', None)
    if r is None:
        return
    undo = []
    change(args, r, undo)
    mine, tls.got = getattr(tls, 'got', None), None
    try:
        call(L, fn)
    finally:
        tls.got = mine
        for u in reversed(undo):
            u()


class Odd(Exception):
    pass


class EqNone:
    """Equal to everything, None included."""
    __hash__ = None

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __repr__(self):
        return '<equal>'


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __repr__(self):
        return '<falsy>'


def sig_error():
    from cryptography.exceptions import InvalidSignature
    return InvalidSignature('db')


EXC = {'runtime': RuntimeError, 'value': ValueError, 'key': KeyError, 'assert': AssertionError, 'os': OSError, 'eof': EOFError, 'stop': StopIteration,
       'type': TypeError, 'attr': AttributeError, 'connection': ConnectionResetError, 'timeout': TimeoutError, 'permission': PermissionError,
       'exists': FileExistsError, 'blocking': BlockingIOError, 'interrupted': InterruptedError, 'memory': MemoryError, 'recursion': RecursionError,
       'index': IndexError, 'lookup': LookupError, 'notimpl': NotImplementedError, 'zero': ZeroDivisionError, 'name': NameError, 'warning': UserWarning,
       'custom': Odd, 'exception': Exception}
LIBEXC = {'base': 'WebAuthnRPError', 'registration': 'RegistrationError', 'parser': 'ParserError', 'unimplemented': 'UnimplementedError',
          'verification': 'VerificationError', 'count': 'SignatureCountError', 'internal': 'InternalError', 'credential': 'CredentialDataError', 'att': 'AttestationError'}


def answer(L, mode, credential=None):
    """What storage answers in a mode of GenCer."""
    E = L.E
    vals = {'none': None, 'false': False, 'zero': 0, 'true': True, 'one': 1, 'text': 'no', 'empty_text': '',
            'empty_bytes': b'', 'empty_list': [], 'empty_dict': {}, 'exception_value': ValueError('v'),
            'nan': float('nan'), 'zero_float': 0.0, 'empty_tuple': (), 'empty_set': set(), 'tuple': (None, None), 'ellipsis': ..., 'notimplemented': NotImplemented,
            'eq_none': EqNone(), 'falsy': Falsy(), 'error_class': ValueError, 'lib_error': E.RegistrationError('v'), 'none_text': 'None', 'ok_text': 'ok',
            'none_list': [None], 'credential_id': b'id' if credential is None else credential.raw_id}
    if mode in vals:
        return vals[mode]
    if mode == 'object':
        return object()
    m = mode[len('raise_'):]
    if m.startswith('lib_'):
        raise getattr(E, LIBEXC[m[4:]])('db')
    if m == 'unicode':
        raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'db')
    if m == 'sig':
        raise sig_error()
    raise EXC[m]('db')


def make_registrar(L, calls, cred, store, rsp):
    """Records every call it gets; answers as told."""
    want = enc(cred)

    class Recorder(L.R.CredentialsRegistrar):
        def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
            if getattr(tls, 'got', None) is not None:
                tls.got += [att, trusted_path]
            calls.append({'fn': 'att', 'same_cred': enc(credential) == want, 'att': enc(att), 'att_type': enc(att_type),
                          'path': enc(trusted_path), 'user': enc(user), 'rp': enc(rp)})
            return answer(L, rsp, credential)

        def register_credential_assertion(self, credential, authenticator_data, user, rp):
            if getattr(tls, 'got', None) is not None:
                tls.got.append(authenticator_data)
            calls.append({'fn': 'asr', 'same_cred': enc(credential) == want, 'ad': enc(authenticator_data),
                          'user': enc(user), 'rp': enc(rp)})
            return answer(L, rsp, credential)

        def get_credential_data(self, credential_id):
            calls.append({'fn': 'get', 'id': enc(credential_id)})
            if isinstance(store, str):
                return answer(L, store)
            return store
    return Recorder()


_shared = {}
_making = threading.Lock()


def shared_backend(L):
    """One backend per worker, serving many ceremonies; its storage passes each call to the current recorder."""
    with _making:
        if _shared:
            return _shared['backend']
        cur = threading.local()

        class Switch(L.R.CredentialsRegistrar):
            def register_credential_attestation(self, *a, **k):
                return cur.reg.register_credential_attestation(*a, **k)

            def register_credential_assertion(self, *a, **k):
                return cur.reg.register_credential_assertion(*a, **k)

            def get_credential_data(self, *a, **k):
                return cur.reg.get_credential_data(*a, **k)
        _shared.update(cur=cur, backend=L.B.CredentialsBackend(Switch()))
        return _shared['backend']


def ceremony(L, kind, b, dry=False, shared=False, twin=False):
    """Run a built ceremony and complete its event."""
    e = b['e']
    calls = []
    reg = make_registrar(L, calls, b['cred'], b['store'], b['rsp'])
    if dry:
        e.update(calls=[], out={'k': 'crash'}, pure=True, mod=[])
        return e
    args = dict(b['kw'], credential=b['cred'])
    kept = dict(args, store=None if isinstance(b['store'], str) else b['store'])
    before = {k: enc(v) for k, v in kept.items()}
    if shared:
        backend = shared_backend(L)
        _shared['cur'].reg = reg
    else:
        backend = L.B.CredentialsBackend(reg)
    fn = backend.handle_credential_attestation if kind == 'reg' else backend.handle_credential_assertion
    kept_store = [x for x in vars(b['store']).values()] if hasattr(b['store'], '__dict__') else list(b['store'].values()) if isinstance(b['store'], dict) else []
    earlier(L, list(args.values()) + kept_store, lambda: fn(**args))
    del calls[:]
    out, _ = call(L, lambda: fn(**args))
    if twin and kind == 'auth':     # the same call with the other answer to clone warnings
        other = L.B.CredentialsBackend(make_registrar(L, [], b['cred'], b['store'], b['rsp']))
        flip = dict(args, ignore_clone_error=not args.get('ignore_clone_error', False))
        e['twin'] = call(L, lambda: other.handle_credential_assertion(**flip))[0]
    mod = [k for k, v in kept.items() if before[k] != enc(v)]
    e.update(calls=calls, out=out, pure=not mod, mod=mod)
    return e
