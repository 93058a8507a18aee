"""Several calls together: alone in a fresh process, in sequences, and in threads whose
interleaving follows a behaviour of the specification.  Only what came out is recorded."""
import hashlib
import json
import os
import random
import sys
import threading

import crypto
import lib


class Sched:
    """Lets one thread run at a time; they change places at lines of the library, as told."""
    def __init__(self, order, totals, rng):
        # order: handlers as they take steps; a handler's j-th of m steps ends after j/m of its lines
        self.order, self.pos = order, 0
        self.quota = {}
        steps = {h: order.count(h) for h in set(order)}
        seen = {h: 0 for h in steps}
        self.limits = []
        for h in order:
            seen[h] += 1
            j = seen[h]
            self.limits.append(10**9 if j == steps[h] else max(1, int(totals[h] * (j - rng.random()) / steps[h])))
        self.done, self.count = set(), {h: 0 for h in steps}
        self.cv = threading.Condition()
        self.free = False

    def turn(self):
        while self.pos < len(self.order) and self.order[self.pos] in self.done:
            self.pos += 1
        return self.order[self.pos] if self.pos < len(self.order) else None

    def wait(self, h):
        with self.cv:
            while not self.free and self.turn() not in (h, None):
                if not self.cv.wait(1.0):
                    self.free = True        # somebody is blocked: let everybody go
                    self.cv.notify_all()

    def line(self, h):
        self.count[h] += 1
        if self.free:
            return
        with self.cv:
            moved = False
            while self.turn() == h and self.count[h] >= self.limits[self.pos]:
                self.pos += 1
                moved = True
            if moved:
                self.cv.notify_all()
        if moved:
            self.wait(h)

    def end(self, h):
        with self.cv:
            self.done.add(h)
            self.cv.notify_all()

    def tracer(self, h):
        def local(frame, what, arg):
            if what == 'line':
                self.line(h)
            return local

        def start(frame, what, arg):
            f = frame.f_code.co_filename
            return local if '/webauthn_rp/' in f else None
        return start


class Counter:
    def __init__(self):
        self.n = 0

    def tracer(self):
        def local(frame, what, arg):
            if what == 'line':
                self.n += 1
            return local
        return lambda frame, what, arg: local if '/webauthn_rp/' in frame.f_code.co_filename else None


def short(e):
    """What came out of a call, as a word."""
    o = e['out']
    s = json.dumps([o, e.get('calls'), e.get('pure'), e.get('serial')], sort_keys=True)
    return '%s %s' % (o.get('cls', o['k']), hashlib.sha256(s.encode()).hexdigest()[:20])


def one(L, it):
    import ops
    return short(ops.run(L, it, False))


def in_sequence(L, subs, order, again=(), reuse=()):
    """The calls one after the other, some twice; results are changed by who got them before the next call.
    Some are made before with the same argument objects, which then have other contents."""
    out = []
    for j, k in enumerate(order):
        lib.tls.earlier = random.Random('%d %d' % (j, k)) if j in reuse else None
        for _ in range(2 if j in again else 1):
            lib.tls.got = []
            try:
                out.append([k, one(L, subs[k])])
                for v in lib.tls.got:
                    lib.spoil(v)
            finally:
                lib.tls.got = None
    lib.tls.earlier = None
    return out


def counted(L, it):
    c = Counter()
    lib.tls.tracer = c.tracer()
    try:
        one(L, it)
    finally:
        lib.tls.tracer = None
    return max(c.n, 1)


def in_threads(L, subs, who, order, seed):
    """Handler h runs call who[h-1]."""
    hs = list(range(1, len(who) + 1))
    order = [h for h in order if h in hs] + hs
    totals = {h: counted(L, subs[who[h - 1]]) for h in hs}
    s = Sched(order, totals, random.Random(seed))
    out = {}

    def work(h):
        lib.tls.tracer = s.tracer(h)
        lib.tls.before = lambda: s.wait(h)
        try:
            out[h] = one(L, subs[who[h - 1]])
        except BaseException as x:
            out[h] = 'harness %r' % x
        finally:
            s.end(h)
    ts = [threading.Thread(target=work, args=(h,), daemon=True) for h in hs]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    return [[who[h - 1], out.get(h, 'hang')] for h in hs]


def at_random(L, subs, who):
    """Free threads with the shortest switch interval."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    out = []
    go = threading.Barrier(len(who))

    def work(k):
        go.wait()
        try:
            out.append([k, one(L, subs[k])])
        except BaseException as x:
            out.append([k, 'harness %r' % x])
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in who]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    sys.setswitchinterval(old)
    return out if len(out) == len(who) else out + [[k, 'hang'] for k in who if k not in [x[0] for x in out]]


def apart(fn):
    """fn() in a child process that has not called the library yet."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                try:
                    json.dump(fn(), f)
                except BaseException as x:
                    import traceback
                    json.dump({'failed': repr(x) + traceback.format_exc()[-1500:]}, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    _, st = os.waitpid(pid, 0)
    if not s:
        return None
    v = json.loads(s)
    if isinstance(v, dict):
        raise RuntimeError(v['failed'])
    return v


def op_mix(L, it, dry):
    import ops
    subs = it['subs']
    n = len(subs)
    outs = [[] for _ in subs]
    ways = []
    if not dry:
        crypto.MEMO = {}
        try:
            for s in subs:
                ops.run(L, s, True)         # signatures and certificates are made now, once
            runs = [('alone', lambda k=k: in_sequence(L, subs, [k])) for k in range(n)]
            for o in it['orders']:
                runs.append(('sequence', lambda o=o: in_sequence(L, subs, o, (0, 2), (1, 3))))
            for j, (who, order) in enumerate(it['threads']):
                runs.append(('threads', lambda who=who, order=order, j=j: in_threads(L, subs, who, order, '%s%d' % (it['seed'], j))))
            if it.get('free'):
                runs.append(('free', lambda: at_random(L, subs, it['free'])))
            for what, fn in runs:
                res = apart(fn)
                for k, o in (res if res is not None else [[k, 'died'] for k in range(n)]):
                    outs[k].append(o)
                    ways.append(what)
        finally:
            crypto.MEMO = None
    return {'op': 'same', 'in': {'what': [s['op'] for s in subs]}, 'outs': outs, 'out': {'k': 'ret', 'v': {'t': 'none'}}, 'pure': True}


def op_bulk(L, it, dry):
    """Many calls of one kind in several orders, each order in a process of its own, and a few calls alone."""
    import ops
    subs, n = it['subs'], len(it['subs'])
    outs = [[] for _ in subs]
    if not dry:
        r = random.Random(it['seed'])
        crypto.MEMO = {}
        try:
            for s in subs:
                ops.run(L, s, True)
            ks = list(range(n))
            orders = [ks, ks[::-1]] + [r.sample(ks, n) for _ in range(it['shuffles'])] + [[k] for k in r.sample(ks, min(n, it['alone']))]
            for j, o in enumerate(orders):
                res = apart(lambda: in_sequence(L, subs, o, {i for i in range(len(o)) if (i + j) % 3 == 0} if len(o) > 1 else (),
                                            {i for i in range(len(o)) if (i + j) % 3 == 1} if len(o) > 1 else ()))
                for k, x in (res if res is not None else [[k, 'died'] for k in o]):
                    outs[k].append(x)
        finally:
            crypto.MEMO = None
    return {'op': 'same', 'in': {'what': [s['op'] for s in subs]}, 'outs': outs, 'out': {'k': 'ret', 'v': {'t': 'none'}}, 'pure': True}


OPS = {'mix': op_mix, 'bulk': op_bulk}
