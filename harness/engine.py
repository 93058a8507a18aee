"""Running items in worker processes, judging the events with TLC, reporting."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('WEBAUTHN_REPO', '/repo')
PY = '/opt/venv/bin/python'
EVID = os.path.join(VERIF, 'evidence')
WORKERS = 8


class Machinery(Exception):
    """Something of ours went wrong: no verdict."""


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)


def py_env(scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=scratch.path('pyc'), PYTHONHASHSEED='0')
    e['PYTHONWARNINGS'] = 'ignore'
    return e


def count_lines(p):
    try:
        with open(p, 'rb') as f:
            return sum(1 for _ in f)
    except OSError:
        return 0


def hangs(jobs):
    for j in jobs:
        with open(j['out']) as f:
            if '"k":"hang"' in f.read():
                return True
    return False


def run_items(scratch, items, script='run.py', tag='w', opts=(), stall=75, limit=600):
    """-> list of events, in item order; None for those not reached because calls before them did not end."""
    n = max(1, min(WORKERS, len(items)))
    parts = [[] for _ in range(n)]
    for k, it in enumerate(items):      # items of a lane stay together, in order
        parts[it.get('lane', k) % n].append(it)
    parts = [p for p in parts if p]
    env = py_env(scratch)
    jobs = []
    for k, part in enumerate(parts):
        jobs.append({'k': k, 'items': part, 'out': scratch.path('%s%d.out' % (tag, k)), 'done': 0})
        open(jobs[-1]['out'], 'w').close()

    def start(j, dry=False):
        f = scratch.path('%s%d.in' % (tag, j['k']))
        todo = j['items'][j['done']:j['done'] + 1] if dry else j['items'][j['done']:]
        with open(f, 'w') as o:
            for it in todo:
                o.write(json.dumps(it) + '\n')
        j['err'] = scratch.path('%s%d.err' % (tag, j['k']))
        j['p'] = subprocess.Popen([PY, *opts, os.path.join(HERE, script), f, j['out']] + (['dry'] if dry else []), env=env,
                                  cwd=scratch.dir, stdout=subprocess.DEVNULL, stderr=open(j['err'], 'w'))
        j['seen'], j['t'], j['dry'] = j['done'], time.time(), dry

    for j in jobs:
        start(j)
    t0 = time.time()
    live = list(jobs)
    stalls = 0
    while live:
        time.sleep(.05)
        for j in list(live):
            rc = j['p'].poll()
            if rc is None:
                if time.time() - j['t'] > 5:
                    n = count_lines(j['out'])
                    if n > j['seen']:
                        j['seen'], j['t'] = n, time.time()
                    elif time.time() - j['t'] > (stall if stalls < 2 else stall / 3):
                        stalls += 1
                        j['p'].kill()
                        j['p'].wait()
                        rc = -9
            if rc is None:
                spent = time.time() - t0
                if spent > limit or spent > limit * .6 and (stalls or hangs(jobs)):
                    for x in live:
                        x['p'].kill()
                        x['p'].wait()
                    if not stalls and not hangs(jobs):
                        raise Machinery('workers ran out of time')
                    live = []       # calls that do not end eat up the time: what was recorded says so
                    break
                continue
            n = count_lines(j['out'])
            if rc == 0:
                if j['dry']:
                    j['done'] = n
                    start(j)
                    continue
                if n != len(j['items']):
                    raise Machinery('worker lost events: %d of %d, done %d, %s' % (n, len(j['items']), j['done'], open(j['err']).read()[-2000:]))
                live.remove(j)
            elif rc < 0 and not j['dry'] and n < len(j['items']):
                # died inside a call: the event of that item says so
                j['done'] = n
                start(j, dry=True)
            else:
                raise Machinery('worker failed: ' + open(j['err']).read()[-3000:])
    by = {}
    for j in jobs:
        with open(j['out']) as f:
            for line in f:
                if line.endswith('\n'):
                    e = json.loads(line)
                    by[e['id']] = (e, line)
    return [by.get(it['id']) for it in items]


def judge(scratch, events, module='Trace', tag='t', procs=None):
    """Validate a log with TLC; -> {id: verdict}."""
    if procs is None:
        procs = 1 if len(events) < 400 else 2 if len(events) < 1500 else 4
    parts = [[] for _ in range(procs)]
    size = [0] * procs
    for e, line in sorted(events, key=lambda x: -len(x[1])):
        k = size.index(min(size))
        parts[k].append(line)
        size[k] += len(line) + 2000
    import concurrent.futures
    files = []
    for k, p in enumerate(parts):
        f = scratch.path('%s%d.ndjson' % (tag, k))
        with open(f, 'w') as o:
            o.writelines(p)
        files.append(f)

    def one(f):
        return tlc.run(module, env={'TRACE': f}, workers=max(2, WORKERS // procs), heap='%dg' % max(3, 16 // procs))
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, files))
    out = {}
    for r in res:
        if not r.ok:
            raise Machinery('TLC failed on the log: ' + r.out[-3000:])
        for l in r.out.splitlines():
            if l.startswith('"@@'):
                v = json.loads(json.loads(l)[2:])
                out[v['id']] = v
    if len(out) != len(events):
        raise Machinery('TLC judged %d of %d events' % (len(out), len(events)))
    return out, sum(r.distinct for r in res)


def gen(scratch, module, name, env=None):
    """Cases enumerated by the specification."""
    f = scratch.path(name)
    r = tlc.run(module, env=dict(env or {}, OUT=f), workers=1)
    if not r.ok:
        raise Machinery('TLC failed on %s: %s' % (module, r.out[-3000:]))
    with open(f) as i:
        return [json.loads(l) for l in i]
