"""What each check explores: model checking of the specification, cases it enumerates, and
calls of the real library judged against it."""
import collections
import concurrent.futures
import json
import os
import random
import re
import time

import engine
import plans
import tlc
from engine import Machinery


NEAR_KINDS = {'n_count': ('auth',), 'n_uh': ('auth',), 'n_user': ('auth',), 'n_allow': ('auth',), 'n_rp': ('auth',), 'n_sig': ('auth',), 'n_u2f': ('reg',), 'n_ak': ('reg',)}


def spread(rng, cases, n, key):
    """About n cases, each stratum represented, none twice."""
    if len(cases) <= n:
        return list(cases)
    g = collections.defaultdict(list)
    for c in cases:
        g[key(c)].append(c)
    groups = [g[k] for k in sorted(g, key=repr)]
    for l in groups:
        rng.shuffle(l)
    out, depth = [], 0
    while len(out) < n:
        row = [l[depth] for l in groups if depth < len(l)]
        if len(out) + len(row) > n:
            row = rng.sample(row, n - len(out))
        out += row
        depth += 1
    return out


def leaves(x):
    """What a call consists of, seeds aside."""
    out = set()

    def go(p, v):
        if isinstance(v, dict):
            for k in v:
                if k not in ('seed', 'id'):
                    go(p + (k,), v[k])
        elif isinstance(v, list):
            for k, y in enumerate(v):
                go(p + (k,), y)
        else:
            out.add((p, repr(v)))
    go((), x)
    return out


class Run:
    level = 'model_checking'

    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.plan = plans.PLANS[prop]
        self.thorough = tier == 'thorough'
        self.violations, self.notes = [], collections.Counter()
        self.states = self.transitions = self.events = self.histories = self.judged_states = 0
        self.models, self.samples, self.by_op, self.faults = [], [], collections.Counter(), collections.Counter()
        self.sigs, self.generated = set(), collections.Counter()
        self.round = self.mutants = 0
        self.timing = collections.Counter()

    def rng(self, *what):
        return random.Random(':'.join(map(str, (self.prop, self.seed, self.round) + what)))

    # ---- phases ----
    def execute(self):
        t0 = time.time()
        with concurrent.futures.ThreadPoolExecutor(3) as mex, concurrent.futures.ThreadPoolExecutor(2) as ex:
            mcs = [mex.submit(self.model, m) for m in self.plan.get('mc', ()) if self.thorough or m.get('only') != 'thorough']
            gens = {'cer': ex.submit(self.gen_cer)} if self.plan.get('cer') else {}
            fams = sorted({d['fam'] for d in self.plan.get('data', ()) if 'fam' in d} | set(self.plan.get('need', ())))
            if fams:
                gens['data'] = ex.submit(self.gen_data, fams)
            self.cases = {k: g.result() for k, g in gens.items()}
            self.timing['generate'] += time.time() - t0
            budget = self.plan.get('budget', 600) if self.thorough else 0
            while True:
                self.one_round()
                self.round += 1
                if self.violations or time.time() - t0 > budget:
                    break
            for m in mcs:
                m.result()
        self.timing['total'] = time.time() - t0

    def model(self, m):
        t = time.time()
        env = dict(m.get('env', {}))
        if self.thorough:
            env.update(m.get('thorough', {}))
        sets = dict(m.get('set', {}), **(m.get('set_thorough', {}) if self.thorough else {}))
        cfg = m.get('cfg', m['module'] + '.cfg')
        if sets:
            text = open(os.path.join(tlc.SPEC, cfg)).read()
            for k, v in sets.items():
                text, n = re.subn(r'\b%s( *= *)("[^"]*"|\{[^}]*\}|\S+)' % k, lambda x: k + x.group(1) + str(v), text)
                if n != 1:
                    raise Machinery('no constant %s in %s' % (k, cfg))
            cfg = self.scratch.path('%d.cfg' % id(m))
            with open(cfg, 'w') as f:
                f.write(text)
        r = tlc.run(m['module'], cfg=cfg, env=env, workers=m.get('workers', 4), args=m.get('args', ()),
                    timeout=800 if self.thorough else 700)
        if m.get('expect') == 'violation':      # a wrong design must be found out: the invariants say something
            if r.rc not in (12, 13):
                raise Machinery('TLC did not refute the mutant %s %s:\n%s' % (m['module'], sets, r.out[-3000:]))
            self.mutants += 1
        elif not r.ok:
            raise Machinery('TLC found the specification wrong in %s:\n%s' % (m['module'], r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'module': m['module'], 'constants': sets, 'env': env, 'states': r.distinct, 'generated': r.generated, 'wall_s': round(time.time() - t, 1),
                            'what': m.get('what', ''), 'refuted_as_it_must_be': m.get('expect') == 'violation'})

    def gen_cer(self):
        axes = ',' + ','.join(plans.AXES) + ','
        l = engine.gen(self.scratch, 'GenCer', 'cer.ndjson', {'AXES': axes})
        by = collections.defaultdict(list)
        self.reps = {'reg': collections.defaultdict(list), 'auth': collections.defaultdict(list)}
        for c in l:
            if c.pop('rep', False):
                self.reps[c['kind']][c['ax']].append(c)
                self.generated['representatives'] += 1
            else:
                by[c['ax']].append(c)
                self.generated[c['ax']] += 1
        return by

    def gen_data(self, fams):
        l = engine.gen(self.scratch, 'GenData', 'data.ndjson', {'FAMS': ',' + ','.join(fams) + ','})
        by = collections.defaultdict(list)
        for c in l:
            by[c['fam']].append(c)
            self.generated[c['fam']] += 1
        return by

    def one_round(self):
        t = time.time()
        items = self.items()
        self.expect = {}
        for k, it in enumerate(items):
            it['id'] = '%s.%d.%d' % (self.prop, self.round, k)
            if 'want' in it:
                self.expect[it['id']] = set(it.pop('want'))
        if items:
            self.run_and_judge(items)
        for name in self.plan.get('extra', ()):
            import extra
            getattr(extra, name)(self)
        self.timing['round'] += time.time() - t

    def items(self):
        out = []
        c = self.plan.get('cer')
        if c:
            out += self.cer_items(c)
        for k, d in enumerate(self.plan.get('data', ())):
            out += self.data_items(k, d)
        return out

    def scale(self, n):
        return n * 3 if self.thorough else n

    def cer_items(self, c):
        rng = self.rng('cer')
        axes, kinds = c['axes'], c.get('kinds', ('reg', 'auth'))
        own = [x for a in axes for x in self.cases['cer'][a] if x['kind'] in kinds]
        pool = {k: {a: [x for x in self.cases['cer'][a] if x['kind'] == k] for a in plans.AXES if a not in axes or len(axes) > 4} for k in kinds}
        pool = {k: {a: l for a, l in p.items() if l} for k, p in pool.items()}
        key = lambda x: (x['ax'], x['kind'], tuple(sorted(x['f'])), json.dumps(x['v'].get('mode', ''), sort_keys=True))
        lists = []
        for x in spread(rng, own, self.scale(c.get('singles', 400)), key):
            lists.append((x['kind'], [x], x['f'] if x['ax'] != 'rsp' else None))
        for x in spread(rng, own, self.scale(c.get('merges', 200)), key):
            o = [y for y in self.pick_others(rng, pool[x['kind']], rng.choice([1, 1, 2])) if y is not x]
            l = o + [x] if rng.random() < .7 else [x] + o
            lists.append((x['kind'], l, None))
        lists += self.covering(rng, axes, kinds, self.scale(c.get('pairs', 0)), self.scale(c.get('triples', 0)))
        good = [x for x in own if not x['f']]
        for _ in range(self.scale(c.get('valid', 200))):
            k = rng.choice(kinds)
            g = [x for x in good if x['kind'] == k]
            lists.append((k, [rng.choice(g)] if g and rng.random() < .3 else [], None))
        for ax in c.get('fuzz', ()):
            for _ in range(self.scale(c.get('fuzzed', 60))):
                k = rng.choice(kinds if ax not in ('x_stmt', 'x_ao') else ('reg',))
                lists.append((k, [{'ax': ax, 'v': self.fuzz_value(rng, ax), 'kind': k}], None))
        for _ in range(self.scale(c.get('nears', 0))):
            ax = rng.choice(c['near'])
            k = rng.choice([k for k in kinds if k in NEAR_KINDS.get(ax, kinds)])
            l = [{'ax': ax, 'v': 0}]
            if rng.random() < .3:
                l = self.pick_others(rng, pool[k], 1) + l
            lists.append((k, l, None))
        for k, (kind, l, want) in enumerate(lists):
            lists[k] = (kind, l, want, False)
        lists += [(rng.choice(kinds), [], None, True) for _ in range(self.scale(c.get('huge', 0)))]
        rng.shuffle(lists)
        items, g, left = [], 0, 0
        for n, (kind, l, want, huge) in enumerate(lists):
            it = {'op': 'cer', 'kind': kind, 'apply': [[x['ax'], x['v']] for x in l], 'seed': '%s:%d:%d:c%d' % (self.prop, self.seed, self.round, n)}
            if left == 0 and c.get('groups', True):
                g, left = g + 1, rng.choice([1, 4, 8])
                big = left > 1
            if c.get('groups', True):
                left -= 1
                if big:
                    it['group'] = '%s:%d:%d:g%d' % (self.prop, self.seed, self.round, g)
                it['lane'] = g
                it['shared'] = rng.random() < .5
            if c.get('simple') and rng.random() < c['simple']:
                it['simple'] = True
            if huge:
                it['huge'] = True
            if c.get('twin'):
                it['twin'] = True
            if want is not None:
                it['want'] = want
            if c.get('also_attest') and kind == 'reg':
                items.append(dict({k: v for k, v in it.items() if k != 'want'}, op='attest'))
            items.append(it)
        return items

    def callables(self, rng, n):
        """Calls of every parser, converter and helper, by operation."""
        by = collections.defaultdict(list)
        for k, d in enumerate(plans.PLANS['C11']['data']):
            for x in self.data_items(k, dict(d, n=n)):
                by[x['op'] + x.get('sub', '')].append(x)
        for d in plans.MORE_CALLS:
            for x in self.data_items(len(by), dict(d, n=n)):
                by[x['op'] + x.get('sub', '')].append(x)
        return by

    def near(self, rng, x, pool, tries=60):
        """A call that differs from x in little."""
        fx = leaves(x)
        return min((y for y in rng.sample(pool, min(tries, len(pool))) if y is not x), key=lambda y: len(fx ^ leaves(y)) or 10**6)

    def mix_items(self, n, scheds):
        """Calls that have much in common, to be made alone, in sequence and at once."""
        rng = self.rng('mix')
        n = self.scale(n)
        cer = {k: [x for a in plans.AXES for x in self.cases['cer'][a] if x['kind'] == k] for k in ('reg', 'auth')}
        by = self.callables(rng, 200)
        out = []
        for j in range(n):
            tag = '%s:%d:%d:m%d' % (self.prop, self.seed, self.round, j)
            subs = []
            kind = rng.choice(['reg', 'auth', 'auth'])
            one = lambda kind, apply, seed, **kw: dict(op='cer', kind=kind, apply=[[x['ax'], x['v']] for x in apply], seed=seed, shared=True, **kw)
            case = lambda kind: [rng.choice(cer[kind])]
            if rng.random() < .6:
                grp = {'group': tag} if rng.random() < .6 else {}
                subs = [one(kind, [], tag, **grp), one(kind, case(kind), tag, **grp), one(kind, case(kind), tag, **grp)]
                if rng.random() < .6:
                    subs.append(one(kind, [], tag + '+', group=tag))
                if rng.random() < .5:
                    subs.append(one('auth' if kind == 'reg' else 'reg', [], tag + '-', group=tag))
                if kind == 'reg' and rng.random() < .3:
                    subs.append(dict(subs[1], op='attest'))
            while len(subs) < 3 or rng.random() < .4:
                pool = by[rng.choice(sorted(by))]
                x = rng.choice(pool)
                subs.append(x)
                y = self.near(rng, x, pool) if len(pool) > 1 and rng.random() < .6 else rng.choice(pool)
                subs.append(dict(y, seed=x['seed']))
            subs = subs[:6]
            rng.shuffle(subs)
            ks = list(range(len(subs)))
            orders = [ks, ks[::-1], [rng.choice(ks) for _ in range(8)]]
            threads = []
            for _ in range(3):
                m = rng.choice([2, 2, 3])
                threads.append([rng.sample(ks, m), [h for h in rng.choice(scheds) if h <= m]])
            out.append({'op': 'mix', 'subs': subs, 'orders': orders, 'threads': threads, 'free': rng.sample(ks, 3) if rng.random() < .3 else None, 'seed': tag})
        return out

    def bulk_items(self, n):
        """Many calls of one kind, to be made in several orders."""
        rng = self.rng('bulk')
        by = self.callables(rng, self.scale(900))
        cer = {k: [x for a in plans.AXES for x in self.cases['cer'][a] if x['kind'] == k] for k in ('reg', 'auth')}
        names = sorted(by)
        out = []
        for j in range(self.scale(n)):
            tag = '%s:%d:%d:b%d' % (self.prop, self.seed, self.round, j)
            subs = []
            if j % 3 == 0:          # ceremonies that share what a cache could be keyed by
                kind = rng.choice(['reg', 'auth'])
                ax = rng.choice([a for a in plans.AXES if any(x['ax'] == a for x in cer[kind])])
                pool = [x for x in cer[kind] if x['ax'] == ax]
                for i in range(36):
                    l = [rng.choice(pool if rng.random() < .6 else cer[kind])] if rng.random() < .8 else []
                    subs.append(dict(op='cer', kind=kind, apply=[[x['ax'], x['v']] for x in l], seed=tag + rng.choice(['', '', ':%d' % rng.randrange(4)]), group=tag, shared=rng.random() < .7))
            else:
                pool = by[names[(j + self.round) % len(names)]]
                x = rng.choice(pool)
                fx = leaves(x)
                close = sorted(rng.sample(pool, min(400, len(pool))), key=lambda y: len(fx ^ leaves(y)))[:60]
                same = rng.random() < .6
                subs = [dict(y, seed=x['seed']) if same and 'seed' in y else y for y in [x] + close]
                subs += rng.sample(pool, min(20, len(pool)))
                other = by[rng.choice(names)]
                subs += rng.sample(other, min(20, len(other)))
            rng.shuffle(subs)
            out.append({'op': 'bulk', 'subs': subs, 'shuffles': 3, 'alone': 24, 'seed': tag})
        for j, name in enumerate(names):    # whole families at once, with the same contents
            pool = list(by[name])
            rng.shuffle(pool)
            for i in range(0, len(pool), 300):
                tag = '%s:%d:%d:f%d.%d' % (self.prop, self.seed, self.round, j, i)
                out.append({'op': 'bulk', 'subs': [dict(x, seed=tag) if 'seed' in x else x for x in pool[i:i + 300]], 'shuffles': 1, 'alone': 150, 'seed': tag})
        return out

    def covering(self, rng, axes, kinds, pairs, triples):
        """Representatives of the axes of the property combined with those of every other axis."""
        out = []
        for k in kinds:
            r = self.reps[k]
            mine = [a for a in axes if r[a]]
            both = {}
            for a in mine:
                for b in sorted(r):
                    if a != b and r[b] and (b, a) not in both:
                        both[a, b] = [(x, y) for x in r[a] for y in r[b]]
            l = [(k, ab, x, y) for ab, q in both.items() for x, y in q]
            for _, _, x, y in spread(rng, l, pairs // len(kinds), lambda t: (t[1], json.dumps(t[2]['v']), tuple(sorted(t[3]['f'])))):
                out.append((k, [x, y] if rng.random() < .5 else [y, x], None))
            for _ in range(triples // len(kinds) if mine else 0):
                ax = rng.sample([a for a in sorted(r) if r[a]], 3)
                ax[0] = rng.choice(mine)
                if len(set(ax)) == 3:
                    q = [rng.choice(r[a]) for a in ax]
                    rng.shuffle(q)
                    out.append((k, q, None))
        return out

    def pick_others(self, rng, by, n):
        out = []
        for _ in range(n):
            l = by[rng.choice(sorted(by))]
            for _ in range(20):
                y = rng.choice(l)
                if (not y['f']) == (rng.random() < .6):
                    break
            out.append(y)
        return out

    def fuzz_value(self, rng, ax):
        fam = {'x_cd': 'cd', 'x_key': 'cose', 'x_ext': 'ext', 'x_stmt': 'stmt'}.get(ax)
        if fam is None:
            return 0
        l = self.cases['data'][fam]
        for _ in range(20):
            y = rng.choice(l)
            if y['k'] != 'ok' or rng.random() < .5:
                break
        return y['j'] if fam == 'cd' else y if fam == 'stmt' else y['m']

    def data_items(self, k, d):
        rng = self.rng('data', k)
        n = self.scale(d['n'])
        if 'fam' in d:
            l = self.cases['data'][d['fam']]
            l = [x for x in l if d['if'](x)] if 'if' in d else l
            s = spread(rng, l, n, lambda x: (x['k'], json.dumps(x.get('fmt', x['v'] if d['fam'] == 'json' else ''), sort_keys=True)) if d['fam'] != 'json' else (x['k'], x['v']['leaf'], x['v']['wrap']))
            if len(l) <= n and d.get('fill'):
                s = s + [rng.choice(l) for _ in range(n - len(l))]
        else:
            s = [{}] * n
        out = []
        for j, x in enumerate(s):
            it = {f: x[f] for f in ('m', 'v', 'b', 'j', 'fmt') if f in x}
            it.update(d.get('item', {}), op=d['op'], seed='%s:%d:%d:d%d.%d' % (self.prop, self.seed, self.round, k, j))
            for f, choices in d.get('vary', {}).items():
                it[f] = rng.choice(choices)
            out.append(it)
        return out

    # ---- running and judging ----
    def run_and_judge(self, items, script='run.py', opts=(), tag='w'):
        t = time.time()
        ev = engine.run_items(self.scratch, items, script=script, opts=opts, tag=tag)
        ev = self.confirm(items, ev)
        items, ev = [i for i, x in zip(items, ev) if x], [x for x in ev if x]
        self.timing['run'] += time.time() - t
        self.judge_events(items, ev)

    def confirm(self, items, ev):
        """A call that hung or died is tried again alone before anything is said about it."""
        out, sure = [], 0
        for it, x in zip(items, ev):
            if x is None:
                out.append(None)
            elif x[0]['out']['k'] in ('hang', 'crash') and sure < 3:
                again = engine.run_items(self.scratch, [it], tag='again')[0]
                if again[0]['out']['k'] in ('hang', 'crash'):
                    sure += 1
                    out.append(x)
                else:
                    out.append(again)
            else:
                out.append(x)
        return out

    def judge_events(self, items, ev):
        t = time.time()
        verdicts, states = engine.judge(self.scratch, ev)
        self.timing['judge'] += time.time() - t
        self.judged_states += states
        for it, (e, _) in zip(items, ev):
            v = verdicts[e['id']]
            self.account(it, e, v)

    def account(self, it, e, v):
        self.events += 1
        self.by_op[e['op']] += 1
        out = e['out']['k'] if e['out']['k'] != 'err' else e['out']['cls']
        if e['op'] in ('reg', 'auth'):
            for l in v['f'] or ['(none)']:
                self.faults[l] += 1
            sig = (e['op'], hash(json.dumps([e['cfg'], e['cred'], e.get('store')])))
        else:
            sig = (e['op'], out, hash(json.dumps([e.get(k) for k in ('in', 'conv', 'fmt', 'stmt', 'data', 'sig')])))
        if sig not in self.sigs:
            self.sigs.add(sig)
            if len(self.samples) < 6 and (e['op'], out) not in {(s['op'], s['outcome']) for s in self.samples}:
                self.samples.append({'op': e['op'], 'outcome': out, 'faults': v['f'], 'item': trim(it)})
        want = self.expect.get(e['id']) if hasattr(self, 'expect') else None
        if want is not None and not v['u'] and set(v['f']) != want:
            raise Machinery('case %s: generated with faults %s, judged %s: %s' % (e['id'], sorted(want), v['f'], json.dumps(trim(it))))
        self.report(v['viol'], {'item': it, 'event': e, 'faults': v['f'], 'undecided': v['u']})

    def report(self, viol, detail):
        mine = sorted({x['clause'] for x in viol if self.prop in x['own']})
        for x in viol:
            if self.prop not in x['own']:
                self.notes['%s (%s)' % (x['clause'], ','.join(sorted(x['own'])))] += 1
                if os.environ.get('VERIF_NOTES'):
                    with open(os.environ['VERIF_NOTES'], 'a') as f:
                        f.write(json.dumps(dict(detail, clause=x)) + '\n')
        if mine:
            self.violations.append(dict(detail, property=self.prop, clauses=mine, seed=self.seed, tier=self.tier))

    # ---- reporting ----
    def coverage(self):
        return {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.events + self.histories,
                'samples': self.samples or [{'models': self.models}],
                'models': self.models, 'distinct_cases': len(self.sigs), 'events_by_operation': dict(self.by_op), 'faults_exercised': dict(self.faults),
                'cases_enumerated_by_spec': dict(self.generated), 'histories': self.histories, 'rounds': self.round,
                'timing_s': {k: round(v, 1) for k, v in self.timing.items()}}

    def assumptions(self):
        return plans.ASSUMPTIONS + self.plan.get('assumptions', [])

    def summary(self):
        return '%d model states, %d calls judged (%d distinct), %d histories; %s' % (
            self.states, self.events, len(self.sigs), self.histories, ' '.join('%s=%.0fs' % x for x in self.timing.items()))


def trim(it):
    s = json.dumps(it)
    return it if len(s) < 3000 else s[:3000]
