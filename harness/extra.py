"""Checks made of histories: TLC's simulation draws them, the library replays them, TLC judges the recording."""
import json

import engine
import tlc
from engine import Machinery


def simulate(run, module, n, depth, env=None, cfg=None):
    """Behaviours drawn by TLC from a generator module."""
    seed = run.seed * 1000 + run.round * 17 + 1
    r = tlc.run(module, cfg=cfg, env=env, workers=1, args=['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(seed)])
    if not r.ok:
        raise Machinery('TLC failed on %s: %s' % (module, r.out[-3000:]))
    out = [json.loads(json.loads(l)[2:]) for l in r.out.splitlines() if l.startswith('"@@')]
    if not out:
        raise Machinery('TLC drew no behaviour of %s: %s' % (module, r.out[-3000:]))
    return out


def histories(run, op, gen, n, depth, trace, show):
    hs = simulate(run, gen, run.scale(n), depth)
    items = [{'op': op, 'steps': h, 'seed': '%s:%d:%d:%s%d' % (run.prop, run.seed, run.round, op, k), 'id': '%s.%d.%d' % (op, run.round, k)} for k, h in enumerate(hs)]
    ev = engine.run_items(run.scratch, items, tag=op)
    items, ev = [i for i, x in zip(items, ev) if x], [x for x in ev if x]
    verdicts, states = engine.judge(run.scratch, ev, module=trace, tag=op + 't')
    run.judged_states += states
    for it, (e, _) in zip(items, ev):
        v = verdicts[e['id']]
        run.histories += 1
        for s in e['steps']:
            run.by_op['%s %s' % (op, s['act'])] += 1
        for l in v.get('f', ()):
            run.faults['%s: %s' % (op, l)] += 1
        run.sigs.add(hash(json.dumps(e['steps'])))
        run.report(v['viol'], {'item': it, 'event': e})
    if len(run.samples) < 8:
        run.samples.append({'history of ' + op: show(ev[0][0]['steps'])})


def mix(run):
    scheds = simulate(run, 'GenSched', 300, 30)
    items = run.mix_items(300, scheds) + run.bulk_items(60)
    for k, it in enumerate(items):
        it['id'] = 'mix.%d.%d' % (run.round, k)
    run.run_and_judge(items, tag='mix')
    run.by_op['threads interleaved'] += sum(len(it.get('threads', ())) for it in items)
    run.by_op['calls in several orders'] += sum(len(it['subs']) for it in items if it['op'] == 'bulk')


def builders(run):
    histories(run, 'builders', 'GenBuilders', 600, 29, 'BuilderTrace', lambda l: [s for s in l if s['act'] != 'handle'][:12])


def protocol(run):
    histories(run, 'protocol', 'GenProtocol', 700, 37, 'ProtocolTrace', lambda l: [s for s in l if s['act'] == 'submit'][:3])
