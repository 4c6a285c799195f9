"""C08: computations in different threads do not influence each other."""
import os
import signal

import core
import ops
import threads

ID = 'C08'
UNITS = {'quick': 260, 'thorough': 5600}
PER_UNIT = {'quick': 3, 'thorough': 3}
NOTE = ('Seeded search: two to four real threads run drawn operations of the library on data of their own; a drawn schedule decides at which line or bytecode '
        'of the library another thread takes over, some operations fail or meet disk errors. Each operation must give what it gives alone. Compiled code runs uninterrupted.')
RULE = ('A case is a list of operations per thread, the choice of implementation, a schedule of thread switches and disk errors for some threads. '
        'Distinct by case, by the order in which threads ran and by all results.')
MEASURE = 'operations, thread hand-over sequence and every result.'
REAL = ['malstroem (algorithms, tools, readers and writers, command line)', 'CPython threads', 'GDAL/OGR, SQLite']
STUB = ['thread scheduling (drawn; switches at lines or bytecodes of the library)', 'readers and writers in memory for half of the operations', 'locks made by the library (cooperative)']
ASSUMPTIONS = ['each thread works on objects and files of its own', 'foreign code (GDAL, numpy, compiled extensions) runs without preemption']

LIGHT = ops.MEMORY


def cases(rng, tier, ctx, u):
    for j in range(PER_UNIT[tier]):
        n = rng.choice([2, 2, 2, 3, 4])
        files = rng.random() < 0.4
        same = rng.random() < 0.35
        kinds = ops.FILES[:5] + (['complete'] if rng.random() < 0.3 else []) if files else LIGHT
        if rng.random() < 0.65:
            # mostly the same few operations everywhere
            kinds = [rng.choice(kinds) for _ in range(rng.randint(1, 3))]
        dems = [ops.terrain(rng, 4, 7) for _ in range(n)]
        if same:
            dems = [dems[0]] * n
        ts = []
        for i in range(n):
            t = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                s = ops.random_op(rng, kinds, dems[i])
                if s['op'] not in ops.FILES and rng.random() < 0.08:
                    s['fail'] = rng.randint(1, 4)
                t.append(s)
            ts.append(t)
        plan = []
        if files and rng.random() < 0.4:
            k = rng.choice(['write', 'read', 'openw', 'closew'])
            plan = [dict(kinds=1 << core.kernel.K[k], action='fail', nth=rng.randint(1, 12), err=rng.choice(core.ERRS), path='/t0/o0/')]
        yield dict(threads=ts, fast=rng.random() < (0.6 if files else 0.35), sched=threads.random_schedule(rng, n) if rng.random() < 0.4 else spread(rng, n), opcodes=rng.random() < 0.3, plan=plan, rel=files and rng.random() < 0.3)


def spread(rng, n):
    """switches at drawn fractions of all the work"""
    return [[rng.random(), rng.randrange(n)] for _ in range(rng.choice([2, 3, 3, 4, 6, 12, 30, 100]))]


def schedule(case, events):
    """[events until the next switch, which thread next]"""
    s = case['sched']
    if all(isinstance(x[0], int) for x in s):
        return s
    if case['opcodes']:
        events *= 6
    at, out = 0, []
    for f, j in sorted(s):
        e = 1 + int(f * events)
        out.append([max(e - at, 1), j])
        at = e
    return out


def paths(ctx, i, j, rel):
    p = os.path.join('t%d' % i, 'o%d' % j)
    return p if rel else os.path.join(ctx.data, p)


class Drawn(IOError):
    pass


def ready(spec, path):
    left = [spec.get('fail', 0)]

    def seam():
        left[0] -= 1
        if left[0] == 0:
            raise Drawn('drawn')
    return ops.Op(spec, path, seam)


def start(ctx, case):
    from malstroem.algorithms import speedups
    signal.alarm(150)
    os.makedirs(ctx.data, exist_ok=True)
    os.chdir(ctx.data)
    speedups.enable()
    return speedups


def outcome(f):
    try:
        return ('ok', ops.canon(f()))
    except Exception as e:
        return ('error', type(e).__name__, str(e)[:300])


def run(case, ctx):
    rep = core.Report()
    import shutil
    want = {}
    events = 0
    try:
        for i, t in enumerate(case['threads']):
            for j, s in enumerate(t):
                shutil.rmtree(ctx.data, ignore_errors=True)
                os.makedirs(ctx.data)

                def alone():
                    sp = start(ctx, case)
                    o = ready(s, paths(ctx, i, j, case['rel']))
                    if not case['fast']:
                        sp.disable()
                    with threads.Places() as p:
                        x = outcome(o.call)
                    return (x, o.changed_args()), p.n
                key = core.jhash([s, case['fast'], case['plan'] if (i, j) == (0, 0) else []])
                if key not in want:
                    want[key] = ctx.inproc(alone, plan=case['plan'] if (i, j) == (0, 0) else ())
                want[i, j] = want[key][0]
                events += want[key][1]
    except core.Broken as e:
        raise core.Skip('alone: ' + e.what)
    shutil.rmtree(ctx.data, ignore_errors=True)
    os.makedirs(ctx.data)

    def together():
        sp = start(ctx, case)
        todo = [[ready(s, paths(ctx, i, j, case['rel'])) for j, s in enumerate(t)] for i, t in enumerate(case['threads'])]
        if not case['fast']:
            sp.disable()
        raw = {}

        def body(i):
            def f():
                out = []
                for j, o in enumerate(todo[i]):
                    try:
                        r = o.call()
                        raw[i, j] = r
                        out.append(('ok', ops.canon(r)))
                    except Exception as e:
                        out.append(('error', type(e).__name__, str(e)[:300]))
                return out
            return f
        with threads.locks():
            s = threads.Scheduler(schedule(case, events), case['opcodes'])
            got = s.run([body(i) for i in range(len(todo))])
        late = {k: ops.canon(v) for k, v in raw.items()}
        tmp = os.listdir(os.path.join(ctx.root, 'tmp'))
        fast = sp.enabled
        return dict(got=got, late=late, changed={(i, j): o.changed_args() for i, t in enumerate(todo) for j, o in enumerate(t)}, tmp=tmp, fast=fast,
                    ran=s.ran, switches=s.switches, events=s.events, deadlock=s.deadlock)
    try:
        r = ctx.inproc(together, rep, key=case['sched'], plan=case['plan'])
    except core.Broken as e:
        rep.bad('fails', e.what)
        return rep
    ctx.stats['decisions'] += r['switches']
    ctx.stats['probe thread switches'] += r['switches']
    ctx.stats['probe library events'] += r['events']
    rep.keys[-1] = core.jhash([case['threads'], r['ran'], [[x[:2] for x in g[1]] if g[0] == 'ok' else g[:2] for g in r['got']]])
    for i, t in enumerate(case['threads']):
        g = r['got'][i]
        names = [s['op'] for s in t]
        if g[0] != 'ok':
            rep.bad('thread dies', 'thread %d (%s): %s' % (i, names, g[1:]))
            continue
        for j, s in enumerate(t):
            w, wchanged = want[i, j]
            x = g[1][j]
            if x[0] != w[0]:
                rep.bad('%s %s' % (s['op'], 'fails' if w[0] == 'ok' else 'succeeds'), 'thread %d: %s, alone: %s' % (i, ops.short(x), ops.short(w)))
            elif w[0] == 'error':
                if x[1] != w[1]:
                    rep.bad('%s fails differently' % s['op'], 'thread %d: %s, alone: %s' % (i, x, w))
            else:
                d = ops.diff(w[1], x[1])
                if d:
                    rep.bad('%s result' % s['op'], 'thread %d differs from the same operation alone: %s' % (i, d))
                elif (i, j) in r['late'] and r['late'][i, j] != x[1] and s['op'] not in ('watersheds', 'approx'):
                    rep.bad('%s result changes' % s['op'], 'the result of thread %d changed after it was returned: %s' % (i, ops.diff(x[1], r['late'][i, j])))
            if sorted(r['changed'][i, j]) or wchanged:
                rep.bad('%s arguments' % s['op'], 'modified its arguments %s' % (r['changed'][i, j] or wchanged))
    if r['deadlock']:
        rep.bad('deadlock', 'the threads wait for each other')
    if r['tmp']:
        rep.bad('temporary files', 'left behind: %s' % r['tmp'][:3])
    if r['fast'] != case['fast']:
        rep.bad('implementation', 'the choice of implementation changed')
    return rep


def shrink(case):
    ts = case['threads']
    if len(ts) > 2:
        for i in range(len(ts)):
            yield dict(case, threads=ts[:i] + ts[i + 1:])
    for i, t in enumerate(ts):
        if len(t) > 1:
            for j in range(len(t)):
                yield dict(case, threads=ts[:i] + [t[:j] + t[j + 1:]] + ts[i + 1:])
    if case['plan']:
        yield dict(case, plan=[])
    s = case['sched']
    for k in (len(s) // 2, len(s) - 1):
        if 1 <= k < len(s):
            yield dict(case, sched=s[:k])
    for k in range(1, len(s)):
        if len(s) < 25:
            yield dict(case, sched=s[:k] + s[k + 1:])
    if case['opcodes']:
        yield dict(case, opcodes=False)
    d0 = ts[0][0]['dem']
    for d in core.shrink_dem(d0):
        yield dict(case, threads=[[dict(x, dem=d) if x['dem'] == d0 else x for x in t] for t in ts])
