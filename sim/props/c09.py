"""C09: accelerated and plain implementations are interchangeable at any moment."""
import random
import signal
import sys
import types

import numpy as np

import core
import hydro
import ops
import threads
import world

ID = 'C09'
UNITS = {'quick': 800, 'thorough': 24000}
PER_UNIT = {'quick': 3, 'thorough': 3}
NOTE = ('Seeded search: drawn operations run while the speedups are switched on and off between them, at drawn lines and bytecodes inside them, and by other threads under '
        'a drawn schedule; every result is compared with the plain implementation in a fresh process. Compiled code itself runs uninterrupted. Samples histories.')
RULE = ('A case is a list of operations, a history of switching (between operations, at drawn points inside, by further threads) and a thread schedule. '
        'Distinct by case and by the observed order of switches.')
MEASURE = 'operations, switching history as executed and every result.'
REAL = ['malstroem.algorithms (plain and compiled), malstroem.algorithms.speedups, tools of the library']
STUB = ['thread scheduling (drawn)', 'readers and writers (in memory)']
ASSUMPTIONS = ['flow directions may differ between equally steep neighbours', 'foreign and compiled code runs without preemption']

KINDS = ops.HASH_SWITCHED * 3 + ['components', 'trace', 'geonet', 'levels', 'streamtool', 'maxidx', 'count', 'keep', 'approx']


def cases(rng, tier, ctx, u):
    for j in range(PER_UNIT[tier]):
        kinds = KINDS if rng.random() < 0.6 else [rng.choice(KINDS) for _ in range(2)]
        big = u % 25 == 5 and j == 0
        dem = ops.large(rng) if big else ops.terrain(rng, 2 if rng.random() < 0.1 else 4, 8)
        todo = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < 0.25:
                dem = ops.terrain(rng, 3, 8)
            todo.append(ops.random_op(rng, kinds, dem))
        mode = 'between' if big else rng.choice(['between', 'during', 'during', 'thread', 'thread', 'threads'])
        case = dict(ops=todo, mode=mode, first=rng.choice('ed'), opcodes=mode != 'between' and rng.random() < 0.3)
        if mode == 'between':
            case['switch'] = [[rng.choice('edde') for _ in range(rng.choice([0, 1, 1, 2, 4]))] for _ in todo]
        elif mode == 'during':
            scale = rng.choice([1, 5, 50, 400])
            at, sw = 0, []
            for _ in range(rng.choice([1, 2, 5, 30])):
                at += 1 + int(rng.expovariate(1.0 / scale))
                sw.append([at, rng.choice('ed')])
            case['switch'] = sw
        else:
            n = 1 if mode == 'thread' else rng.choice([2, 3])
            case['switch'] = [[rng.choice('ed') for _ in range(rng.choice([1, 2, 5, 12]))] for _ in range(n)]
            case['sched'] = threads.random_schedule(rng, n + 1)
        yield case


def library_modules():
    return {n: m for n, m in list(sys.modules.items()) if n.startswith('malstroem') and isinstance(m, types.ModuleType)}


def compiled_names():
    """attributes of the plain modules (and of modules using them) which are compiled functions"""
    ext = 'malstroem.algorithms.speedups'
    out = []
    for n, m in library_modules().items():
        if n.startswith(ext):
            continue
        for a, v in vars(m).items():
            if callable(v) and not isinstance(v, types.FunctionType) and str(getattr(v, '__module__', '')).startswith(ext) and not isinstance(v, type):
                out.append('%s.%s' % (n, a))
    return sorted(out)


def usable():
    """names of everything the extensions offer"""
    out = set()
    for n, m in library_modules().items():
        if n.startswith('malstroem.algorithms.speedups._'):
            for a, v in vars(m).items():
                if callable(v) and not isinstance(v, (type, types.FunctionType)) and getattr(v, '__module__', '') == n:
                    out.add(v.__name__)
    return out


def play(case):
    from malstroem.algorithms import speedups
    signal.alarm(150)
    problems = []
    base = compiled_names()
    todo = [ops.Op(s, '/nonexistent') for s in case['ops']]

    def look(state):
        names = compiled_names()
        if state == 'e' and (names != base or not speedups.enabled):
            problems.append('after enable() %s compiled functions in use, %s at start (enabled=%s)' % (len(names), len(base), speedups.enabled))
        if state == 'd' and (names or speedups.enabled):
            problems.append('after disable() still compiled: %s (enabled=%s)' % (names[:4], speedups.enabled))

    def switch(x):
        speedups.enable() if x == 'e' else speedups.disable()
    if base:
        used = {getattr(sys.modules[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1]).__name__ for n in base}
        if usable() - used:
            problems.append('never used: %s' % sorted(usable() - used))
    switch(case['first'])
    look(case['first'])
    out, done, ran, events = [], [], [], 0

    def one(o):
        try:
            return ('ok', ops.canon(o.call()))
        except Exception as e:
            return ('error', type(e).__name__, str(e)[:300])
    if case['mode'] == 'between':
        for o, sw in zip(todo, case['switch']):
            for x in sw:
                switch(x)
                look(x)
            out.append(one(o))
            done += sw
    elif case['mode'] == 'during':
        at = {k: x for k, x in case['switch']}

        def event(n):
            if n in at:
                sys.settrace(None)
                switch(at[n])
                look(at[n])
                done.append(n)
        s = threads.Scheduler([], case['opcodes'], event)
        r = s.run([lambda: [one(o) for o in todo]])[0]
        events = s.events
        out = r[1] if r[0] == 'ok' else [r] * len(todo)
    else:
        alone = case['mode'] == 'thread'

        def toggler(sw):
            def f():
                for x in sw:
                    switch(x)
                    if alone:
                        look(x)
            return f
        with threads.locks():
            s = threads.Scheduler(case['sched'], case['opcodes'])
            rs = s.run([lambda: [one(o) for o in todo]] + [toggler(sw) for sw in case['switch']])
        events, ran = s.events, s.ran
        out = rs[0][1] if rs[0][0] == 'ok' else [rs[0]] * len(todo)
        for r in rs[1:]:
            if r[0] != 'ok':
                problems.append('switching fails: %s' % (r[1:],))
        if s.deadlock:
            problems.append('the threads wait for each other')
    for x in 'deedde':
        try:
            switch(x)
            look(x)
        except Exception as e:
            problems.append('switching fails afterwards: %s %s' % (type(e).__name__, e))
            break
    return dict(out=out, problems=problems, done=done, ran=ran, events=events, changed=[o.changed_args() for o in todo])


def run(case, ctx):
    rep = core.Report()
    want = []
    for s in case['ops']:
        def plain():
            from malstroem.algorithms import speedups
            signal.alarm(150)
            o = ops.Op(s, '/nonexistent')
            speedups.disable()
            try:
                return ('ok', ops.canon(o.call()))
            except Exception as e:
                return ('error', type(e).__name__, str(e)[:300])
        try:
            want.append(ctx.inproc(plain))
        except core.Broken as e:
            raise core.Skip('plain: ' + e.what)
    try:
        r = ctx.inproc(lambda: play(case), rep, key=case)
    except core.Broken as e:
        rep.bad('fails', e.what)
        return rep
    ctx.stats['decisions'] += len(r['ran']) + len(r['done'])
    ctx.stats['probe switches inside operations'] += len(r['done']) if case['mode'] == 'during' else 0
    ctx.stats['probe library events'] += r['events']
    rep.keys[-1] = core.jhash([case, r['ran'], r['done'], r['out']])
    for p in r['problems']:
        rep.bad('switching: ' + ' '.join(p.split()[:4]), p)
    for s, w, x in zip(case['ops'], want, r['out']):
        if w[0] != x[0]:
            rep.bad('%s %s' % (s['op'], 'fails' if w[0] == 'ok' else 'succeeds'), '%s, plain: %s' % (ops.short(x), ops.short(w)))
        elif w[0] == 'ok':
            d = ops.diff(w[1], x[1])
            if d and s['op'] in ('flowdir', 'demtool'):
                d = steepness(s, w[1], x[1])
            if d:
                rep.bad('%s result' % s['op'], 'differs from the plain implementation: ' + d)
        elif w[1] != x[1]:
            rep.bad('%s fails differently' % s['op'], '%s, plain: %s' % (x, w))
    for s, c in zip(case['ops'], r['changed']):
        if c:
            rep.bad('%s arguments' % s['op'], 'modified its arguments %s' % c)
    return rep


def array(x):
    return np.array(x[3]).reshape(x[2]).astype(x[1])


def steepness(s, w, x):
    """directions may differ between equally steep ways"""
    from malstroem.algorithms import fill, flow
    dem = world.dem_values(s['dem'])
    if s['op'] == 'demtool':
        for i in (0, 2):
            d = ops.diff(w[i], x[i])
            if d:
                return d
        a, b = array(w[1]), array(x[1])
        z = fill.fill_terrain_no_flats(dem, *fill.minimum_safe_short_and_diag(dem))
    else:
        a, b = array(w), array(x)
        z = fill.fill_terrain_no_flats(dem, *fill.minimum_safe_short_and_diag(dem)) if s['on'] == 'nf' else dem.astype('float64')
    if a.shape != b.shape or a.dtype != b.dtype:
        return 'shape or type of the flow directions differ'
    for r in range(a.shape[0]):
        for c in range(a.shape[1]):
            if a[r, c] != b[r, c]:
                v = []
                for k in (int(a[r, c]), int(b[r, c])):
                    if not 0 <= k < 8 or r in (0, a.shape[0] - 1) or c in (0, a.shape[1] - 1):
                        return 'direction at (%d,%d) is %d instead of %d' % (r, c, b[r, c], a[r, c])
                    dr, dc = hydro.DELTA[k]
                    v.append((z[r, c] - z[r + dr, c + dc]) / (2 ** 0.5 if k % 2 else 1.0))
                if abs(v[0] - v[1]) > 1e-12 * abs(v[0]):
                    return 'direction at (%d,%d) is %d with drop %r instead of %d with drop %r' % (r, c, b[r, c], v[1], a[r, c], v[0])
    if s['op'] == 'demtool':
        try:
            visits = hydro.parcels(b, None, random.Random(1))[0]
        except hydro.Lost as e:
            return str(e)
        if (visits != array(x[3])).any():
            return 'accumulated flow is not that of the flow directions'
    return None


def shrink(case):
    if len(case['ops']) > 1:
        for i in range(len(case['ops'])):
            c = dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
            if case['mode'] == 'between':
                c['switch'] = case['switch'][:i] + case['switch'][i + 1:]
            yield c
    sw = case['switch']
    if case['mode'] == 'during':
        for i in range(len(sw)):
            yield dict(case, switch=sw[:i] + sw[i + 1:])
    else:
        for i in range(len(sw)):
            if sw[i]:
                yield dict(case, switch=sw[:i] + [sw[i][:-1]] + sw[i + 1:])
    if 'sched' in case:
        s = case['sched']
        for k in (len(s) // 2, len(s) - 1):
            if 1 <= k < len(s):
                yield dict(case, sched=s[:k])
        if len(s) < 25:
            for k in range(1, len(s)):
                yield dict(case, sched=s[:k] + s[k + 1:])
    if case['opcodes']:
        yield dict(case, opcodes=False)
    d0 = case['ops'][0]['dem']
    for d in core.shrink_dem(d0):
        yield dict(case, ops=[dict(x, dem=d) if x['dem'] == d0 else x for x in case['ops']])
