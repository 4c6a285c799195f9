"""C13: spill routing is independent of order and history, and loses no water."""
import random
import sys
from fractions import Fraction

import core
import mem

ID = 'C13'
UNITS = {'quick': 500, 'thorough': 60000}
PER_UNIT = {'quick': 4, 'thorough': 6}
NOTE = ('Seeded search: forests with drawn capacities and volumes; water moves as single parcels (or exact fractions) downstream in a drawn order, and every '
        'rain event of a drawn history of node additions, failing and interrupted events on one Network must give the same state. Samples forests, orders and histories.')
RULE = ('A case is a forest, a history (batches of nodes in drawn order, rain events for several volume attributes, events that fail or are interrupted '
        'at a drawn line) and a parcel schedule. Distinct by forest, history and resulting state.')
MEASURE = 'forest, history, parcel schedule and every reported node state.'
REAL = ['malstroem.network (Network, FinalStateCalculator)']
STUB = ['readers and writers (in memory)', 'the rain (parcels)']
ASSUMPTIONS = ['nodes form a forest: ids are unique and every downstream id is a node or None']


def cases(rng, tier, ctx, u):
    for j in range(PER_UNIT[tier]):
        kind = rng.choice(['random', 'random', 'deep', 'wide', 'real', 'tiny'])
        n = {'random': rng.randint(2, 25), 'deep': rng.choice([60, 400, 3000]), 'wide': rng.randint(5, 40), 'real': rng.randint(2, 20), 'tiny': rng.randint(1, 3)}[kind]
        ids = rng.sample(range(0, 4 * n + 5), n)
        if rng.random() < 0.3:
            ids.sort()
        parent = [None]
        # a chain can be longer than python's stack is deep
        chain = rng.choice([0.97, 0.9999])
        for i in range(1, n):
            if kind == 'deep' and rng.random() < chain:
                parent.append(i - 1)
            elif kind == 'wide':
                parent.append(rng.choice([0, 0, 0, rng.randrange(i)]))
            else:
                parent.append(None if rng.random() < 0.2 else rng.randrange(i))
        exact = kind != 'real'
        scale = rng.choice([1.0, 0.25, 1024.0, 2.0 ** -10])
        few = kind == 'deep'
        nodes = []
        for i in range(n):
            junction = rng.random() < 0.2
            node = dict(id=ids[i], down=None if parent[i] is None else ids[parent[i]], cap=0 if junction else rng.choice([0, 1, 2, 3, 5, 9, 20]))
            for a in ('va', 'vb'):
                if few:
                    node[a] = rng.choice([0] * 60 + [1, 2, 4])
                else:
                    node[a] = 0 if junction else rng.choice([0, 0, 1, 2, 4, 7, 15])
            if not exact:
                node['cap'] = 0 if junction else rng.choice([0.0, rng.uniform(0, 10), rng.uniform(0, 1e-3), rng.uniform(0, 1e6)])
                node['va'], node['vb'] = rng.uniform(0, 20), rng.choice([0.0, rng.uniform(0, 1e6)])
            if few:
                node['cap'] = rng.choice([0] * 20 + [1, 2])
            nodes.append(node)
        order = list(range(n))
        rng.shuffle(order)
        hist, at = [], 0
        while at < n:
            k = rng.randint(1, n - at)
            hist.append(dict(do='add', nodes=order[at:at + k]))
            at += k
            for _ in range(rng.choice([0, 0, 1, 2])):
                hist.append(event(rng))
        for _ in range(rng.randint(1, 4)):
            hist.append(event(rng))
        hist.append(dict(do='rain', attr=rng.choice(['va', 'vb'])))
        yield dict(nodes=nodes, exact=exact, scale=scale if exact else 1.0, hist=hist, sched=rng.randrange(1 << 30))


def event(rng):
    return dict(do=rng.choice(['rain', 'rain', 'rain', 'tool', 'fail', 'interrupt']), attr=rng.choice(['va', 'vb']), at=rng.randint(0, 400))


def node_dict(x, s):
    return dict(nodeid=x['id'], dstrnodeid=x['down'], bspot_vol=x['cap'] * s, wshed_area=1.0, va=x['va'] * s, vb=x['vb'] * s,
                nodetype='pourpoint' if x['cap'] else 'junction')


def parcels(nodes, attr, rng, exact):
    """water moves downstream in random order; {id: (held, passed on)} in units"""
    ids = {x['id'] for x in nodes}
    down = {x['id']: x['down'] for x in nodes}
    cap = {x['id']: x['cap'] for x in nodes}
    # trees whose root is not there yet are not part of an event
    ok = {}

    def reach(i):
        path = []
        while i is not None and i in ids and i not in ok:
            path.append(i)
            i = down[i]
        r = i is None or ok.get(i, False)
        for p in path:
            ok[p] = r
    for i in ids:
        reach(i)
    live = [x for x in nodes if ok[x['id']]]
    held = {x['id']: 0 for x in live}
    passed = {x['id']: 0 for x in live}
    steps = 0
    if exact:
        moving = [x['id'] for x in live for _ in range(int(x[attr]))]
        while moving:
            k = rng.randrange(len(moving))
            i = moving[k]
            steps += 1
            if held[i] < cap[i]:
                held[i] += 1
                nxt = None
            else:
                passed[i] += 1
                nxt = down[i]
            if nxt is None:
                moving[k] = moving[-1]
                moving.pop()
            else:
                moving[k] = nxt
    else:
        water = {x['id']: Fraction(x[attr]) for x in live}
        todo = [i for i in water if water[i]]
        while todo:
            steps += 1
            k = rng.randrange(len(todo))
            i = todo[k]
            w = water[i]
            # a drawn part of the water moves at a time
            if rng.random() < 0.3 and steps < 20000:
                w = w * rng.randint(1, 7) / 8
            water[i] -= w
            stay = min(w, max(Fraction(cap[i]) - held[i], 0))
            held[i] += stay
            go = w - stay
            passed[i] += go
            if not water[i]:
                todo[k] = todo[-1]
                todo.pop()
            if go and down[i] is not None:
                if not water[down[i]]:
                    todo.append(down[i])
                water[down[i]] += go
    return held, passed, steps


def body(case):
    from malstroem.network import FinalStateCalculator, Network
    net = Network()
    given = {}
    s = case['scale']
    out = []

    class Stop(BaseException):
        pass

    for k, h in enumerate(case['hist']):
        if h['do'] == 'add':
            batch = [node_dict(case['nodes'][i], s) for i in h['nodes']]
            for b in batch:
                given[b['nodeid']] = dict(b)
            net.add_nodes(batch)
        elif h['do'] == 'rain':
            out.append((k, [dict(e) for e in net.rain_event(h['attr'])]))
        elif h['do'] == 'tool':
            feats = [dict(type='Feature', id=b['nodeid'], geometry=None, properties=dict(b)) for b in given.values()]
            rd, wr = mem.Vector(feats, lambda n: random.Random(h['at']).sample(range(n), n)), mem.Vector()
            FinalStateCalculator(rd, h['attr'], wr).process()
            out.append((k, [f['properties'] for f in wr.feats if 'v' in f['properties']]))
            if sorted(f['properties']['nodeid'] for f in wr.feats) != sorted(given):
                out.append((k, 'tool changed the set of nodes'))
        elif h['do'] == 'fail':
            try:
                net.rain_event('no such attribute')
            except Exception:
                pass
        else:
            left = [h['at']]

            def trace(frame, ev, arg):
                if 'network.py' not in frame.f_code.co_filename:
                    return None
                left[0] -= 1
                if left[0] == 0:
                    raise Stop()
                return trace
            sys.settrace(trace)
            try:
                net.rain_event(h['attr'])
            except Stop:
                pass
            finally:
                sys.settrace(None)
        now = {n['nodeid']: {a: n.get(a) for a in ('nodeid', 'dstrnodeid', 'bspot_vol', 'wshed_area', 'va', 'vb', 'nodetype')} for n in net.nodes}
        if now != given:
            out.append((k, 'nodes were modified'))
    return out


def close(a, b, exact):
    if exact:
        return a == b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-6)


def run(case, ctx):
    rep = core.Report()
    try:
        out = ctx.inproc(lambda: body(case), rep, key=[case])
    except core.Broken as e:
        rep.bad('fails', e.what)
        return rep
    s = case['scale']
    rng = random.Random(case['sched'])
    present = []
    got = {}
    for k, ev in out:
        got.setdefault(k, []).append(ev)
    steps = 0
    for k, h in enumerate(case['hist']):
        if h['do'] == 'add':
            present += [case['nodes'][i] for i in h['nodes']]
        for ev in got.get(k, []):
            if isinstance(ev, str):
                rep.bad(ev, 'event %d (%s): %s' % (k, h['do'], ev))
                continue
            held, passed, st = parcels(present, h['attr'], rng, case['exact'])
            steps += st
            ids = [e['nodeid'] for e in ev]
            if sorted(ids) != sorted(held):
                rep.bad('nodes', 'event %d reports nodes %s instead of %s' % (k, sorted(ids)[:12], sorted(held)[:12]))
                continue
            cap = {x['id']: x['cap'] for x in present}
            rain = {x['id']: x[h['attr']] for x in present}
            down = {x['id']: x['down'] for x in present}
            for e in ev:
                i = e['nodeid']
                for name, want in (('v', float(held[i] * s) if case['exact'] else float(held[i])), ('spillv', float(passed[i] * s) if case['exact'] else float(passed[i])),
                                   (h['attr'], rain[i] * s)):
                    if not close(e[name], want, case['exact']):
                        rep.bad('wrong ' + ('volume' if name not in ('v', 'spillv') else name), 'event %d (%s), node %s: %s is %r, parcels give %r' % (k, h['do'], i, name, e[name], want))
                        break
                p = e.get('pctv')
                if (p is None) != (not cap[i]):
                    rep.bad('wrong pctv', 'event %d, node %s: pctv is %r with capacity %r' % (k, i, p, cap[i] * s))
                elif p is not None and not (abs(p - 100.0 * float(held[i]) / float(cap[i])) <= 1e-6):
                    rep.bad('wrong pctv', 'event %d, node %s: pctv is %r' % (k, i, p))
                if rep.violations:
                    break
            total = sum(rain[i] * s for i in held)
            kept = sum(e['v'] for e in ev)
            left = sum(e['spillv'] for e in ev if down[e['nodeid']] is None)
            if not close(total, kept + left, case['exact']) and not rep.violations:
                rep.bad('lost water', 'event %d: %r in, %r held, %r left the roots' % (k, total, kept, left))
            if rep.violations:
                return rep
    ctx.stats['decisions'] += steps
    ctx.stats['fault failing event'] += sum(h['do'] == 'fail' for h in case['hist'])
    ctx.stats['fault interrupted event'] += sum(h['do'] == 'interrupt' for h in case['hist'])
    return rep


def shrink(case):
    for h in core.shrink_list(case['hist'], 1):
        have = {i for x in h if x['do'] == 'add' for i in x['nodes']}
        if have and h[-1]['do'] in ('rain', 'tool'):
            yield dict(case, hist=h)
    for keep in core.shrink_list(list(range(len(case['nodes']))), 1):
        idx = {o: n for n, o in enumerate(keep)}
        ids = {case['nodes'][o]['id'] for o in keep}
        nodes = [dict(case['nodes'][o], down=case['nodes'][o]['down'] if case['nodes'][o]['down'] in ids else None) for o in keep]
        hist = [dict(h, nodes=[idx[i] for i in h['nodes'] if i in idx]) if h['do'] == 'add' else h for h in case['hist']]
        yield dict(case, nodes=nodes, hist=hist)
    for i, x in enumerate(case['nodes']):
        for a in ('va', 'vb', 'cap'):
            if x[a]:
                yield dict(case, nodes=case['nodes'][:i] + [dict(x, **{a: 0})] + case['nodes'][i + 1:])
