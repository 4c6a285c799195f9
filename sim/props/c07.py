"""C07: independent steps that run at the same time do not corrupt each other."""
import os
import random

import core
import kernel
import snap
import world
from props import c01, c02, c03, c06

ID = 'C07'
UNITS = {'quick': 72, 'thorough': 2600}
PER_UNIT = {'quick': 7, 'thorough': 20}
MODES = ['crash', 'crash', 'crash', 'fail', 'sticky', 'interrupt', 'shortw', 'nomem']
NOTE = ('Seeded search over interleavings, one file operation at a time, of two to four real processes that share a directory and a GeoPackage, some with a '
        'crash or fault in one of them. Samples schedules; only file operations and file locks are interleaved.')
RULE = ('A unit draws a scenario with up to two rain scenarios and a topological order of its steps. A case starts from the world after some of them, picks '
        'two to four steps that could run now, and runs them as processes interleaved by a seeded scheduler (uniform, bursts, priorities with changes, '
        'or one process held at a drawn operation), in a third of the cases with a fault in one. Distinct by operation logs plus schedule.')
MEASURE = 'sha256 over the operation logs of all processes and the scheduling decisions'
REAL, STUB = c01.REAL, c01.STUB + ['the operating system scheduler (one file operation at a time)']
ASSUMPTIONS = ['processes interact through the file system only, so that interleaving their file operations covers their interactions',
               'busy waiting of SQLite uses simulated time']


def order_of(scene, nscen, seed):
    rng = random.Random(seed)
    stages = c06.all_stages(scene, nscen)
    done, out, todo = set(), [], list(stages)
    while todo:
        ready = [s for s in todo if set(s.deps) <= done]
        s = rng.choice(ready)
        out.append(s)
        done.add(s.name)
        todo.remove(s)
    return out


def cases(rng, tier, ctx, u):
    scene = world.random_scene(rng, 4, 9)
    if rng.random() < 0.75:
        scene['fmt'] = 'gpkg'
    scene['vector'] = True
    nscen, oseed = rng.choice([0, 1, 2]), rng.randrange(1 << 30)
    base = dict(scene=scene, nscen=nscen, order=oseed)
    stages = order_of(scene, nscen, oseed)
    try:
        pf = ctx.prefix(scene, 'c07', stages)
    except core.Skip:
        yield dict(base, at=0, who=[], sched=dict(kind='uniform', seed=0))
        return
    for _ in range(PER_UNIT[tier]):
        for _try in range(20):
            at = rng.randrange(len(stages))
            have = {s.name for s in stages[:at]}
            ready = [i for i in range(at, len(stages)) if set(stages[i].deps) <= have]
            if len(ready) > 1:
                break
        else:
            continue
        # prefer those that share a file
        k = min(len(ready), rng.choice([2, 2, 2, 3, 4]))
        vec = [i for i in ready if stages[i].layers]
        pool = vec if len(vec) >= 2 and rng.random() < 0.75 else ready
        who = rng.sample(pool, min(k, len(pool)))
        c = dict(base, at=at, who=who, sched=gen_sched(rng, [pf.nops[i] for i in who]), fault=None)
        if rng.random() < 0.33:
            v = rng.randrange(len(who))
            c['fault'] = dict(core.gen_fault(rng, pf.kinds[who[v]], pf.written[who[v]], MODES), victim=v)
        yield c


def gen_sched(rng, nops):
    kind = rng.choice(['uniform', 'burst', 'burst', 'prio', 'hold', 'hold'])
    s = dict(kind=kind, seed=rng.randrange(1 << 30))
    if kind == 'burst':
        s['mean'] = rng.choice([3, 12, 50, 200])
    if kind == 'prio':
        s['changes'] = rng.randint(1, 6)
        s['span'] = sum(nops)
    if kind == 'hold':
        # one process stops in the middle while the others run to their ends
        s['victim'] = rng.randrange(len(nops))
        s['at'] = rng.randrange(nops[s['victim']] + 1)
        s['for'] = rng.choice([20, 200, 2000, 10 ** 6])
    return s


class Sched(object):
    def __init__(self, s, n):
        self.s, self.rng = s, random.Random(s['seed'])
        self.cur, self.left, self.t = None, 0, 0
        self.prio = list(range(n))
        self.rng.shuffle(self.prio)
        if s['kind'] == 'prio':
            self.when = sorted(self.rng.randrange(s['span'] + 1) for _ in range(s['changes']))
        self.steps = [0] * n
        self.held = 0

    def __call__(self, alive):
        self.t += 1
        k = self.s['kind']
        if k == 'uniform' or len(alive) == 1:
            i = self.rng.choice(alive)
        elif k == 'burst':
            if self.cur not in alive or self.left <= 0:
                self.cur = self.rng.choice(alive)
                self.left = int(self.rng.expovariate(1.0 / self.s['mean'])) + 1
            self.left -= 1
            i = self.cur
        elif k == 'prio':
            while self.when and self.when[0] <= self.t:
                self.when.pop(0)
                self.prio.append(self.prio.pop(0))
            i = next(p for p in self.prio if p in alive)
            # nobody may starve the others for good
            if self.rng.random() < 0.002:
                self.prio.append(self.prio.pop(self.prio.index(i)))
        else:
            v = self.s['victim']
            if v in alive and self.steps[v] < self.s['at']:
                i = v
            elif v in alive and self.held < self.s['for']:
                self.held += 1
                i = self.rng.choice([x for x in alive if x != v])
            else:
                i = self.rng.choice(alive)
        self.steps[i] += 1
        return i


def run(case, ctx):
    stages = order_of(case['scene'], case['nscen'], case['order'])
    pf = ctx.prefix(case['scene'], 'c07', stages)
    at, who = case['at'], case['who']
    if len(who) < 1:
        raise core.Skip('nothing to run')
    ctx.restore('p%d' % at)
    rep = core.Report()
    sts = [stages[i] for i in who]
    before_tree = snap.tree(ctx.data)
    dss = sorted({l.ds for s in sts for l in s.layers if l.fmt == 'gpkg'})
    before_layers = {d: c02.layer_state(os.path.join(ctx.data, d)) for d in dss}
    ctls = ctx.more_ctls(len(who))
    specs = []
    for k, s in enumerate(sts):
        kw = core.fault_kw(case['fault']) if case.get('fault') and case['fault']['victim'] == k else {}
        specs.append(kernel.Spec(kernel.run_cli(world.absolute(s.args, ctx.data)), ctx.root, ctx.err + str(k), rand=1 + k, **kw))
    sched = Sched(case['sched'], len(who))
    res, picks = kernel.run_interleaved(specs, ctls, sched)
    ctx.stats['decisions'] += len(picks)
    for r, c in zip(res, ctls):
        ctx.account(r, c)
    rep.runs = 1
    rep.keys.append(core.jhash([[c.digest() for c in ctls[:len(who)]], [r.outcome() for r in res], picks]))
    label = '+'.join(sorted(s.name.split('_')[0] for s in sts))
    for k, (s, r) in enumerate(zip(sts, res)):
        rep.trace.append('process %d: %s -> %s %s' % (k, s.name, r.outcome(), r.stderr[-160:] if r.outcome() == 'error' else ''))
    rep.trace += brief_picks(picks, ctls)
    # what no process may touch: treat all of them as one step
    both = world.Stage('+'.join(s.name for s in sts), [], [], [x for s in sts for x in s.rasters], [l for s in sts for l in s.layers])
    c02.judge(rep, ctx, both, before_tree, before_layers, all(r.outcome() == 'ok' for r in res), label)
    failed = []
    for k, (s, r) in enumerate(zip(sts, res)):
        if r.outcome() == 'stuck':
            rep.bad('stuck | %s' % label, '%s makes no progress' % s.name)
        if r.outcome() != 'ok':
            failed.append(k)
            ctx.stats['probe a process failed without a fault of its own'] += not (case.get('fault') and case['fault']['victim'] == k)
            continue
        ctx.stats['probe concurrent success'] += 1
        try:
            got = snap.outputs(s, ctx.data)
        except snap.Unreadable as e:
            rep.bad('lost output | %s' % label, '%s ended with exit code 0, afterwards %s' % (s.name, e))
            continue
        for n, w in pf.want[who[k]].items():
            d = snap.diff(w, got[n])
            if d:
                rep.bad('wrong output | %s' % label, '%s ended with exit code 0, but %s: %s' % (s.name, n, d))
                break
    if rep.violations:
        return rep
    # those that failed can be repeated once they are alone
    for k in failed:
        s = sts[k]
        others = {l.ds: bool(before_layers.get(l.ds)) or any(l.ds == m.ds for j, t in enumerate(sts) if j not in failed for m in t.layers) for l in s.layers}
        c03.remove_partial(ctx, s, rep, others, label)
        if rep.violations:
            return rep
        r = ctx.cli(s.args)
        ctx.stats['probe repeated alone'] += 1
        if r.outcome() != 'ok':
            rep.bad('cannot repeat | %s' % label, '%s fails when it is repeated alone: %s' % (s.name, r.stderr[-300:]))
            return rep
        c03.compare(rep, ctx, s, pf.want[who[k]], 'wrong repeated', label)
    return rep


def brief_picks(picks, ctls, limit=40):
    """the schedule as runs of one process each, with the last file operation of each run"""
    out, i = [], 0
    logs = [c.log() for c in ctls]
    pos = [0] * len(ctls)
    while i < len(picks):
        j = i
        while j < len(picks) and picks[j] == picks[i]:
            j += 1
        p = picks[i]
        pos[p] += j - i
        x = logs[p][min(pos[p], len(logs[p])) - 1] if logs[p] else None
        out.append('process %d: %d operations%s' % (p, j - i, ', last %s %s -> %d' % (x[0], x[1], x[2]) if x else ''))
        i = j
    return out[:limit]


def shrink(case):
    if case.get('fault'):
        yield dict(case, fault=None)
        for f in core.shrink_fault(case['fault']):
            yield dict(case, fault=f)
    for w in core.shrink_list(case['who'], 1):
        if len(w) < len(case['who']):
            for v in range(len(w)):
                c = dict(case, who=w, fault=None)
                if case['sched']['kind'] == 'hold':
                    yield dict(c, sched=dict(case['sched'], victim=v))
                else:
                    yield c
    if case['sched']['kind'] != 'hold':
        stages = order_of(case['scene'], case['nscen'], case['order'])
        for v in range(len(case['who'])):
            for a in (0, 1, 2, 4, 8, 16, 32, 64, 128, 256):
                yield dict(case, sched=dict(kind='hold', seed=0, victim=v, at=a, **{'for': 10 ** 6}))
    else:
        if case['sched']['at']:
            yield dict(case, sched=dict(case['sched'], at=case['sched']['at'] - 1))
    for s in core.shrink_scene(case['scene']):
        if s['accum'] == case['scene']['accum'] and s['vector'] == case['scene']['vector']:
            yield dict(case, scene=s)
