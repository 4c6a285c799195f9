"""C06: any order of the steps that respects their inputs gives the same results, and those of complete."""
import os

import core
import snap
import world
from props import c01

ID = 'C06'
UNITS = {'quick': 36, 'thorough': 4000}
PER_UNIT = {'quick': 3, 'thorough': 8}
NOTE = ('Seeded search over linear extensions of the step graph with one to three rain scenarios and repeated raster steps, each step a simulated '
        'process; compared with the documented order and with complete. Samples terrains and orders.')
RULE = ('A unit draws a scenario, runs the documented order and complete as references, then runs drawn topological orders of all steps of one to three '
        'rain scenarios, with raster steps repeated at drawn positions, and compares every output. Distinct by the sequence of operation logs.')
MEASURE = 'sha256 over the sequence of steps and the operation log of each'
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = ['steps of one order run one after the other (C07 lets them overlap)']

RAINS = [dict(mm=3), dict(mm=45.5), dict(mm=400)]
# what complete calls the outputs of single commands
SAME = {'filled.tif': 'filled.tif', 'flowdir.tif': 'flowdir.tif', 'bs_depths.tif': 'bs_depths.tif', 'watersheds.tif': 'watersheds.tif',
        'bluespots.tif': 'bluespots.tif', 'accum.tif': 'accum.tif', 'finaldepths.tif': 'finaldepths.tif', 'finalbluespots.tif': 'finalbluespots.tif'}
SAMEL = {'pourpoints': 'pourpoints', 'nodes': 'nodes', 'streams': 'streams', 'initvolumes': 'initvolumes', 'finalvolumes': 'finalstate',
         'hyps': 'hypsometry', 'finallevels': 'finallevels', 'finalpolys': 'finalbluespots', 'bspolys': 'bluespots', 'wspolys': 'watersheds'}


def all_stages(scene, nscen):
    st = world.chain(scene)
    for k in range(nscen):
        st += world.chain(scene, RAINS[k], suffix='_%d' % k)
    return st


def cases(rng, tier, ctx, u):
    scene = world.random_scene(rng, 4, 12)
    if rng.random() < 0.5:
        scene['fmt'] = 'gpkg'
    for j in range(PER_UNIT[tier]):
        n = rng.choice([0, 0, 1, 2, 3])
        stages = all_stages(scene, n)
        style = rng.choice(['uniform', 'uniform', 'late', 'dfs'])
        todo = {s.name: s for s in stages}
        done, order, last = set(), [], None
        while todo:
            ready = sorted(x for x in todo if set(todo[x].deps) <= done)
            if style == 'late':
                # what the documentation puts last as early as possible
                idx = {s.name: i for i, s in enumerate(stages)}
                x = max(ready, key=lambda y: (idx[y], y)) if rng.random() < 0.8 else rng.choice(ready)
            elif style == 'dfs':
                nxt = [y for y in ready if last in todo[y].deps]
                x = rng.choice(nxt or ready)
            else:
                x = rng.choice(ready)
            last = x
            order.append(x)
            done.add(x)
            del todo[x]
            rep = [s.name for s in stages if s.rasters and s.name in done]
            while rep and rng.random() < 0.12:
                order.append(rng.choice(rep))
        yield dict(scene=scene, nscen=n, order=order)


def reference(ctx, scene):
    cache = ctx.__dict__.setdefault('_c06', {})
    key = core.jhash(scene)
    if key not in cache:
        cache.clear()
        stages = all_stages(scene, len(RAINS))
        world.lay_out(ctx.root, scene)
        want = {}
        for s in stages:
            r = ctx.cli(s.args)
            if r.outcome() != 'ok':
                raise core.Skip('documented order fails at %s: %s' % (s.name, r.stderr[-200:]))
            try:
                want[s.name] = snap.outputs(s, ctx.data)
            except snap.Unreadable as e:
                raise core.Skip('documented order, %s: %s' % (s.name, e))
        comp = None
        st = world.complete_stage(scene)
        os.mkdir(os.path.join(ctx.data, 'out'))
        r = ctx.cli(st.args)
        if r.outcome() == 'ok':
            comp = snap.outputs(st, ctx.data)
        cache[key] = want, comp, r.stderr[-300:]
    return cache[key]


def run(case, ctx):
    want, comp, err = reference(ctx, case['scene'])
    rep = core.Report()
    if comp is None:
        rep.bad('complete fails', 'the single commands succeed, complete fails: %s' % err)
        return rep
    stages = {s.name: s for s in all_stages(case['scene'], case['nscen'])}
    world.lay_out(ctx.root, case['scene'])
    keys = []
    for i, n in enumerate(case['order']):
        if n not in stages:
            raise core.Skip('order does not fit')
        s = stages[n]
        r = ctx.cli(s.args)
        ctx.stats['decisions'] += 1
        keys.append(n + ctx.ctl.digest())
        rep.trace.append('%d: %s -> %s' % (i, n, r.outcome()))
        if r.outcome() != 'ok':
            rep.bad('fails | %s' % n.split('_')[0], '%s fails in this order: %s' % (n, r.stderr[-300:]))
            return rep
    rep.runs = 1
    rep.keys.append(core.jhash(keys))
    final = {}
    for n in dict.fromkeys(case['order']):
        s = stages[n]
        try:
            got = snap.outputs(s, ctx.data)
        except snap.Unreadable as e:
            rep.bad('lost | %s' % n.split('_')[0], '%s: %s' % (n, e))
            return rep
        for k in want[n]:
            d = snap.diff(want[n][k], got[k])
            if d:
                rep.bad('order | %s' % n.split('_')[0], '%s differs from the documented order: %s' % (k, d))
                return rep
        final.update(got)
    # against complete; the other formats keep 15 digits, so what is calculated from their layers may differ in the last one
    exact = case['scene']['fmt'] == 'gpkg'
    for k, v in sorted(final.items()):
        if v['kind'] == 'raster':
            c = comp.get('out/' + SAME[k]) if k in SAME else None
            if c is None or (k.startswith('final') and not exact):
                continue
            if v['data'].shape != c['data'].shape or v['gt'] != c['gt'] or v['crs'] != c['crs'] or not (v['data'] == c['data']).all():
                rep.bad('complete | %s' % k, '%s differs from that of complete' % k)
        else:
            name = k.split('[')[1][:-1]
            c = comp.get('out/malstroem.gpkg[%s]' % SAMEL[name]) if name in SAMEL else None
            if c is None or not exact:
                continue
            w, g = c, v
            if not g['feats'] and not w['feats']:
                continue
            d = snap.diff(dict(w, geom=0), dict(g, geom=0))
            if d:
                rep.bad('complete | %s' % name, '%s differs from %s of complete: %s' % (k, SAMEL[name], d))
        ctx.stats['probe compared with complete'] += 1
    return rep


def shrink(case):
    # leave out steps nothing depends on, and repetitions
    stages = {s.name: s for s in all_stages(case['scene'], case['nscen'])}
    o = case['order']
    for i in range(len(o) - 1, -1, -1):
        rest = o[:i] + o[i + 1:]
        if o[i] in rest[:i] or not any(o[i] in stages[x].deps for x in rest):
            yield dict(case, order=rest)
    for s in core.shrink_scene(case['scene']):
        if s['accum'] == case['scene']['accum'] and s['vector'] == case['scene']['vector']:
            yield dict(case, scene=s)
