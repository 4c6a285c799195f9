"""C15: every drop of rain is accounted for exactly once, from rain to final depths."""
import os
import random
from fractions import Fraction

import numpy as np

import core
import hydro
import kernel
import mem
import ops
import snap
import world

ID = 'C15'
UNITS = {'quick': 700, 'thorough': 40000}
PER_UNIT = {'quick': 1, 'thorough': 1}
NOTE = ('Seeded search: every cell\'s rain walks the terrain cell by cell, in a drawn order and in drawn portions, and stays in the first bluespot that is not '
        'full. The real chain (tools on memory, or the commands as simulated processes with injected faults) must report the same volumes, account for all '
        'the rain and derive levels, depths and extents from them, for every scenario of a drawn history with failed and repeated scenarios. Samples terrains, '
        'rain, histories and schedules.')
RULE = ('A case is a terrain, a filter, a set of rain events (uniform, or rasters of several patterns, types and units), a history in which events fail, are '
        'abandoned, repeated and interleaved, and a schedule for the parcels. Distinct by terrain, history and every reported volume and level.')
MEASURE = 'terrain, history, schedule, all reported volumes, levels and depths.'
REAL = ['malstroem.rain', 'malstroem.network', 'malstroem.hyps', 'malstroem.approx', 'malstroem.bluespots', 'malstroem.streams', 'malstroem.dem',
        'malstroem.algorithms (compiled and plain)', 'all commands with GDAL, SQLite and libc (cli cases)']
STUB = ['readers and writers (in memory, tools cases)', 'disk, clock, randomness (cli cases)', 'the water (parcels)']
ASSUMPTIONS = ['no NaN in terrain and rain', 'zones of a rain raster are the watersheds', 'terrain fits float32', 'no negative rain']

RAINS = ['even', 'random', 'sparse', 'slope', 'cloud', 'none']
UNITS_OF = ['mm', 'l', 'm3']


def event(rng):
    if rng.random() < 0.45:
        return dict(do='mm', mm=rng.choice([0.5, 1, 5, 20, 60, 150.5, 1000, 20000, rng.choice([3e5, round(rng.uniform(0, 300), 3)])]))
    return dict(do='pr', kind=rng.choice(RAINS), unit=rng.choice(UNITS_OF), dtype=rng.choice(['float32', 'float32', 'float64', 'int32', 'uint8']),
                scale=rng.choice([1, 1, 10, 200]), seed=rng.randrange(1 << 20), holes=rng.random() < 0.25,
                zones='bluespots' if rng.random() < 0.06 else 'watersheds')


def cases(rng, tier, ctx, u):
    cli = u % 14 == 0
    for j in range(PER_UNIT[tier]):
        d = ops.terrain(rng, 4, 10) if cli else (ops.terrain(rng, 4, 8) if rng.random() < 0.3 else ops.terrain(rng, 7, 20))
        if u % 50 == 9:
            d = ops.large(rng)
        ev = [event(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        hist = []
        for i in rng.sample(range(len(ev)), len(ev)):
            hist.append(i)
        for _ in range(rng.choice([0, 1, 2])):
            hist.insert(rng.randrange(len(hist) + 1), rng.randrange(len(ev)))
        hist = [dict(ev=i, fault=None) for i in hist]
        for _ in range(rng.choice([0, 0, 1, 2])):
            hist.insert(rng.randrange(len(hist)), dict(ev=rng.randrange(len(ev)), fault=dict(
                at=rng.randrange(4), act=rng.choice(['fail', 'crash_before', 'crash_after', 'interrupt']), nth=rng.randint(0, 60), who=rng.randrange(6))))
        yield dict(mode='cli' if cli else 'tools', dem=d, zres=rng.choice([0.05, 0.25, 0.3, 0.5, 1.0, 2.0, 7.0]), accum=rng.random() < 0.5,
                   filter=rng.choice([None, None, None, ('maxdepth', 0.5), ('area', 1.5), ('volume', 2.0)]), events=ev, hist=hist,
                   fmt=rng.choice(['gpkg', 'gpkg', 'geojson', 'shp']), complete=rng.random() < 0.4, reuse=rng.random() < 0.4, sched=rng.randrange(1 << 30))


def rain_array(e, d):
    """(what a rain raster holds, its nodata value)"""
    R, C = len(d['z']), len(d['z'][0])
    rng = random.Random(e['seed'])
    k, s = e['kind'], e['scale']
    top = 255 if e['dtype'] == 'uint8' else 10 ** 9
    a = np.zeros((R, C))
    for r in range(R):
        for c in range(C):
            if k == 'even':
                v = s
            elif k == 'random':
                v = rng.uniform(0, 4 * s)
            elif k == 'sparse':
                v = rng.choice([0, 0, 0, 0, 0, 7 * s])
            elif k == 'slope':
                v = (r + 2 * c) * s / 10.0
            elif k == 'cloud':
                v = max(0, 10 - (r - R // 3) ** 2 - (c - C // 2) ** 2) * s
            else:
                v = 0
            a[r, c] = min(v, top - 1)
    a = a.astype(e['dtype'])
    nd = None
    if e['holes']:
        nd = {'float32': -9999.0, 'float64': -1e30, 'int32': -999, 'uint8': 255}[e['dtype']]
        for _ in range(rng.randint(1, 5)):
            a[rng.randrange(R), rng.randrange(C)] = nd
    return a, nd


def rain_m3(e, d):
    """rain per cell in m3"""
    area = d['cell'] ** 2
    if e['do'] == 'mm':
        return np.full((len(d['z']), len(d['z'][0])), e['mm'] * area * 0.001)
    a, nd = rain_array(e, d)
    a = a.astype(np.float64)
    if nd is not None:
        a[a == np.float64(np.array(nd, dtype=e['dtype']))] = 0
    return a * {'mm': 0.001 * area, 'l': 0.001, 'm3': 1.0}[e['unit']]


def filter_fn(f, area):
    if f is None:
        return None
    k, v = f
    v = v if k == 'maxdepth' else v * area
    k = {'maxdepth': 'max'}.get(k, k)
    return lambda s: s[k] > v


def filter_text(f, area):
    return None if f is None else '%s > %r' % (f[0], f[1] if f[0] == 'maxdepth' else f[1] * area)


# ---- the real chain on memory

class Fail(Exception):
    pass


def tools(case):
    from malstroem import approx, hyps, rain
    from malstroem.algorithms import speedups
    from malstroem.bluespots import BluespotTool
    from malstroem.dem import DemTool
    from malstroem.network import FinalStateCalculator
    from malstroem.streams import StreamTool
    rng = random.Random(case['sched'])

    def flip():
        speedups.enable() if rng.random() < 0.8 else speedups.disable()
    gt = world.transform(case['dem'])
    M, V = (lambda a=None: mem.Raster(a, gt)), mem.Vector
    dem, filled, fd, depths, accum, labels, ws = M(world.dem_values(case['dem'])), M(), M(), M(), M(), M(), M()
    pp, nodes, streams, hy = V(), V(), V(), V()
    flip()
    DemTool(dem, filled, fd, depths, accum).process()
    flip()
    BluespotTool(depths, fd, filter_fn(case['filter'], case['dem']['cell'] ** 2), labels, pp, ws, input_accum=accum if case['accum'] else None,
                 input_dem=None if case['accum'] else dem).process()
    flip()
    StreamTool(pp, labels, fd, nodes, streams).process()
    flip()
    hyps.bluespot_hypsometry_io(labels, dem, pp, case['zres'], hy)
    before = [x.data.copy() for x in (dem, labels, ws)] + [mem.plain(x.feats) for x in (nodes, hy)]
    made, out = {}, []

    def tripped(x):
        def hit():
            raise Fail()
        x.on_read = x.on_write = hit
    for h in case['hist']:
        e = case['events'][h['ev']]
        if h['ev'] not in made or not case['reuse']:
            iv, fv, lv, fdep, fbl = V(), V(), V(), M(), M()
            rd = dict(nodes=V(nodes.feats), ws=M((labels if e.get('zones') == 'bluespots' else ws).data), pr=None)
            if e['do'] == 'mm':
                t = rain.SimpleVolumeTool(rd['nodes'], iv, 'inputv', e['mm'])
            else:
                a, nd = rain_array(e, case['dem'])
                # what io.RasterReader makes of it
                if nd is not None:
                    a[a == np.array(nd, dtype=a.dtype)] = 0
                rd['pr'] = M(a)
                t = rain.RasterVolumeTool(rd['nodes'], rd['ws'], rd['pr'], getattr(rain.Unit, e['unit']), iv, 'inputv')
            made[h['ev']] = t, FinalStateCalculator(iv, 'inputv', fv), iv, fv, lv, fdep, fbl, rd
        t, fin, iv, fv, lv, fdep, fbl, rd = made[h['ev']]
        hyr, lab, dm = V(hy.feats), M(labels.data), M(dem.data)
        if h['fault']:
            tripped([x for x in (rd['nodes'], rd['ws'], rd['pr'], iv, fv, hyr, lab, dm, lv, fdep, fbl) if x is not None][(h['fault']['at'] * 3 + h['fault']['who']) % 10])
        done = False
        try:
            flip()
            t.process()
            flip()
            fin.process()
            flip()
            approx.approx_water_level_io(fv, hyr, lv)
            flip()
            approx.approx_bluespots_io(lab, lv, dm, fdep, fbl)
            done = True
        except Fail:
            pass
        for x in (rd['nodes'], rd['ws'], rd['pr'], iv, fv, hyr, lab, dm, lv, fdep, fbl):
            if x is not None:
                x.on_read = x.on_write = None
        if done:
            out.append((h['ev'], dict(iv=[dict(f['properties']) for f in iv.feats], fv=[dict(f['properties']) for f in fv.feats],
                                      lv=[dict(f['properties']) for f in lv.feats], depths=np.array(fdep.data), labels=np.array(fbl.data))))
            # callers own what they were given
            for x in (iv, fv, lv):
                for f in x.feats:
                    f['properties']['v'] = -1.0
            fdep.data[...] = -5
            iv.feats = fv.feats = lv.feats = None
    after = [x.data for x in (dem, labels, ws)] + [mem.plain(x.feats) for x in (nodes, hy)]
    for a, b in zip(before, after):
        if not (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b):
            raise AssertionError('an input was modified')
    return dict(filled=filled.data, fd=fd.data, lab=labels.data, ws=ws.data, pp=[f['properties'] for f in pp.feats], nodes=[f['properties'] for f in nodes.feats],
                hyps=[f['properties'] for f in hy.feats], runs=out)


# ---- the commands

def number(v):
    # CSV knows only text
    if isinstance(v, str):
        for t in (int, float):
            try:
                return t(v)
            except ValueError:
                pass
    return v


def commands(case, ctx, rep):
    d = case['dem']
    scene = dict(dem=d, mm=1, zres=case['zres'], accum=case['accum'], fmt=case['fmt'], vector=False, filter=filter_text(case['filter'], d['cell'] ** 2))
    world.lay_out(ctx.root, scene)
    keys = []

    def go(args, **kw):
        r = ctx.cli(args, **kw)
        keys.append(ctx.ctl.digest())
        ctx.stats['decisions'] += 1
        return r

    def must(st):
        r = go(st.args)
        if r.outcome() != 'ok':
            rep.bad('fails | %s' % st.name.split('_')[0], '%s: %s' % (st.name, r.stderr[-300:]))
            return None
        return snap.outputs(st, ctx.data)
    terrain = {}
    for st in world.chain(scene, suffix='@terrain'):
        o = must(st)
        if o is None:
            return None
        terrain.update(o)

    def layer(o, name):
        for k in o:
            if o[k]['kind'] == 'layer' and k.split('[')[1][:-1] == name:
                return [{n: number(v) for n, v in q.items()} for q in snap.props(o[k])]
        raise core.Skip('no layer ' + name)
    res = dict(filled=terrain['filled.tif']['data'], fd=terrain['flowdir.tif']['data'], lab=terrain['bluespots.tif']['data'],
               ws=terrain['watersheds.tif']['data'], pp=layer(terrain, 'pourpoints'), nodes=layer(terrain, 'nodes'), hyps=layer(terrain, 'hyps'), runs=[])
    for i, e in enumerate(case['events']):
        if e['do'] == 'pr':
            a, nd = rain_array(e, d)
            world.write_tif(os.path.join(ctx.data, 'rain%d.tif' % i), a, world.transform(d), nd)
    for k, h in enumerate(case['hist']):
        e = case['events'][h['ev']]
        rain = dict(mm=e['mm']) if e['do'] == 'mm' else dict(pr='rain%d.tif' % h['ev'], unit=e['unit'], zones=e['zones'] + '.tif')
        sfx = '_%d' % k
        out, dead = {}, False
        for i, st in enumerate(world.chain(scene, rain, suffix=sfx)):
            if st.name.startswith('polys'):
                continue
            if h['fault'] and h['fault']['at'] == i:
                kinds = kernel.MUTATING if h['fault']['act'] != 'interrupt' else (1 << len(kernel.K)) - 1
                r = go(st.args, plan=[dict(kinds=kinds, action=h['fault']['act'], nth=h['fault']['nth'], count=1, err=28)])
                rep.trace.append('%s: %s at %d -> %s' % (st.name, h['fault']['act'], h['fault']['nth'], r.outcome()))
                if r.outcome() != 'ok':
                    dead = True
                    break
                out.update(snap.outputs(st, ctx.data))
                continue
            o = must(st)
            if o is None:
                return None
            out.update(o)
        if dead:
            continue
        res['runs'].append((h['ev'], dict(iv=layer(out, 'initvolumes' + sfx), fv=layer(out, 'finalvolumes' + sfx), lv=layer(out, 'finallevels' + sfx),
                                          depths=out['finaldepths%s.tif' % sfx]['data'], labels=out['finalbluespots%s.tif' % sfx]['data'])))
    mms = [i for i, e in enumerate(case['events']) if e['do'] == 'mm']
    if case['complete'] and mms:
        sc = dict(scene, mm=case['events'][mms[0]]['mm'])
        os.mkdir(os.path.join(ctx.data, 'out'))
        o = must(world.complete_stage(sc))
        if o is None:
            return None
        res['complete'] = (mms[0], dict(iv=layer(o, 'initvolumes'), fv=layer(o, 'finalstate'), lv=layer(o, 'finallevels'),
                                        depths=o['out/finaldepths.tif']['data'], labels=o['out/finalbluespots.tif']['data']),
                           dict(lab=o['out/bluespots.tif']['data'], hyps=layer(o, 'hypsometry')))
    rep.runs += 1
    rep.keys.append(core.jhash(keys))
    return res


def run(case, ctx):
    rep = core.Report()
    if case['mode'] == 'tools':
        try:
            p = ctx.inproc(lambda: tools(case), rep, key=None)
        except core.Broken as e:
            rep.bad('fails', e.what)
            return rep
        rep.keys[-1] = core.jhash([case, [[x[1]['fv'], x[1]['lv']] for x in p['runs']]])
    else:
        try:
            p = commands(case, ctx, rep)
        except snap.Unreadable as e:
            rep.bad('unreadable', str(e))
            return rep
        if p is None:
            return rep
    check(case, p, rep, ctx)
    return rep


def flow(case, p, e, rng, ways, caps):
    """Portions of rain walk in drawn order; ({bluespot: water that stays}, {bluespot: water that leaves it}, water that runs off without meeting one)"""
    w = rain_m3(e, case['dem'])
    first, nextb = ways
    held = {b: Fraction(0) for b in caps}
    passed = {b: Fraction(0) for b in caps}
    off, steps = Fraction(0), 0
    moving = []
    R, C = w.shape
    for r in range(R):
        for c in range(C):
            v = Fraction(float(w[r, c]))
            if v:
                b = first[r][c]
                if rng.random() < 0.2:
                    f = Fraction(rng.randint(1, 9), 10)
                    moving.append([b, v * f])
                    v -= v * f
                moving.append([b, v])
    while moving:
        k = rng.randrange(len(moving))
        b, v = moving[k]
        steps += 1
        if b is None:
            off += v
        else:
            stay = min(v, caps[b] - held[b])
            held[b] += stay
            v -= stay
            if v:
                passed[b] += v
                if nextb[b] is not None:
                    moving[k] = [nextb[b], v]
                    continue
        moving[k] = moving[-1]
        moving.pop()
    return held, passed, off, steps


def close(a, b, scale, tol=1e-7):
    return a is not None and abs(float(a) - float(b)) <= tol * max(abs(float(b)), float(scale), 1e-12)


def check(case, p, rep, ctx):
    rng = random.Random(case['sched'] + 1)
    d = case['dem']
    dem = world.dem_values(d)
    area = d['cell'] ** 2
    lab = p['lab'].tolist()
    fd = p['fd'].tolist()
    R, C = dem.shape
    cells = {}
    for r in range(R):
        for c in range(C):
            if lab[r][c]:
                cells.setdefault(int(lab[r][c]), []).append((r, c))
    depth = p['filled'].astype(np.float64) - dem.astype(np.float64)
    caps = {b: Fraction(float(sum(float(np.float32(depth[x])) for x in xs) * area)) for b, xs in cells.items()}
    pps = {q['bspot_id']: q for q in p['pp']}
    if set(pps) != set(cells) | {0}:
        return rep.bad('pour points', 'pour points %s, bluespots %s' % (sorted(pps), sorted(cells)))
    try:
        first = [[None] * C for _ in range(R)]
        for r in range(R):
            for c in range(C):
                for x in hydro.walk(fd, (r, c)):
                    if lab[x[0]][x[1]]:
                        first[r][c] = int(lab[x[0]][x[1]])
                        break
        nextb = {}
        for b in cells:
            nextb[b] = None
            for x in hydro.walk(fd, (pps[b]['cell_row'], pps[b]['cell_col'])):
                if lab[x[0]][x[1]] not in (0, b):
                    nextb[b] = int(lab[x[0]][x[1]])
                    break
    except hydro.Lost as e:
        return rep.bad('flow', str(e))
    if not hyps(case, p['hyps'], cells, dem, rep):
        return
    seen, levels = {}, {}
    for i, out in p['runs']:
        e = case['events'][i]
        ctx.stats['probe scenario'] += 1
        if i in seen:
            ctx.stats['probe repeated scenario'] += 1
            for k in ('iv', 'fv', 'lv'):
                if out[k] != seen[i][k]:
                    return rep.bad('history', '%s of event %s differ from those of the same event before' % (k, e))
            for k in ('depths', 'labels'):
                if not np.array_equal(out[k], seen[i][k]):
                    return rep.bad('history', 'final %s of event %s differ from those of the same event before' % (k, e))
            continue
        seen[i] = out
        if not scenario(case, p, e, out, rep, ctx, rng, (first, nextb), caps, cells, dem, depth, levels):
            return
    if 'complete' in p:
        i, out, own = p['complete']
        if np.array_equal(own['lab'], p['lab']):
            scenario(case, dict(p, **own), case['events'][i], out, rep, ctx, rng, (first, nextb), caps, cells, dem, depth, {}, ' (complete)')


def hyps(case, hy, cells, dem, rep):
    by = {q['bspot_id']: q for q in hy}
    if set(by) != set(cells) | {0}:
        rep.bad('hypsometry', 'bluespots %s in hypsometry, %s in the raster' % (sorted(by), sorted(cells)))
        return False
    res = case['zres']
    for b, xs in cells.items():
        q = by[b]
        z = [float(dem[x]) for x in xs]
        if not close(q['zmin'], min(z), 1) or not close(q['zmax'], max(z), 1):
            rep.bad('hypsometry', 'bluespot %d spans %r to %r instead of %r to %r' % (b, q['zmin'], q['zmax'], min(z), max(z)))
            return False
        counts = [int(x) for x in str(q['hist_counts']).split('|')]
        if sum(counts) != len(z) or len(counts) != q['hist_num_bins']:
            rep.bad('hypsometry', 'bluespot %d: the histogram holds %d of %d cells' % (b, sum(counts), len(z)))
            return False
        # every cell in the bin it lies in; a cell on a border may be on either side
        lo = q['hist_lower_bound']
        tol = 1e-6 * max(abs(lo), abs(max(z)), res)
        below = 0
        for k, n in enumerate(counts):
            below += n
            edge = lo + (k + 1) * res
            if k + 1 < len(counts) and not sum(1 for v in z if v < edge - tol) <= below <= sum(1 for v in z if v <= edge + tol):
                rep.bad('hypsometry', 'bluespot %d: %d cells below %r, counted %d' % (b, sum(1 for v in z if v < edge), edge, below))
                return False
    return True


def scenario(case, p, e, out, rep, ctx, rng, ways, caps, cells, dem, depth, seen, where=''):
    asbs = e.get('zones') == 'bluespots'

    def bad(sig, msg):
        rep.bad(sig, '%s%s, event %s' % (msg, where, e))
        return False
    area = case['dem']['cell'] ** 2
    iv = {q['nodeid']: q for q in out['iv']}
    fv = {q['nodeid']: q for q in out['fv']}
    nodes = {q['nodeid'] for q in p['nodes']}
    if set(iv) != nodes or set(fv) != nodes or len(out['iv']) != len(nodes) or len(out['fv']) != len(nodes):
        return bad('nodes', 'nodes %s, with rain %s, at the end %s' % (sorted(nodes), sorted(iv), sorted(fv)))
    total = float(rain_m3(e, case['dem']).astype(np.float64).sum())
    s = sum(q['inputv'] for q in iv.values())
    if not close(s, total, 0):
        return bad('rain', '%r m3 of rain become %r m3 in the nodes' % (total, s))
    left = sum(q['spillv'] for q in fv.values() if q['dstrnodeid'] is None)
    kept = sum(q['v'] for q in fv.values())
    if not close(left + kept, total, 0):
        return bad('lost', '%r m3 of rain become %r m3 kept and %r m3 leaving' % (total, kept, left))
    held, passed, off, steps = flow(case, p, e, rng, ways, caps)
    ctx.stats['decisions'] += steps
    if asbs:
        for b in cells:
            # rain on the watershed, as documented for inputv
            own = sum(float(x) for x, y in zip(rain_m3(e, case['dem']).ravel(), p['ws'].ravel()) if y == b)
            if not close(iv[b]['inputv'], own, 0):
                rep.bad('bluespots as zones: rain on the rest of the watershed is lost to the bluespot',
                        'with -bluespots bluespots.tif, bluespot %d gets %r m3 of the %r m3 on its watershed, event %s' % (b, iv[b]['inputv'], own, e))
                break
        held = {b: Fraction(fv[b]['v']) for b in cells}
    for b in cells if not asbs else ():
        q = fv.get(b)
        if q is None or q['bspot_id'] != b:
            return bad('nodes', 'no node for bluespot %d' % b)
        if not close(q['v'], held[b], total * 1e-3) or not close(q['spillv'], passed[b], total * 1e-3):
            return bad('routing', 'bluespot %d keeps %r and spills %r, parcels: %r and %r' % (b, q['v'], q['spillv'], float(held[b]), float(passed[b])))
        if q['v'] > float(caps[b]) * (1 + 1e-7):
            return bad('routing', 'bluespot %d holds %r of at most %r' % (b, q['v'], float(caps[b])))
        if held[b] == caps[b]:
            ctx.stats['probe full'] += 1
        elif held[b] == 0:
            ctx.stats['probe dry'] += 1
        else:
            ctx.stats['probe part full'] += 1
    # water that never meets a bluespot belongs to node 0
    if not asbs and not close(fv[0]['v'] + fv[0]['spillv'] - sum(fv[n]['spillv'] for n in fv if fv[n]['dstrnodeid'] == 0), off, total):
        return bad('routing', 'node 0 gets %r, parcels: %r' % (fv[0]['v'] + fv[0]['spillv'], float(off)))
    lv = {q['bspot_id']: q for q in out['lv']}
    if set(lv) != set(cells) | {0} or len(out['lv']) != len(lv):
        return bad('levels', 'levels for %s, bluespots %s' % (sorted(lv), sorted(cells)))
    D, L = out['depths'], out['labels']
    if D.shape != dem.shape or L.shape != dem.shape:
        return bad('rasters', 'shapes %s and %s' % (D.shape, L.shape))
    wet = np.zeros(dem.shape, dtype=bool)
    for b, xs in cells.items():
        q = lv[b]
        z = np.array([float(dem[x]) for x in xs])
        zmin = float(z.min())
        dmax = max(float(depth[x]) for x in xs)
        full = zmin + dmax
        eps = 3e-6 * max(abs(zmin), abs(full), 1.0)
        lev = q['approx_z']
        if lev is None or not zmin - eps <= lev <= full + eps:
            return bad('levels', 'bluespot %d at level %r, terrain from %r, full at %r' % (b, lev, zmin, full))
        if abs(q['approx_dmax'] - (lev - zmin)) > eps:
            return bad('levels', 'bluespot %d: deepest water %r at level %r above %r' % (b, q['approx_dmax'], lev, zmin))
        v, cap = fv[b]['v'], float(caps[b])
        if v >= 0.99991 * cap and abs(lev - full) > eps:
            return bad('levels', 'bluespot %d is full and at level %r instead of %r' % (b, lev, full))
        if v < 0.9998 * cap and full - float(z.max()) > 4 * eps and lev > full - eps:
            return bad('levels', 'bluespot %d holds %r of %r m3 and is at its full level %r' % (b, v, cap, lev))
        if v == 0 and abs(lev - zmin) > eps:
            return bad('levels', 'bluespot %d is empty and at level %r instead of %r' % (b, lev, zmin))
        vol = float(np.maximum(lev - z, 0).sum()) * area
        slack = len(xs) * area * (2 * case['zres'] + eps + max(full - float(z.max()), 0))
        if abs(vol - v) > slack:
            return bad('levels', 'bluespot %d holds %r m3, but %r m3 at its level (resolution gives %r)' % (b, v, vol, slack))
        for v2, lev2 in seen.setdefault(b, []):
            if (v2 - v) * (lev2 - lev) < 0 and abs(v2 - v) > 1e-6 * cap and abs(lev2 - lev) > eps:
                return bad('levels', 'bluespot %d is at %r with %r m3 and at %r with %r m3' % (b, lev, v, lev2, v2))
        seen[b].append((v, lev))
        ctx.stats['probe level'] += 1
        for x in xs:
            wet[x] = True
            want = max(lev - float(dem[x]), 0)
            if abs(float(D[x]) - want) > eps:
                return bad('rasters', 'depth %r at %s, level %r above %r' % (float(D[x]), x, lev, float(dem[x])))
            if L[x] not in (0, b):
                return bad('rasters', 'cell %s of bluespot %d is labelled %r' % (x, b, L[x].item()))
            if (D[x] > 0 and L[x] != b) or (L[x] == b and lev < float(dem[x]) - eps):
                return bad('rasters', 'cell %s of bluespot %d: depth %r, label %r' % (x, b, float(D[x]), L[x].item()))
            if float(D[x]) > float(depth[x]) + eps:
                return bad('rasters', 'cell %s is %r deep, %r when full' % (x, float(D[x]), float(depth[x])))
    if (D[~wet] != 0).any() or (L[~wet] != 0).any():
        return bad('rasters', 'water outside the bluespots')
    return True


def shrink(case):
    for i in range(len(case['hist']) - 1, -1, -1):
        if len(case['hist']) > 1:
            yield dict(case, hist=case['hist'][:i] + case['hist'][i + 1:])
    for d in core.shrink_dem(case['dem']):
        yield dict(case, dem=d)
    for k, v in (('filter', None), ('accum', True), ('complete', False), ('reuse', False), ('fmt', 'gpkg'), ('zres', 1.0)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for i, e in enumerate(case['events']):
        if e['do'] == 'pr':
            for k, v in (('zones', 'watersheds'), ('holes', False), ('kind', 'even'), ('dtype', 'float32'), ('unit', 'mm'), ('scale', 1)):
                if e[k] != v:
                    yield dict(case, events=case['events'][:i] + [dict(e, **{k: v})] + case['events'][i + 1:])
