"""C14: terrain products agree with water moving over the terrain in any order."""
import random

import numpy as np

import core
import hydro
import mem
import ops
import world

ID = 'C14'
UNITS = {'quick': 2400, 'thorough': 150000}
PER_UNIT = {'quick': 1, 'thorough': 1}
NOTE = ('Seeded search: water parcels that move one cell at a time in a drawn order, and water levels that sink in a drawn order until nothing changes, '
        'are the oracle for every terrain product of the real tools, accelerated or plain. Samples terrains (mostly up to 26 x 26 cells, some with tens of thousands of bluespots, some long and narrow) and schedules.')
RULE = ('A case is a terrain, a filter, the choice of implementation and input (accumulated flow or DEM) and a schedule for relaxation and parcels. '
        'Distinct by terrain and all products.')
MEASURE = 'terrain, options, schedule and all products.'
REAL = ['malstroem.dem.DemTool', 'malstroem.bluespots.BluespotTool', 'malstroem.streams.StreamTool', 'malstroem.algorithms (compiled and plain)']
STUB = ['readers and writers (in memory)', 'the water (parcels, relaxation)']
ASSUMPTIONS = ['square cells', 'no NaN in the terrain', 'terrain fits float32']

FILTERS = [None, None, ('maxdepth', 0.5), ('maxdepth', 2.0), ('area', 1.5), ('area', 3.5), ('volume', 2.0), ('volume', 5.0), ('area', 1e9)]


def cases(rng, tier, ctx, u):
    for j in range(PER_UNIT[tier]):
        x = rng.random()
        if x < 0.08:
            d = world.random_dem(rng, 2, 4)
        elif x < 0.6:
            d = world.random_dem(rng, 5, 14)
        else:
            d = world.random_dem(rng, 12, 26)
        if rng.random() < 0.12 and len(d['z']) > 3 and len(d['z'][0]) > 3:
            d = ops.wild(rng, d)
        if u == 3:
            # more bluespots than 15 bits can count
            d = world.many_dem(rng, 366, 372, 2)
        elif u == 4:
            # more cells upstream than 16 bits can count
            d = world.valley_dem(rng)
        elif u % 400 == 40:
            d = world.many_dem(rng, 30, 110)
        elif u % 100 == 7:
            # long and narrow
            d = world.random_dem(rng, 3, 6, wide=rng.choice([150, 400, 1200]))
        elif u % 100 == 33:
            d = ops.wild(rng, world.random_dem(rng, 5, 12, wide=rng.choice([60, 150, 400])), 'meander') if rng.random() < 0.8 else ops.wild(rng, world.random_dem(rng, 30, 50), 'spiral')
        if u in (3, 4) and tier == 'quick':
            yield dict(dem=d, filter=None, fast=True, accum=True, streams=True, sched=rng.randrange(1 << 30))
            continue
        yield dict(dem=d, filter=rng.choice(FILTERS), fast=rng.random() < 0.5, accum=rng.random() < 0.6, streams=rng.random() < 0.7, sched=rng.randrange(1 << 30))


def filter_fn(f, area):
    """(the library's filter function, the simulator's own)"""
    if f is None:
        return None, lambda depths: True
    k, v = f
    if k == 'maxdepth':
        return (lambda s: s['max'] > v), lambda d: max(d) > v
    if k == 'area':
        return (lambda s: s['area'] > v * area), lambda d: len(d) * area > v * area
    return (lambda s: s['volume'] > v * area), lambda d: float(sum(d)) * area > v * area


def products(case):
    """all products of the real tools, run on memory"""
    from malstroem.algorithms import fill, net, speedups
    from malstroem.bluespots import BluespotTool
    from malstroem.dem import DemTool
    from malstroem.streams import StreamTool
    speedups.enable() if case['fast'] else speedups.disable()
    dem = world.dem_values(case['dem'])
    gt = world.transform(case['dem'])
    area = case['dem']['cell'] ** 2
    M = lambda a=None: mem.Raster(a, gt)
    filled, fd, depths, accum = M(), M(), M(), M()
    DemTool(M(dem), filled, fd, depths, accum).process()
    labels, ws, pp = M(), M(), mem.Vector()
    f = filter_fn(case['filter'], area)[0]
    BluespotTool(depths, fd, f, labels, pp, ws, input_accum=accum if case['accum'] else None, input_dem=None if case['accum'] else M(dem)).process()
    nodes, streams = mem.Vector(), mem.Vector()
    StreamTool(pp, labels, fd, nodes, streams if case['streams'] else None).process()
    short, diag = fill.minimum_safe_short_and_diag(dem)
    nf = fill.fill_terrain_no_flats(dem, short, diag)
    plainnet = net.pourpoint_network(fd.read(), labels.read(), [(f['properties']['cell_row'], f['properties']['cell_col']) for f in pp.feats], 0)
    return dict(filled=filled.data, flowdir=fd.data, depths=depths.data, accum=accum.data, labels=labels.data, ws=ws.data, pp=pp.feats, nodes=nodes.feats,
                streams=streams.feats, nf=nf, short=float(short), diag=float(diag), net=mem.plain(plainnet))


def run(case, ctx):
    rep = core.Report()
    try:
        p = ctx.inproc(lambda: products(case), rep, key=None)
    except core.Broken as e:
        rep.bad('fails', e.what)
        return rep
    rep.keys[-1] = core.jhash([case, [p[k].tolist() if hasattr(p[k], 'tolist') else p[k] for k in sorted(p)]])
    check(case, p, rep, ctx)
    return rep


def first_diff(a, b):
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (b.shape, a.shape)
    bad = np.argwhere(a != b)
    if not len(bad):
        return None
    r, c = bad[0]
    return '%d cells differ, first (%d,%d): %r instead of %r' % (len(bad), r, c, b[r, c].item(), a[r, c].item())


def check(case, p, rep, ctx):
    rng = random.Random(case['sched'])
    dem = world.dem_values(case['dem'])
    R, C = dem.shape
    area = case['dem']['cell'] ** 2
    if p['filled'].dtype != np.float32 or p['depths'].dtype != np.float32:
        rep.bad('type', 'filled and depths are %s and %s' % (p['filled'].dtype, p['depths'].dtype))
    big = R * C > 20000
    level, n1 = hydro.relax_at_once(dem) if big else hydro.relax(dem, rng)
    d = first_diff(level, p['filled'])
    if d:
        return rep.bad('filled', 'water comes to rest at another level: ' + d)
    d = first_diff(level - dem, p['depths'])
    if d:
        return rep.bad('depths', d)
    nf, n2 = hydro.relax_at_once(dem, p['short'], p['diag']) if big else hydro.relax(dem, rng, p['short'], p['diag'])
    d = first_diff(nf, p['nf'])
    if d:
        return rep.bad('no flats', d)
    fd = p['flowdir']
    # each cell flows along the steepest way down
    fdl = fd.tolist()
    for r in range(R):
        for c in range(C):
            if r in (0, R - 1) or c in (0, C - 1):
                nxt = hydro.step(fdl, (r, c))
                if nxt is None or hydro.inside((R, C), nxt):
                    return rep.bad('flowdir', 'edge cell (%d,%d) does not drain off the raster' % (r, c))
                continue
            drop = [(nf[r, c] - nf[r + a, c + b]) / (2 ** 0.5 if i % 2 else 1.0) for i, (a, b) in enumerate(hydro.DELTA)]
            best = max(drop)
            k = int(fdl[r][c])
            if not 0 <= k < 8 or drop[k] < best - abs(best) * 1e-12 or drop[k] <= 0:
                return rep.bad('flowdir', 'cell (%d,%d) flows %s, drops are %s' % (r, c, k, drop))
    labels = p['labels']
    try:
        visits, first, n3 = hydro.parcels_at_once(fd, labels) if big else hydro.parcels(fd, labels, rng)
    except hydro.Lost as e:
        return rep.bad('drains', str(e))
    ctx.stats['decisions'] += n1 + n2 + n3
    d = first_diff(visits.astype(float), p['accum'].astype(float))
    if d:
        return rep.bad('accum', 'parcels counted per cell: ' + d)
    # bluespots: standing water, filtered
    raw = hydro.components(p['depths'] > 0, rng)
    keep = filter_fn(case['filter'], area)[1]
    want = {s for s in raw if keep([p['depths'][x].item() for x in s])}
    got = {}
    for r in range(R):
        for c in range(C):
            if labels[r, c]:
                got.setdefault(int(labels[r, c]), set()).add((r, c))
    if {frozenset(v) for v in got.values()} != want or sorted(got) != list(range(1, len(want) + 1)):
        return rep.bad('bluespots', 'labels %s with %d bluespots instead of %d' % (sorted(got)[:10], len(got), len(want)))
    ctx.stats['probe bluespots'] += len(got)
    for s in raw:
        if len({level[x].item() for x in s}) != 1:
            return rep.bad('surface', 'a bluespot is not level')
    d = first_diff(first, p['ws'].astype(np.int64))
    if d:
        return rep.bad('watersheds', 'first bluespot a parcel meets: ' + d)
    # pour points
    pps = {f['properties']['bspot_id']: f for f in p['pp']}
    if sorted(pps) != list(range(0, len(got) + 1)) or len(p['pp']) != len(pps):
        return rep.bad('pour points', 'pour points %s for %d bluespots' % (sorted(pps), len(got)))
    shape = (R, C)
    cells_of = dict(got)
    cells_of[0] = {(r, c) for r in range(R) for c in range(C) if not labels[r, c]}
    for b, f in pps.items():
        q = f['properties']
        cell = (q['cell_row'], q['cell_col'])
        if cell not in cells_of[b]:
            return rep.bad('pour points', 'pour point %d at %s is not in its bluespot' % (b, cell))
        if case['accum']:
            best = max(visits[x] for x in cells_of[b])
            if visits[cell] != best:
                return rep.bad('pour points', '%d parcels pass pour point %d, %d pass elsewhere' % (visits[cell], b, best))
        elif nf[cell] != min(nf[x] for x in cells_of[b]):
            return rep.bad('pour points', 'pour point %d is not the lowest way out' % b)
        nxt = hydro.step(fdl, cell)
        if hydro.inside(shape, nxt) and nxt in cells_of[b]:
            return rep.bad('pour points', 'water from pour point %d stays in the bluespot' % b)
        gt = world.transform(case['dem'])
        xy = [gt[0] + (cell[1] + 0.5) * gt[1], gt[3] + (cell[0] + 0.5) * gt[5]]
        if any(abs(a - bb) > 1e-6 for a, bb in zip(xy, f['geometry']['coordinates'])):
            return rep.bad('pour points', 'pour point %d lies at %s instead of %s' % (b, f['geometry']['coordinates'], xy))
        vals = [p['depths'][x].item() for x in cells_of[b]]
        nws = int((first == b).sum())
        exp = dict(bspot_dmax=max(vals), bspot_area=len(vals) * area, bspot_vol=sum(vals) * area, wshed_area=nws * area, bspot_fumm=1000 * sum(vals) / nws)
        for k, v in exp.items():
            if abs(q[k] - v) > 1e-9 * max(abs(v), 1.0):
                return rep.bad('pour points', '%s of pour point %d is %r instead of %r' % (k, b, q[k], v))
    # what a parcel leaving a pour point meets next
    nextb, path = {}, {}
    for b, f in pps.items():
        w = hydro.walk(fdl, (f['properties']['cell_row'], f['properties']['cell_col']))
        nextb[b], path[b] = None, w
        for k, x in enumerate(w):
            if labels[x] and labels[x] != b:
                nextb[b], path[b] = int(labels[x]), w[:k + 1]
                break
    if {n['id']: n['downstream_id'] for n in p['net']} != nextb:
        return rep.bad('network', 'pourpoint_network gives %s, parcels %s' % ({n['id']: n['downstream_id'] for n in p['net']}, nextb))
    nodes = {f['properties']['nodeid']: f['properties'] for f in p['nodes']}
    if len(nodes) != len(p['nodes']):
        return rep.bad('network', 'two nodes have the same id')
    if not set(pps) <= set(nodes) or (not case['streams'] and set(pps) != set(nodes)):
        return rep.bad('network', 'nodes %s for pour points %s' % (sorted(nodes), sorted(pps)))
    line = {f['properties']['nodeid']: f for f in (p['streams'] or [])}
    for i, n in nodes.items():
        want_type = 'pourpoint' if i in pps else 'junction'
        if n['nodetype'] != want_type:
            return rep.bad('network', 'node %s is a %s' % (i, n['nodetype']))
        for k in ('bspot_area', 'bspot_vol', 'wshed_area', 'bspot_id'):
            w = pps[i]['properties'][k] if i in pps else (None if k == 'bspot_id' else 0.0)
            if n[k] != w:
                return rep.bad('network', '%s of node %s is %r instead of %r' % (k, i, n[k], w))
    children = {}
    for i, n in nodes.items():
        children.setdefault(n['dstrnodeid'], []).append(i)
    for i in nodes:
        if i not in pps and len(children.get(i, [])) < 2:
            return rep.bad('network', 'junction %s joins %d streams' % (i, len(children.get(i, []))))
    used = {}
    for b in sorted(pps):
        cells, i, hops = [], b, 0
        while True:
            n = nodes[i]
            hops += 1
            if hops > len(nodes) + 1:
                return rep.bad('network', 'the network goes in circles at %s' % i)
            here = (n['cell_row'], n['cell_col'])
            if case['streams']:
                if i in line:
                    g = to_cells(line[i]['geometry']['coordinates'], case['dem'])
                    if line[i]['properties']['dstrnodeid'] != n['dstrnodeid'] or not g or g[0] != here:
                        return rep.bad('streams', 'stream of node %s starts at %s, the node is at %s' % (i, g[:1], here))
                    cells += g if not cells else (g[1:] if cells[-1] == g[0] else g)
                    for x, y in zip(g, g[1:]):
                        o = used.setdefault((x, y, nextb[b]), i)
                        if o != i:
                            return rep.bad('streams', 'streams %s and %s run along each other at %s' % (o, i, x))
            i = n['dstrnodeid']
            if i is None or i in pps:
                break
            if i not in nodes:
                return rep.bad('network', 'node %s is missing' % i)
        if i != nextb[b]:
            return rep.bad('network', 'water from bluespot %s goes to %s, parcels go to %s' % (b, i, nextb[b]))
        if case['streams'] and cells != path[b]:
            return rep.bad('streams', 'stream from %s runs %s, parcels run %s' % (b, cells[:12], path[b][:12]))


def to_cells(coords, d):
    gt = world.transform(d)
    return [(int(round((y - gt[3]) / gt[5] - 0.5)), int(round((x - gt[0]) / gt[1] - 0.5))) for x, y in coords]


def shrink(case):
    for d in core.shrink_dem(case['dem']):
        yield dict(case, dem=d)
    for k, v in (('filter', None), ('fast', False), ('accum', True), ('streams', False)):
        if case[k] != v:
            yield dict(case, **{k: v})
