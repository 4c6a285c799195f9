"""C11: results do not depend on the order in which features are delivered."""
import json
import os
import random

import numpy as np

import core
import mem
import ops
import snap
import world
from props import c01

ID = 'C11'
UNITS = {'quick': 160, 'thorough': 9000}
NOTE = ('Seeded search: every tool gets the features of its inputs in drawn orders (another one each time it reads) with meaningless feature ids, through the reader interface and, '
        'as commands, through files whose features were stored in another order. Samples terrains and orders.')
RULE = ('A case is a terrain, a rain and a seed for all orders. Each step of the analysis gets the features of the undisturbed run in a drawn order; its results must be those of the '
        'undisturbed run for each id. Distinct by terrain and orders.')
MEASURE = 'terrain, parameters, the orders in which features were delivered (and the log of file operations of commands).'
REAL = ['malstroem (tools, command line, readers and writers)', 'GDAL/OGR, SQLite (commands)']
STUB = ['readers and writers in memory deliver features in drawn orders (tools)', 'stored features are rewritten in drawn orders between commands']
ASSUMPTIONS = ['sums of volumes may differ by rounding when they are added in another order (relative 1e-6)']


def cases(rng, tier, ctx, u):
    if u % 3 == 0:
        scene = world.random_scene(rng, 6, 12)
        scene['vector'] = False
        rain = None if rng.random() < 0.7 else dict(pr='filled.tif', unit=rng.choice(['mm', 'l', 'm3']))
        for _ in range(2):
            yield dict(mode='files', scene=scene, rain=rain, seed=rng.randrange(1 << 30))
    else:
        for j in range(4):
            yield dict(mode='tools', dem=ops.large(rng) if u % 10 == 1 and j == 0 else ops.terrain(rng, 5, 12), mm=rng.choice([0, 1, 20, 500, 5000]), zres=rng.choice([0.25, 0.5, 2.0]), unit=rng.choice(['mm', 'l', 'm3']),
                       streams=rng.random() < 0.7, seed=rng.randrange(1 << 30))


def drawn(rnd, n):
    """an order: random, reversed, rotated, or one pair exchanged"""
    ix = list(range(n))
    k = rnd.random()
    if k < 0.5:
        rnd.shuffle(ix)
    elif k < 0.65:
        ix.reverse()
    elif k < 0.8 and n:
        r = rnd.randrange(n)
        ix = ix[r:] + ix[:r]
    elif n > 1:
        a, b = rnd.sample(ix, 2)
        ix[a], ix[b] = ix[b], ix[a]
    return ix


def by_key(feats, key):
    out = {}
    for f in feats:
        k = f['properties'][key]
        if k in out:
            return None
        out[k] = f
    return out


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if a == b:
        return True
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-3)


def compare(rep, what, want, got, key):
    w, g = by_key(want, key), by_key(got, key)
    if w is None:
        raise core.Skip('ids are not unique')
    if g is None:
        rep.bad('%s: ids' % what, '%s: ids are not unique' % what)
        return
    if set(w) != set(g):
        rep.bad('%s: ids' % what, '%s: ids %s instead of %s' % (what, ops.short(sorted(g)), ops.short(sorted(w))))
        return
    for k in sorted(w):
        for part in ('properties', 'geometry'):
            if not close(w[k].get(part), g[k].get(part)):
                if part == 'properties':
                    d = [(n, v, g[k][part].get(n)) for n, v in w[k][part].items() if not close(v, g[k][part].get(n))]
                    msg = '%s is %s instead of %s' % (d[0][0], ops.short(d[0][2]), ops.short(d[0][1])) if d else 'other attributes'
                else:
                    msg = 'geometry %s instead of %s' % (ops.short(g[k][part]), ops.short(w[k][part]))
                rep.bad('%s: %s' % (what, part), '%s: %s %s: %s' % (what, key, k, msg))
                return


def same_raster(rep, what, want, got):
    if want.dtype != got.dtype or want.shape != got.shape or not np.array_equal(want, got, equal_nan=want.dtype.kind == 'f'):
        rep.bad('%s: cells' % what, '%s: %d cells differ' % (what, int(np.sum(want != got))))


def tools(case, ctx, rep):
    orders = []

    def history():
        from malstroem.approx import approx_bluespots_io, approx_water_level_io
        from malstroem.hyps import bluespot_hypsometry_io
        from malstroem.network import FinalStateCalculator
        from malstroem.rain import RasterVolumeTool, SimpleVolumeTool, Unit
        from malstroem.streams import StreamTool
        d = ops.Data(case['dem'])

        def chain(deliver):
            V, R = mem.Vector, d.R
            out = {}
            n, st = V(), V()
            StreamTool(deliver('pourpoints', d.pp), R(d.bs), R(d.fd), n, st if case['streams'] else None).process()
            out['nodes'], out['streams'] = n.feats, st.feats or []
            ref = ref_of(out)
            v = V()
            SimpleVolumeTool(deliver('nodes', ref['nodes']), v, 'inputv', case['mm']).process()
            out['volumes'] = v.feats
            rain = (np.arange(d.dem.size).reshape(d.dem.shape) * 7 % 13).astype('float32')
            v = V()
            RasterVolumeTool(deliver('nodes', ref['nodes']), R(d.ws), R(rain), getattr(Unit, case['unit']), v, 'inputv').process()
            out['raster volumes'] = v.feats
            ref = ref_of(out)
            for k in ('volumes', 'raster volumes'):
                f = V()
                FinalStateCalculator(deliver(k, ref[k]), 'inputv', f).process()
                out['final ' + k] = f.feats
            h = V()
            bluespot_hypsometry_io(R(d.bs), R(d.dem), deliver('pourpoints', d.pp), case['zres'], h)
            out['hypsometry'] = h.feats
            ref = ref_of(out)
            l = V()
            approx_water_level_io(deliver('final volumes', ref['final volumes']), deliver('hypsometry', ref['hypsometry']), l)
            out['levels'] = l.feats
            ref = ref_of(out)
            o, q = R(), R()
            approx_bluespots_io(R(d.bs), deliver('levels', ref['levels']), R(d.dem), o, q)
            out['depths'], out['bluespots'] = o.data, q.data
            return out

        first = []
        ref_of = lambda out: first[0] if first else out
        base = chain(lambda what, feats: mem.Vector(feats))
        first.append(base)
        rnd = random.Random(case['seed'])

        def deliver(what, feats):
            feats = [dict(f, id=rnd.randrange(1000)) for f in feats]

            def order(n):
                o = drawn(rnd, n)
                orders.append((what, o))
                return o
            return mem.Vector(feats, order)
        return base, chain(deliver), orders
    try:
        base, got, orders = ctx.inproc(history, rep, key=case)
    except core.Broken as e:
        rep.bad('tools: %s' % e.what.split(':')[0], e.what)
        return
    for w, o in orders:
        if len(o) > 1 and o != sorted(o):
            ctx.stats['fault other order of %s' % w] += 1
    for k, key in (('nodes', 'nodeid'), ('streams', 'nodeid'), ('volumes', 'nodeid'), ('raster volumes', 'nodeid'), ('final volumes', 'nodeid'), ('final raster volumes', 'nodeid'),
                   ('hypsometry', 'bspot_id'), ('levels', 'nodeid')):
        compare(rep, k, base[k], got[k], key)
    same_raster(rep, 'final depths', base['depths'], got['depths'])
    same_raster(rep, 'final bluespots', base['bluespots'], got['bluespots'])
    rep.trace = ['%s delivered as %s' % x for x in orders]


def reorder(path, rnd, ctx):
    """store the features of all layers of a datasource in another order"""
    from osgeo import gdal, ogr
    n = 0
    if path.endswith('.geojson'):
        with open(path) as f:
            j = json.load(f)
        o = drawn(rnd, len(j['features']))
        j['features'] = [j['features'][i] for i in o]
        for f in j['features']:
            if 'id' in f:
                f['id'] = rnd.randrange(1000000)
        with open(path, 'w') as f:
            json.dump(j, f)
        return int(o != sorted(o))
    if path.endswith('.csv'):
        with open(path) as f:
            lines = f.read().splitlines(True)
        o = drawn(rnd, len(lines) - 1)
        with open(path, 'w') as f:
            f.write(''.join(lines[:1] + [lines[1 + i] for i in o]))
        return int(o != sorted(o))
    ds = ogr.Open(path, update=1)
    for li in range(ds.GetLayerCount()):
        lyr = ds.GetLayerByIndex(li)
        feats = [f.Clone() for f in lyr]
        if not feats:
            continue
        o = drawn(rnd, len(feats))
        if path.endswith('.gpkg'):
            fids = sorted(rnd.sample(range(1, 5 * len(feats) + 1), len(feats)))
            ds.StartTransaction()
            for f in feats:
                lyr.DeleteFeature(f.GetFID())
            for i, fid in zip(o, fids):
                feats[i].SetFID(fid)
                lyr.CreateFeature(feats[i])
            ds.CommitTransaction()
        else:
            fids = [f.GetFID() for f in feats]
            for i, fid in zip(o, fids):
                f = feats[i].Clone()
                f.SetFID(fid)
                lyr.SetFeature(f)
        n += int(o != sorted(o))
    lyr = ds = None
    return n


def files(case, ctx, rep):
    stages = world.chain(case['scene'], case['rain'])
    pf = ctx.prefix(case['scene'], json.dumps(case['rain']), stages)
    rnd = random.Random(case['seed'])
    for i, st in enumerate(pf.stages):
        name = st.name.split('_')[0]
        if name not in ('network', 'hyps', 'initvolumes', 'finalvolumes', 'finallevels', 'finalbluespots'):
            continue
        ctx.restore('p%d' % i)
        # (in a process of its own: GDAL caches directories)
        done = set()
        todo = []
        for s in pf.stages[:i]:
            for l in s.layers:
                p = os.path.join(ctx.data, l.ds)
                if l.fmt == 'shp':
                    p = os.path.join(p, l.layer + '.shp')
                if p not in done:
                    done.add(p)
                    todo.append(p)
        seed = rnd.randrange(1 << 30)

        def change():
            r = random.Random(seed)
            return sum(reorder(p, r, ctx) for p in todo)
        r, n = ctx.child(change)
        if r.outcome() != 'ok':
            raise core.Skip('cannot reorder: ' + r.stderr[-200:])
        ctx.stats['fault other order of stored features'] += n
        r = ctx.cli(st.args, rep)
        if r.outcome() != 'ok':
            rep.bad('%s: fails' % name, '%s fails with features in another order: %s' % (st.name, r.stderr.strip()[-200:]))
            continue
        try:
            got = snap.outputs(st, ctx.data)
        except snap.Unreadable as e:
            rep.bad('%s: output' % name, str(e))
            continue
        for k, want in pf.want[i].items():
            if want['kind'] == 'raster':
                d = snap.diff(want, got[k])
            else:
                d = None
                key = 'bspot_id' if name == 'hyps' else 'nodeid'
                compare(rep, 'stored %s' % name, feats(want), feats(got[k]), key)
                if want['fields'] != got[k]['fields'] and not loose(case, want, got[k]):
                    d = 'fields %s instead of %s' % (got[k]['fields'], want['fields'])
            if d:
                rep.bad('stored %s: output' % name, '%s: %s' % (k, d))


def loose(case, a, b):
    """formats without a schema take their field types from the first features"""
    return sorted(n for n, t in a['fields']) == sorted(n for n, t in b['fields'])


def feats(layer):
    names = [n for n, t in layer['fields']]
    return [dict(properties=dict(zip(names, v)), geometry=g) for v, g in layer['feats']]


def run(case, ctx):
    rep = core.Report()
    if case['mode'] == 'tools':
        tools(case, ctx, rep)
    else:
        files(case, ctx, rep)
    return rep


def shrink(case):
    if case['mode'] == 'tools':
        for d in core.shrink_dem(case['dem']):
            yield dict(case, dem=d)
    else:
        for s in core.shrink_scene(case['scene']):
            yield dict(case, scene=s)
