"""C04: an output layer in a GeoPackage has all of its features or none, at every instant and for every reader."""
import os
import sqlite3

import core
import kernel
import snap
import world
from props import c01

ID = 'C04'
UNITS = {'quick': 110, 'thorough': 2600}
PER_UNIT = {'quick': 14, 'thorough': 40}
MODES = ['badsector', 'crash', 'crash', 'crash', 'crash', 'fail', 'sticky', 'budget', 'interrupt', 'mem', 'shortr', 'fail+crash', 'fail+crash', 'fail+sticky', 'line', 'line+crash', 'line+crash']
NOTE = ('Seeded search over crash and fault points of every command that writes GeoPackage layers, over the instants at which a second process reads, '
        'and over reruns. Samples the space; process death only, no loss of the page cache.')
RULE = ('A unit draws a GeoPackage scenario and its fault-free chain. Cases: one layer-writing command with a drawn crash or fault, the layer judged '
        'afterwards (fault); the command stepped one file operation at a time with a reader of the raw tables in drawn gaps (observe); the command '
        'interleaved by the seeded scheduler with a process that reads its layer through VectorReader (reader); the finished command run again, with or '
        'without a fault (rerun). Distinct by operation logs.')
MEASURE = c01.MEASURE
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = ['a crash is the death of the process: what the operating system had accepted survives, in order',
               'a reader that is turned away because the file is locked or incomplete has not seen a partial layer']


def cases(rng, tier, ctx, u):
    scene = world.random_scene(rng, 5, 11)
    scene['fmt'] = 'gpkg'
    which = 'complete' if rng.random() < 0.15 else 'chain'
    few = 1
    if u % 6 == 1:
        # more features than fit into any buffer
        scene.update(dem=world.many_dem(rng), filter=None)
        few = 3
    if u % 3 == 0:
        for c in bulk_cases(rng, ctx):
            yield c
    try:
        pf = ctx.prefix(scene, which)
    except core.Skip:
        yield dict(scene=scene, which=which, stage=0, how='fault', fault=dict(mode='none'))
        return
    idx = [i for i, s in enumerate(pf.stages) if s.layers]
    n = PER_UNIT[tier] // few if which == 'chain' else PER_UNIT[tier] // 3 // few
    for j in range(max(n, 1)):
        i = rng.choice(idx)
        how = rng.choice(['fault', 'fault', 'fault', 'fault', 'observe', 'reader', 'rerun'])
        c = dict(scene=scene, which=which, stage=i, how=how)
        if how == 'fault':
            c['fault'] = core.gen_fault(rng, pf.kinds[i], pf.written[i], MODES, pf.log[i])
            # most of the in-flight state is in the second half of the process
            if c['fault']['mode'] == 'crash' and rng.random() < 0.5:
                e = c['fault']['plan'][0]
                tot = sum(pf.kinds[i][k] for k in pf.kinds[i] if k in kernel.K and (1 << kernel.K[k]) & e['kinds'])
                e['nth'] = max(0, tot - 1 - int(tot * rng.random() * 0.4))
        elif how == 'rerun':
            c['fault'] = core.gen_fault(rng, pf.kinds[i], pf.written[i], MODES + ['none'] * 4)
        elif how == 'observe':
            c['looks'] = sorted(rng.randrange(pf.nops[i] + 1) for _ in range(rng.choice([3, 10, 25])))
        else:
            c['sched'] = rng.randrange(1 << 30)
            c['start'] = rng.randrange(pf.nops[i] + 1)
            c['layer'] = rng.randrange(len(pf.stages[i].layers))
        yield c


def bulk_write(path, n, other, seed):
    """a process that writes a layer of n features into a GeoPackage that holds another one"""
    def body():
        from malstroem.io import VectorWriter
        from osgeo import ogr
        if other:
            VectorWriter('gpkg', path, 'other', None, ogr.wkbPoint, world.wkt()).write_geojson_features(features(17, seed + 1))
        VectorWriter('gpkg', path, 'bulk', None, ogr.wkbPoint, world.wkt()).write_geojson_features(features(n, seed))
    return body


def features(n, seed):
    for i in range(n):
        yield dict(type='Feature', id=i, geometry=dict(type='Point', coordinates=[500000.0 + i % 97, 6200000.0 - i]), properties=dict(
            nodeid=i, v=(i * 7919 + seed) % 1009 / 8.0, text='n%d' % (i * seed % 1013)))


def bulk_cases(rng, ctx):
    n, other, seed = rng.choice([30, 120, 300, 1100, 1100, 2300, 5200]), rng.random() < 0.5, rng.randrange(1000)
    ctx.lay_empty()
    r = ctx.run(bulk_write(os.path.join(ctx.data, 'bulk.gpkg'), n, other, seed))
    if r.outcome() != 'ok':
        yield dict(how='bulk', n=n, other=other, seed=seed, fault=dict(mode='none'))
        return
    log = ctx.ctl.log()
    written = sum(ln for k, path, ret, off, ln, a, e in log if k == 'write' and ret > 0)
    for _ in range(3):
        yield dict(how='bulk', n=n, other=other, seed=seed, fault=core.gen_fault(rng, r.kinds, written, [m for m in MODES if not m.startswith('line')], log))


def bulk(case, ctx):
    rep = core.Report()
    ctx.lay_empty()
    p = os.path.join(ctx.data, 'bulk.gpkg')
    r = ctx.run(bulk_write(p, case['n'], case['other'], case['seed']), rep, **core.fault_kw(case['fault']))
    rep.trace = core.trace(ctx.ctl)
    if not os.path.exists(p):
        return rep
    try:
        got = snap.layers(p)
    except snap.Unreadable:
        ctx.stats['probe file not readable'] += 1
        if r.outcome() == 'ok':
            rep.bad('partial | bulk', 'a writer that succeeded left a file nobody can read')
        return rep
    for name, n, seed in (('bulk', case['n'], case['seed']), ('other', 17, case['seed'] + 1)):
        if name not in got or not got[name]['feats']:
            if r.outcome() == 'ok' and (name == 'bulk' or case['other']):
                rep.bad('partial | bulk', 'a writer that succeeded left no layer %s' % name)
            continue
        want = [(f['properties']['nodeid'], f['properties']['v'], f['properties']['text']) for f in features(n, seed)]
        have = [(f['nodeid'], f['v'], f['text']) for f in snap.props(got[name])]
        if have != want:
            rep.bad('partial | bulk', 'layer %s holds %d of %d features, or others' % (name, len(have), len(want)))
        else:
            ctx.stats['probe full layer'] += 1
    return rep


def rows(path, table):
    """the raw rows of one table as a reader sees them; None when there is no table or the file is not accessible"""
    try:
        con = sqlite3.connect('file:%s?mode=ro' % path, uri=True, timeout=0)
        try:
            # a layer exists for its readers when it is registered
            if not con.execute('SELECT 1 FROM gpkg_contents WHERE table_name=?', (table,)).fetchall():
                return None
            return con.execute('SELECT * FROM "%s"' % table).fetchall()
        finally:
            con.close()
    except sqlite3.DatabaseError:
        return None


def check(rep, ctx, st, want, label):
    """all or nothing for each layer of the stage, as read through OGR after recovery"""
    for l in st.layers:
        p = os.path.join(ctx.data, l.ds)
        if not os.path.exists(p):
            continue
        try:
            got = snap.layers(p).get(l.layer)
        except snap.Unreadable:
            ctx.stats['probe file not readable'] += 1
            continue
        if got is None:
            continue
        w = want[repr(l)]
        if not got['feats']:
            ctx.stats['probe empty layer'] += 1
            continue
        d = snap.diff(w, got)
        if d:
            rep.bad('partial | %s' % label, 'layer %s: %s' % (l.layer, d))
        else:
            ctx.stats['probe full layer'] += 1


def run(case, ctx):
    if case['how'] == 'bulk':
        return bulk(case, ctx)
    pf = ctx.prefix(case['scene'], case['which'])
    i = case['stage']
    st = pf.stages[i]
    want = pf.want[i]
    rep = core.Report()
    how = case['how']
    if how in ('fault', 'rerun'):
        kw = ctx.fault_kw(pf, i, case['fault'])
    if how == 'fault':
        ctx.restore('p%d' % i)
        ctx.cli(st.args, rep, **kw)
        rep.trace = core.trace(ctx.ctl)
        check(rep, ctx, st, want, '%s | %s' % (st.name.split('_')[0], core.where(ctx.ctl)))
    elif how == 'rerun':
        ctx.restore('p%d' % (i + 1))
        ctx.cli(st.args, rep, **kw)
        rep.trace = core.trace(ctx.ctl)
        try:
            got = snap.outputs(world.Stage(st.name, [], [], [], st.layers), ctx.data)
        except snap.Unreadable as e:
            rep.bad('altered | %s' % st.name, 'a completely written layer after running the command again: %s' % e)
            return rep
        for k in got:
            d = snap.diff(want[k], got[k])
            if d:
                rep.bad('altered | %s' % st.name, 'layer %s after running the command again: %s' % (k, d))
    elif how == 'observe':
        observe(case, ctx, rep, pf, i, st)
    else:
        reader(case, ctx, rep, pf, i, st, want)
    return rep


def observe(case, ctx, rep, pf, i, st):
    ref = {}
    for l in st.layers:
        ref[l.layer] = rows(os.path.join(ctx.base, 'save-p%d' % (i + 1), 'data', l.ds), l.layer)
    ctx.restore('p%d' % i)
    spec = ctx.spec(kernel.run_cli(world.absolute(st.args, ctx.data)))
    looks = list(case['looks'])
    state = dict(n=0)

    def look(alive=None):
        while looks and looks[0] <= state['n']:
            looks.pop(0)
            for l in st.layers:
                p = os.path.join(ctx.data, l.ds)
                if not os.path.exists(p):
                    continue
                r = rows(p, l.layer)
                if not r:
                    ctx.stats['probe observer saw nothing'] += 1
                elif r != ref[l.layer]:
                    rep.bad('observed partial | %s' % st.name, 'a reader after operation %d sees %d rows of layer %s, finally %d' % (
                        state['n'], len(r), l.layer, len(ref[l.layer] or [])))
                else:
                    ctx.stats['probe observer saw all'] += 1
        state['n'] += 1
        return 0
    res, tr = kernel.run_interleaved([spec], [ctx.ctl], look)
    ctx.account(res[0], rep=rep)
    ctx.stats['decisions'] += len(case['looks'])
    if res[0].outcome() != 'ok':
        # a reader that is gone again before the next operation cannot be in the way
        rep.bad('reader disturbs | %s' % st.name, 'the command fails because of a reader: %s' % res[0].stderr[-300:])


def reader(case, ctx, rep, pf, i, st, want):
    import random
    ctx.restore('p%d' % i)
    l = st.layers[case['layer']]
    p = os.path.join(ctx.data, l.ds)
    res_path = ctx.err + '.rd'
    if os.path.exists(res_path):
        os.unlink(res_path)

    def body():
        import pickle
        from malstroem import io
        try:
            r = io.VectorReader(p, l.layer)
            out = [(f.items(), f.GetGeometryRef().ExportToIsoWkt() if f.GetGeometryRef() else None) for f in r.read_ogr_feature()]
        except Exception as e:
            out = str(e)
        with open(res_path, 'wb') as f:
            pickle.dump(out, f)
    ctls = ctx.more_ctls(2)
    specs = [ctx.spec(kernel.run_cli(world.absolute(st.args, ctx.data))), kernel.Spec(body, ctx.root, ctx.err + '2', rand=7)]
    rng = random.Random(case['sched'])
    state = dict(n=0)

    def pick(alive):
        state['n'] += 1
        if 0 in alive and state['n'] <= case['start']:
            return 0
        return rng.choice(alive)
    res, tr = kernel.run_interleaved(specs, ctls, pick)
    ctx.stats['decisions'] += len(tr)
    for r, c in zip(res, ctls):
        ctx.account(r, c, rep)
    import pickle
    if res[1].outcome() != 'ok' or not os.path.exists(res_path):
        return
    with open(res_path, 'rb') as f:
        got = pickle.load(f)
    if isinstance(got, str) or not got:
        ctx.stats['probe reader saw nothing'] += 1
        return
    w = want[repr(l)]
    names = [n for n, _ in w['fields']]
    if [dict(zip(names, v)) for v, _ in w['feats']] != [a for a, _ in got]:
        rep.bad('reader partial | %s' % st.name, 'a reading process gets %d of %d features, or not all their values' % (len(got), len(w['feats'])))
    else:
        ctx.stats['probe reader saw all'] += 1


def shrink(case):
    if case['how'] == 'bulk':
        for f in core.shrink_fault(case['fault']):
            yield dict(case, fault=f)
        for n in (case['n'] // 2, case['n'] - 1):
            if n:
                yield dict(case, n=n)
        return
    if case['how'] in ('fault', 'rerun'):
        for f in core.shrink_fault(case['fault']):
            yield dict(case, fault=f)
    if case['how'] == 'observe':
        for x in core.shrink_list(case['looks'], 1):
            yield dict(case, looks=x)
    for s in core.shrink_scene(case['scene']):
        yield dict(case, scene=s)
