"""C02: whatever happens to a command, everything that is not its declared output stays as it was."""
import os
import random

import core
import kernel
import snap
import world
from props import c01

ID = 'C02'
UNITS = {'quick': 88, 'thorough': 2600}
PER_UNIT = {'quick': 24, 'thorough': 60}
MODES = ['badsector', 'crash', 'crash', 'crash', 'fail', 'fail', 'sticky', 'sticky', 'budget', 'budget', 'interrupt', 'mem', 'shortw', 'none', 'fail+crash', 'fail+sticky', 'line', 'line+crash']
NOTE = ('Seeded search over faults and crashes at every intercepted file operation; every run is followed by a complete comparison of what must not change. '
        'Samples the fault space; process death only, no loss of the page cache.')
RULE = ('As C01, with crashes (before, after and torn in the middle of an operation) among the faults. The directory holds files of the user with names like those of '
        'the outputs; some commands are run a second time. After each run the world is read back: inputs, the user\'s files and '
        'other steps\' rasters must be byte-identical, other layers of a shared GeoPackage must read back identically and the file must pass '
        'PRAGMA integrity_check, and nothing outside data/ may be left behind by a command that succeeded.')
MEASURE = c01.MEASURE
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = ['a crash is the death of the process: what the operating system had accepted survives, in order; loss of the page cache is not simulated',
               'GeoPackages are opened (and so recovered by SQLite) before they are judged']


def cases(rng, tier, ctx, u):
    scene = world.random_scene(rng, 5, 12)
    which = 'complete' if rng.random() < 0.12 else 'chain'
    few = 1
    if u % 12 == 7:
        # more of everything than fits into a buffer
        scene.update(dem=world.many_dem(rng, 20, 48), filter=None)
        few = 2
    try:
        pf = ctx.prefix(scene, which)
    except core.Skip:
        yield dict(scene=scene, which=which, stage=0, fault=dict(mode='none'))
        return
    n = PER_UNIT[tier] if which == 'chain' else PER_UNIT[tier] // 3
    n = n // few
    # steps that share a file with others have more to lose
    order = [i for i, s in enumerate(pf.stages) for _ in range(3 if s.layers else 1)]
    order = order * (n // len(order) + 1)
    rng.shuffle(order)
    for i in order[:n]:
        yield dict(scene=scene, which=which, stage=i, fault=core.gen_fault(rng, pf.kinds[i], pf.written[i], MODES, pf.log[i]),
                   by=rng.randrange(1 << 20), again=which == 'chain' and scene['fmt'] == 'gpkg' and rng.random() < 0.2,
                   dead=which == 'chain' and rng.random() < 0.15)


SIDECARS = ('.shp', '.shx', '.dbf', '.prj', '.cpg', '.qpj', '.sbn')


def own_paths(st):
    """the files a stage may create or change"""
    own = set(st.rasters)
    for r in st.rasters:
        own.add(r + '.aux.xml')
    for l in st.layers:
        if l.fmt == 'shp':
            for e in SIDECARS:
                own.add(os.path.join(l.ds, l.layer + e))
        else:
            own.add(l.ds)
            own.add(l.ds + '-journal')
            own.add(l.ds + '-wal')
            own.add(l.ds + '-shm')
    return own


def bystanders(st, data, rng):
    """the user's own files beside the outputs, with names like theirs"""
    names = set()
    for p in st.rasters + [l.ds if l.fmt != 'shp' else os.path.join(l.ds, l.layer) for l in st.layers]:
        if st.name == 'complete':
            # its output directory has to be empty
            p = os.path.dirname(p)
        d, (stem, ext) = os.path.dirname(p), os.path.splitext(os.path.basename(p))
        for n in ('%s_2020%s', '%s-old%s', '%s%s.bak', '%s%s~', '%s.txt', '%s.bak', 'my%s%s', '.%s%s', '%s%s.tmp', '%s.tmp', '%s (1)%s', 'old/%s%s',
                  '%s.d/readme', '%s1%s', '%s%s.lock', '%s.log', '%s%s.old', '%s.zip', '%s%s.part', '%s.csv.gz'):
            names.add(os.path.join(d, n % ((stem, ext) if n.count('%s') == 2 else stem)))
    for n in sorted(names):
        p = os.path.join(data, n)
        if rng.random() < 0.5 or os.path.exists(p):
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(b'%d' % rng.randrange(1 << 40) if rng.random() < 0.8 else b'')


def user_layers(st, data, rng):
    """layers of the user in the datasource the command writes to"""
    from osgeo import ogr, osr
    srs = osr.SpatialReference()
    srs.ImportFromWkt(world.wkt())
    for l in st.layers:
        if l.fmt not in ('gpkg', 'shp') or st.name == 'complete' or rng.random() < 0.6:
            continue
        p = os.path.join(data, l.ds)
        ds = ogr.Open(p, 1) if os.path.exists(p) and (l.fmt == 'gpkg' or os.listdir(p)) else None
        if ds is None:
            ds = ogr.GetDriverByName('GPKG' if l.fmt == 'gpkg' else 'ESRI Shapefile').CreateDataSource(p)
        taken = {ds.GetLayer(i).GetName().lower() for i in range(ds.GetLayerCount())}
        name = rng.choice(['%s_old', 'my_%s', '%s2', '%ss', 'x%s', '%s_1', 'old %s']) % l.layer
        if name.lower() in taken or any(name.lower() == m.layer.lower() for m in st.layers):
            continue
        lyr = ds.CreateLayer(name, srs if rng.random() < 0.8 else None, rng.choice([ogr.wkbPoint, ogr.wkbPolygon, ogr.wkbLineString] + [ogr.wkbNone] * (l.fmt == 'gpkg')))
        lyr.CreateField(ogr.FieldDefn('nodeid', ogr.OFTInteger))
        lyr.CreateField(ogr.FieldDefn('note', ogr.OFTString))
        for i in range(rng.choice([0, 1, 5])):
            f = ogr.Feature(lyr.GetLayerDefn())
            f['nodeid'], f['note'] = i, 'note %d' % rng.randrange(1000)
            if lyr.GetGeomType() == ogr.wkbPoint:
                f.SetGeometry(ogr.CreateGeometryFromWkt('POINT (%d %d)' % (500000 + i, 6200000)))
            lyr.CreateFeature(f)
        f = lyr = ds = None


def dead_writer(ctx, st, before_layers):
    """another program that writes to the shared GeoPackage dies at the end of its transaction: its journal stays behind"""
    for ds in sorted(d for d, layers in before_layers.items() if layers):
        p = os.path.join(ctx.data, ds)

        def fn():
            from osgeo import ogr
            d = ogr.Open(p, 1)
            d.StartTransaction()
            for i in range(d.GetLayerCount()):
                lyr = d.GetLayer(i)
                for fid in [f.GetFID() for f in lyr]:
                    lyr.DeleteFeature(fid)
            d.CreateLayer('of the dead', None, ogr.wkbNone)
            d.CommitTransaction()
        ctx.run(fn, plan=[dict(kinds=sum(1 << kernel.K[k] for k in ('unlink', 'trunc')), action='crash_before', nth=0, path='-journal')])
        ctx.stats['probe journal of a dead writer'] += os.path.exists(p + '-journal')


def layer_state(path):
    return snap.layers(path) if os.path.exists(path) else {}


def judge(rep, ctx, st, before_tree, before_layers, ok, label):
    own = own_paths(st)
    shared = {l.ds for l in st.layers if l.fmt == 'gpkg'}
    # reading a GeoPackage recovers it, so look at the layers first
    for ds in sorted(shared):
        p = os.path.join(ctx.data, ds)
        old = before_layers[ds]
        if not os.path.exists(p):
            if old:
                rep.bad('lost | %s' % label, '%s no longer exists' % ds)
            continue
        mine = {l.layer for l in st.layers if l.ds == ds}
        try:
            new = snap.layers(p)
        except snap.Unreadable as e:
            if any(k not in mine for k in old):
                rep.bad('unreadable | %s' % label, '%s held layers %s of other steps and can no longer be read: %s' % (ds, sorted(old), e))
            continue
        bad = snap.integrity(p)
        if bad and old:
            rep.bad('integrity | %s' % label, '%s: %s' % (ds, bad))
        for k in old:
            if k in mine:
                continue
            if k not in new:
                rep.bad('lost | %s' % label, 'layer %s of another step is gone from %s' % (k, ds))
            else:
                d = snap.diff(old[k], new[k])
                if d:
                    rep.bad('changed | %s' % label, 'layer %s of another step in %s: %s' % (k, ds, d))
        if ok:
            extra = sorted(set(new) - set(old) - mine)
            if extra:
                rep.bad('extra | %s' % label, 'undeclared layers %s in %s' % (extra, ds))
    after = snap.tree(ctx.data)
    for p, h in sorted(before_tree.items()):
        if p in own:
            continue
        if after.get(p) != h:
            rep.bad('changed | %s' % label, '%s was %s' % (p, 'removed' if p not in after else 'changed'))
    if ok:
        extra = sorted(p for p in after if p not in before_tree and p not in own)
        left = sorted(snap.tree(os.path.join(ctx.root, 'tmp')))
        top = sorted(set(os.listdir(ctx.root)) - {'data', 'tmp'})
        if extra or left or top:
            rep.bad('litter | %s' % label, 'a successful command left %s' % (extra + ['tmp/' + x for x in left] + top)[:5])


def run(case, ctx):
    pf = ctx.prefix(case['scene'], case['which'])
    st = pf.stages[case['stage']]
    kw = ctx.fault_kw(pf, case['stage'], case['fault'])
    ctx.restore('p%d' % (case['stage'] + (1 if case.get('again') else 0)))
    if case.get('by') is not None:
        by = random.Random(case['by'])
        user_layers(st, ctx.data, by)
        bystanders(st, ctx.data, by)
    before_tree = snap.tree(ctx.data)
    before_layers = {l.ds: layer_state(os.path.join(ctx.data, l.ds)) for l in st.layers if l.fmt == 'gpkg'}
    rep = core.Report()
    if case.get('dead'):
        dead_writer(ctx, st, before_layers)
    r = ctx.cli(st.args, rep, **kw)
    rep.trace = core.trace(ctx.ctl)
    ctx.stats['probe shared file at risk'] += bool(any(before_layers.values()) and r.fault_happened())
    judge(rep, ctx, st, before_tree, before_layers, r.outcome() == 'ok', '%s | %s' % (st.name.split('_')[0], core.where(ctx.ctl)))
    return rep


def shrink(case):
    if case.get('by') is not None:
        yield dict(case, by=None)
    if case.get('dead'):
        yield dict(case, dead=False)
    for c in c01.shrink(case):
        yield c
