"""Simulated worlds: terrains, the directory a user works in, and the chain of commands they run there."""
import os
import shutil

import numpy as np

WKT = None
NODATASUBST = -999.0


def wkt():
    global WKT
    if WKT is None:
        # a projected CRS written out, so that no PROJ database lookup is needed
        WKT = ('PROJCS["ETRS89 / UTM zone 32N",GEOGCS["ETRS89",DATUM["European_Terrestrial_Reference_System_1989",'
               'SPHEROID["GRS 1980",6378137,298.257222101,AUTHORITY["EPSG","7019"]],AUTHORITY["EPSG","6258"]],'
               'PRIMEM["Greenwich",0,AUTHORITY["EPSG","8901"]],UNIT["degree",0.0174532925199433,AUTHORITY["EPSG","9122"]],'
               'AUTHORITY["EPSG","4258"]],PROJECTION["Transverse_Mercator"],PARAMETER["latitude_of_origin",0],'
               'PARAMETER["central_meridian",9],PARAMETER["scale_factor",0.9996],PARAMETER["false_easting",500000],'
               'PARAMETER["false_northing",0],UNIT["metre",1,AUTHORITY["EPSG","9001"]],AXIS["Easting",EAST],'
               'AXIS["Northing",NORTH],AUTHORITY["EPSG","25832"]]')
    return WKT


def random_dem(rng, lo=5, hi=18, wide=None):
    """rng: random.Random.  Returns a dict that describes one terrain completely."""
    rows, cols = rng.randint(lo, hi), rng.randint(lo, hi)
    kind = rng.choice(['ints', 'ints', 'fine', 'pits', 'basin', 'flats', 'slope'])
    if rng.random() < 0.15:
        rows = rng.randint(4, 6)
    if wide:
        rows, cols = (wide, cols) if rng.random() < 0.5 else (rows, wide)
    z = [[0.0] * cols for _ in range(rows)]
    for r in range(rows):
        for c in range(cols):
            if kind == 'ints':
                v = rng.randint(0, 12)
            elif kind == 'fine':
                v = round(rng.uniform(0, 10), 3)
            elif kind == 'pits':
                v = 10 + (-rng.randint(1, 8) if rng.random() < 0.35 else 0)
            elif kind == 'flats':
                v = rng.randint(0, 2) * 4
            elif kind == 'slope':
                v = round(20 - r * 0.7 - c * 0.3 + rng.uniform(-1.5, 1.5), 2)
            else:
                d = ((r - rows / 2.0) ** 2 + (c - cols / 2.0) ** 2) ** 0.5
                v = round(d * 1.5 + rng.uniform(-2, 2), 2)
            z[r][c] = float(np.float32(v))
    nod = []
    nodata = rng.choice([None, -9999.0, -999.0, -32767.0])
    if nodata is not None and rng.random() < 0.4:
        for _ in range(rng.randint(1, 4)):
            nod.append((rng.randrange(rows), rng.randrange(cols)))
    cell = rng.choice([1.0, 1.6, 10.0, 0.4])
    return dict(z=z, nodata=nodata, holes=nod, cell=cell, origin=[500000.0 + rng.randint(0, 9) * 10, 6200000.0 - rng.randint(0, 9) * 10])


def many_dem(rng, lo=20, hi=64, gap=None):
    """a terrain with hundreds of bluespots"""
    rows, cols = rng.randint(lo, hi), rng.randint(lo, hi)
    gap = gap or rng.choice([2, 2, 3])
    z = [[20.0 + ((r + c) % 3 if rng.random() < 0.1 else 0) for c in range(cols)] for r in range(rows)]
    for r in range(1, rows - 1, gap):
        for c in range(1, cols - 1, gap):
            z[r][c] = 20.0 - rng.randint(1, 9)
    return dict(z=z, nodata=None, holes=[], cell=rng.choice([1.0, 1.6]), origin=[500000.0, 6200000.0])


def valley_dem(rng, lo=280, hi=330):
    """a terrain where nearly all water passes one cell, with some bluespots on the way"""
    rows, cols = rng.randint(lo, hi), rng.randint(lo, hi)
    mid = rng.randint(cols // 3, cols - cols // 3)
    z = [[4.0 * abs(c - mid) + r + 1 for c in range(cols)] for r in range(rows)]
    for _ in range(rng.randint(0, 200)):
        z[rng.randrange(1, rows - 1)][rng.randrange(1, cols - 1)] -= rng.randint(1, 30)
    return dict(z=z, nodata=None, holes=[], cell=rng.choice([1.0, 1.6]), origin=[500000.0, 6200000.0])


def dem_array(d):
    a = np.array(d['z'], dtype='float32')
    if d['nodata'] is not None:
        for r, c in d['holes']:
            if r < a.shape[0] and c < a.shape[1]:
                a[r, c] = d['nodata']
    return a


def dem_values(d):
    """what malstroem is to compute on: nodata replaced"""
    a = np.array(d['z'], dtype='float32')
    if d['nodata'] is not None:
        for r, c in d['holes']:
            if r < a.shape[0] and c < a.shape[1]:
                a[r, c] = NODATASUBST
    return a


def transform(d):
    return (d['origin'][0], d['cell'], 0.0, d['origin'][1], 0.0, -d['cell'])


def write_tif(path, a, gt, nodata=None):
    from osgeo import gdal
    t = {'float32': gdal.GDT_Float32, 'float64': gdal.GDT_Float64, 'int32': gdal.GDT_Int32, 'uint8': gdal.GDT_Byte}[str(a.dtype)]
    ds = gdal.GetDriverByName('GTiff').Create(path, a.shape[1], a.shape[0], 1, t)
    ds.SetGeoTransform(gt)
    ds.SetProjection(wkt())
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(nodata)
    ds.GetRasterBand(1).WriteArray(a)
    ds.FlushCache()
    ds = None


def random_scene(rng, lo=5, hi=16):
    d = random_dem(rng, lo, hi)
    scene = dict(dem=d, mm=rng.choice([1, 5, 20, 60, 150.5, 1000]), zres=rng.choice([0.25, 0.5, 1.0, 2.0]),
                 accum=rng.random() < 0.6, fmt=rng.choice(['gpkg', 'gpkg', 'gpkg', 'geojson', 'shp']),
                 vector=rng.random() < 0.5)
    a = d['cell'] ** 2
    scene['filter'] = rng.choice([None, None, 'maxdepth > 0.5', 'area > %s' % (1.5 * a), 'volume > %s' % (2 * a),
                                  'area > %s and (maxdepth > 1 or volume > %s)' % (0.5 * a, 4 * a)])
    return scene


class Layer(object):
    """a vector output: which datasource, which layer"""

    def __init__(self, ds, layer, fmt):
        self.ds, self.layer, self.fmt = ds, layer, fmt

    def __repr__(self):
        return '%s[%s]' % (self.ds, self.layer)


class Stage(object):
    def __init__(self, name, args, deps, rasters=(), layers=()):
        self.name, self.args, self.deps, self.rasters, self.layers = name, args, deps, list(rasters), list(layers)


DRIVER = {'gpkg': 'gpkg', 'geojson': 'GeoJSON', 'shp': 'ESRI Shapefile', 'csv': 'CSV'}


def vec(fmt, name, shared='r.gpkg'):
    """datasource path and layer name for one vector product"""
    if fmt == 'gpkg':
        return shared, name
    if fmt == 'geojson':
        return name + '.geojson', name
    if fmt == 'csv':
        return name + '.csv', name
    return 'shp', name


def chain(scene, rain=None, suffix='', shared='r.gpkg', lnames=None):
    """The documented sequence of commands.  Paths are relative to the data directory.

    `suffix` names one scenario; stages before initvolumes are shared by all scenarios."""
    f = scene['fmt']
    nongeo = {'gpkg': 'gpkg', 'geojson': 'geojson', 'shp': 'csv'}[f]
    S = []

    def add(name, args, deps, rasters=(), layers=()):
        S.append(Stage(name, args, deps, rasters, layers))

    if not suffix or suffix == '@terrain':
        add('filled', ['filled', '-dem', 'dem.tif', '-out', 'filled.tif'], [], ['filled.tif'])
        add('depths', ['depths', '-dem', 'dem.tif', '-filled', 'filled.tif', '-out', 'bs_depths.tif'], ['filled'], ['bs_depths.tif'])
        add('flowdir', ['flowdir', '-dem', 'dem.tif', '-out', 'flowdir.tif'], [], ['flowdir.tif'])
        if scene['accum']:
            add('accum', ['accum', '-flowdir', 'flowdir.tif', '-out', 'accum.tif'], ['flowdir'], ['accum.tif'])
        add('bspots', ['bspots', '-depths', 'bs_depths.tif', '-out', 'bluespots.tif'] + (['-filter', scene['filter']] if scene['filter'] else []),
            ['depths'], ['bluespots.tif'])
        add('wsheds', ['wsheds', '-bluespots', 'bluespots.tif', '-flowdir', 'flowdir.tif', '-out', 'watersheds.tif'],
            ['bspots', 'flowdir'], ['watersheds.tif'])
        pds, pl = vec(f, 'pourpoints', shared)
        add('pourpts', ['pourpts', '-bluespots', 'bluespots.tif', '-depths', 'bs_depths.tif', '-watersheds', 'watersheds.tif'] +
            (['-accum', 'accum.tif'] if scene['accum'] else ['-dem', 'dem.tif']) + ['-out', pds, '-format', DRIVER[f], '-layername', pl],
            ['bspots', 'depths', 'wsheds'] + (['accum'] if scene['accum'] else []), layers=[Layer(pds, pl, f)])
        if f != 'geojson':
            nds, nl = vec(f, 'nodes', shared)
            sds, sl = vec(f, 'streams', shared)
            add('network', ['network', '-bluespots', 'bluespots.tif', '-flowdir', 'flowdir.tif', '-pourpoints', pds, '-pourpoints_layer', pl,
                            '-out', nds, '-out_nodes_layer', nl, '-out_streams_layer', sl, '-format', DRIVER[f]],
                ['bspots', 'flowdir', 'pourpts'], layers=[Layer(nds, nl, f), Layer(sds, sl, f)])
        else:
            # one GeoJSON file holds one layer, so the network goes to a GeoPackage of its own
            add('network', ['network', '-bluespots', 'bluespots.tif', '-flowdir', 'flowdir.tif', '-pourpoints', pds, '-pourpoints_layer', pl,
                            '-out', 'net.gpkg', '-format', 'gpkg'],
                ['bspots', 'flowdir', 'pourpts'], layers=[Layer('net.gpkg', 'nodes', 'gpkg'), Layer('net.gpkg', 'streams', 'gpkg')])
        hds, hl = vec(nongeo, 'hyps', shared)
        add('hyps', ['hyps', '-bluespots', 'bluespots.tif', '-dem', 'dem.tif', '-pourpoints', pds, '-pourpoints_layer', pl, '-zresolution', scene['zres'],
                     '-out', hds, '-out_hyps_layer', hl, '-format', DRIVER[nongeo]],
            ['bspots', 'pourpts'], layers=[Layer(hds, hl, nongeo)])
        if scene['vector']:
            for src, nm in (('bluespots', 'bspolys'), ('watersheds', 'wspolys')):
                vds, vl = vec(f, nm, shared)
                add(nm, ['polys', '-raster', src + '.tif', '-out', vds, '-format', DRIVER[f], '-layername', vl],
                    ['bspots' if src == 'bluespots' else 'wsheds'], layers=[Layer(vds, vl, f)])
    if suffix == '@terrain':
        return S
    sfx = suffix
    nds, nl = (vec(f, 'nodes', shared) if f != 'geojson' else ('net.gpkg', 'nodes'))
    hds, hl = vec(nongeo, 'hyps', shared)
    ids, il = vec(f, 'initvolumes' + sfx, shared)
    rn = rain or dict(mm=scene['mm'])
    if 'mm' in rn:
        how, rdeps = ['-mm', rn['mm']], []
    else:
        how, rdeps = ['-pr', rn['pr'], '-pr_unit', rn['unit'], '-bluespots', rn.get('zones', 'watersheds.tif')], ['wsheds', 'bspots']
    add('initvolumes' + sfx, ['initvolumes', '-nodes', nds, '-nodes_layer', nl] + how + ['-out', ids, '-out_layer', il, '-format', DRIVER[f]],
        ['network'] + rdeps, layers=[Layer(ids, il, f)])
    fds, fl = vec(f, 'finalvolumes' + sfx, shared)
    add('finalvolumes' + sfx, ['finalvolumes', '-inputvolumes', ids, '-inputvolumes_layer', il, '-out', fds, '-out_layer', fl, '-format', DRIVER[f]],
        ['initvolumes' + sfx], layers=[Layer(fds, fl, f)])
    lds, ll = vec(nongeo, 'finallevels' + sfx, shared)
    add('finallevels' + sfx, ['finallevels', '-finalvols', fds, '-finalvols_layer', fl, '-hyps', hds, '-hyps_layer', hl,
                              '-out', lds, '-out_layer', ll, '-format', DRIVER[nongeo]],
        ['finalvolumes' + sfx, 'hyps'], layers=[Layer(lds, ll, nongeo)])
    add('finalbluespots' + sfx, ['finalbluespots', '-bluespots', 'bluespots.tif', '-dem', 'dem.tif', '-finallevels', lds, '-finallevels_layer', ll,
                                 '-out_depths', 'finaldepths%s.tif' % sfx, '-out_bluespots', 'finalbluespots%s.tif' % sfx],
        ['finallevels' + sfx, 'bspots'], ['finaldepths%s.tif' % sfx, 'finalbluespots%s.tif' % sfx])
    pds, pl = vec(f, 'finalpolys' + sfx, shared)
    add('polys' + sfx, ['polys', '-raster', 'finalbluespots%s.tif' % sfx, '-out', pds, '-format', DRIVER[f], '-layername', pl],
        ['finalbluespots' + sfx], layers=[Layer(pds, pl, f)])
    return S


def complete_stage(scene, outdir='out'):
    args = ['complete', '-dem', 'dem.tif', '-outdir', outdir, '-mm', scene['mm'], '-zresolution', scene['zres'], '-filter', scene['filter'] or 'area > 0']
    if scene['accum']:
        args.append('-accum')
    if scene['vector']:
        args.append('-vector')
    g = outdir + '/malstroem.gpkg'
    ras = ['filled', 'flowdir', 'bs_depths', 'watersheds', 'bluespots', 'finaldepths', 'finalbluespots'] + (['accum'] if scene['accum'] else [])
    lay = ['pourpoints', 'nodes', 'streams', 'initvolumes', 'finalstate', 'hypsometry', 'finallevels', 'finalbluespots'] + (
        ['watersheds', 'bluespots'] if scene['vector'] else [])
    return Stage('complete', args, [], [outdir + '/' + r + '.tif' for r in ras], [Layer(g, n, 'gpkg') for n in lay])


PATHOPTS = {'-dem', '-filled', '-out', '-depths', '-flowdir', '-bluespots', '-watersheds', '-accum', '-pourpoints', '-nodes', '-pr', '-inputvolumes',
            '-finalvols', '-hyps', '-finallevels', '-out_depths', '-out_bluespots', '-raster', '-outdir'}


def absolute(args, data):
    out, prev = [], None
    for a in args:
        out.append(os.path.join(data, a) if prev in PATHOPTS and not str(a).startswith('-') else str(a))
        prev = a
    return out


def lay_out(root, scene):
    """create the simulation root of one world"""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, 'data'))
    os.makedirs(os.path.join(root, 'tmp'))
    if scene['fmt'] == 'shp':
        os.makedirs(os.path.join(root, 'data', 'shp'))
    d = scene['dem']
    p = os.path.join(root, 'data', 'dem.tif')
    write_tif(p, dem_array(d), transform(d), d['nodata'])
    os.utime(p, (1577836800, 1577836800))
