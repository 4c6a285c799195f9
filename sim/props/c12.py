"""C12: what is written is what is read back, over any history."""
import gc
import json
import math
import os
import pickle
import random
import shutil
import signal

import npmem
import numpy as np

import core
import ops
import world
from props.c10 import disarm, put

ID = 'C12'
UNITS = {'quick': 300, 'thorough': 20000}
PER_UNIT = {'quick': 3, 'thorough': 3}
NOTE = ('Seeded search over histories of writes, overwrites, appends, removals, reads, abandoned reads and retries on two raster files and layers of four formats, in one or more processes, '
        'with disk errors, short transfers, bad sectors, full devices, broken feature sources and process deaths; a register model says what every read must deliver. Samples histories.')
RULE = ('A case is a history: sessions (processes) of steps with their faults. It runs once without faults (which also locates the faults) and once with them. '
        'Distinct by history, log of file operations and outcomes.')
MEASURE = 'history, outcome of every step and log of intercepted operations.'
REAL = ['malstroem.io (RasterReader, RasterWriter, VectorReader, VectorWriter), malstroem.vector', 'GDAL/OGR, SQLite', 'Python tempfile']
STUB = ['disk errors, device space and process death (drawn)', 'other programs that write rasters (GDAL used directly)']
ASSUMPTIONS = ['a world file of another program beside a raster written without georeference is out of scope', 'names and encoding of text in shapefiles are limited by the format',
               'after a failed overwrite of a raster its contents are undefined until it is written again',
               'a failed write of a layer leaves no layer or the complete layer in a GeoPackage; files of other formats are removed before the next attempt']

RASTERS = ['a.tif', 'b.tif']
LAYERS = {'v.gpkg/l0': ('gpkg', 'v.gpkg', 'l0'), 'v.gpkg/l1': ('gpkg', 'v.gpkg', 'l1'), 'v.gpkg/L 2': ('gpkg', 'v.gpkg', 'L 2'),
          'x': ('geojson', 'x.geojson', 'x'), 's': ('shp', 's.shp', 's'), 'dir/t0': ('shp', 'dir', 't0'), 'dir/t1': ('shp', 'dir', 't1'), 'c': ('csv', 'c.csv', 'c'),
          # a second layer given to a shapefile has a file beside it
          'beside': ('shp', 's.shp', 'beside'),
          'q.sqlite/l0': ('sqlite', 'q.sqlite', 'l0'), 'q.sqlite/l1': ('sqlite', 'q.sqlite', 'l1'), 'f': ('fgb', 'f.fgb', 'f'), 't': ('tab', 't.tab', 't')}
# formats that are only used on a healthy machine
CALM = ('sqlite', 'fgb', 'tab')
DRIVER = dict(world.DRIVER, sqlite='SQLite', fgb='FlatGeobuf', tab='MapInfo File')
WRITABLE = ['float32', 'float32', 'float64', 'int32', 'int32', 'uint8', 'int16', 'uint16', 'uint32', 'int64', 'uint64', 'int8', 'bool', 'float16', '>f4', '>f8', '>i4', 'longdouble']
FOREIGN = ['float32', 'float64', 'int32', 'uint8', 'int16', 'uint16', 'uint32', 'int64', 'int8']
NODATA = [None, None, -9999.0, -999.0, 0, 255, float(np.finfo('float32').min), 'nan', 1000000, 1e20, 0.1]
TRANSFORMS = [None, [500000.0, 1.0, 0.0, 6200000.0, 0.0, -1.0], [500000.25, 0.4, 0.0, 6200000.125, 0.0, -0.4], [0.0, 1.0, 0.0, 0.0, 0.0, -1.0],
              [720000.1, 1.6, 0.1, 6170000.3, -0.2, -1.6], [12.5, 0.0001, 0.0, 55.7, 0.0, -0.0001], [0.0, 10.0, 0.0, 0.0, 0.0, 20.0]]


# ---- drawing histories

def array_spec(rng, dts):
    big = rng.random() < 0.06
    rows, cols = (rng.randint(250, 600), rng.randint(250, 300)) if big else (rng.randint(1, 12), rng.randint(1, 12))
    return dict(rows=rows, cols=cols, dt=rng.choice(dts), seed=rng.randrange(1 << 30), nodata=rng.choice(NODATA), gt=rng.choice(TRANSFORMS), crs=rng.choice(['utm', 'utm', 'geo', '']),
                view=rng.choice(['', '', '', 'T', 'step', 'flip']))


def feature_spec(rng):
    return dict(n=rng.choice([0, 1, 1, 2, 3, 5, 9, 30]) if rng.random() < 0.97 else rng.choice([260, 1100]), seed=rng.randrange(1 << 30), geom=rng.choice(['Point', 'Point', 'LineString', 'Polygon', None]), schema=rng.choice(['full', 'full', 'sparse', 'text', 'num', 'null']),
                shape=rng.choice(['list', 'list', 'generator', 'collection', 'tuple']))


def fault(rng, reading=False):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.4:
        return dict(how='memory', at=rng.random(), count=rng.choice([1, 1, 2, 1000000]))
    if reading:
        return dict(how='disk', at=rng.random(), kind=rng.choice(['read', 'read', 'read', 'openr', 'seek' if False else 'read', 'lock']), err=rng.choice(core.ERRS), count=rng.choice([1, 1, 2, 1000000])) if r < 0.7 else (
            dict(how='short', at=rng.random(), kind='read', count=rng.choice([1, 1, 30]), param=rng.randint(0, 1000)) if r < 0.85 else dict(how='sector', at=rng.random(), len=rng.choice([1, 8, 32, 128, 512, 4096])))
    if r < 0.6:
        return dict(how='disk', at=rng.random(), kind=rng.choice(['openr', 'openw', 'closew', 'read', 'write', 'write', 'write', 'sync', 'trunc', 'unlink', 'mkdir', 'lock', 'rename']), err=rng.choice(core.ERRS),
                    count=rng.choice([1, 1, 2, 1000000]))
    if r < 0.72:
        return dict(how='full', at=rng.random())
    if r < 0.78:
        return dict(how='short', at=rng.random(), kind=rng.choice(['read', 'write']), count=rng.choice([1, 1, 30]), param=rng.randint(0, 1000))
    if r < 0.9:
        return dict(how='source', at=rng.random(), what=rng.choice(['raise', 'badvalue', 'nofeature']))
    return dict(how='die', at=rng.random(), act=rng.choice(['crash_before', 'crash_after', 'crash_torn']), param=rng.randint(0, 1000))


def random_step(rng, known):
    r = rng.random()
    ras = [k for k in known if k in RASTERS]
    lay = [k for k in known if k in LAYERS]
    if r < 0.16 or not known:
        return dict(do='rwrite', key=rng.choice(RASTERS), a=array_spec(rng, WRITABLE), fault=fault(rng), retry=rng.choice(['same', 'new']))
    if r < 0.22:
        return dict(do='foreign', key=rng.choice(RASTERS), a=array_spec(rng, FOREIGN), aux=rng.random() < 0.4, kind=rng.choice(['plain', 'plain', 'tiled', 'world']))
    if r < 0.42 and ras:
        return dict(do='rread', key=rng.choice(ras), subst=rng.choice([None, None, -999, 0, 7.5, -1]), times=rng.randint(1, 3), scribble=rng.random() < 0.5, keep=rng.random() < 0.3, fault=fault(rng, True),
                    when=rng.choice(['open', 'read', 'read']))
    if r < 0.62:
        f = fault(rng)
        key = rng.choice(sorted(LAYERS))
        fs = [feature_spec(rng) for _ in range(rng.choice([1, 1, 1, 1, 2]))]
        if LAYERS[key][0] in CALM:
            f = None
            if LAYERS[key][0] == 'tab':
                fs = [dict(x, schema='num', n=max(x['n'], 1)) for x in fs]
            if LAYERS[key][0] in ('fgb', 'sqlite'):
                fs = [dict(x, geom=x['geom'] or 'Point') for x in fs]
        return dict(do='vwrite', key=key, f=fs, fault=f, retry=rng.choice(['same', 'new']))
    if r < 0.92 and lay:
        key = rng.choice(lay)
        return dict(do='vread', key=key, by=rng.choice(['name', 'name', 'index', 'none']), keep=rng.random() < 0.3,
                    script=[rng.choice(['full', 'full', 'abandon', 'closed', 'raise', 'reset', 'hold']) for _ in range(rng.randint(0, 3))] + ['full'], k=rng.randint(0, 3), fault=fault(rng, True) if LAYERS[key][0] not in CALM else None,
                    when=rng.choice(['open', 'read', 'read']))
    if r < 0.97 or not known:
        return dict(do='session')
    return dict(do='remove', key=rng.choice(sorted(known)))


def cases(rng, tier, ctx, u):
    for _ in range(PER_UNIT[tier]):
        hist, known = [], []
        last = {}
        for _ in range(rng.randint(2, 9)):
            s = random_step(rng, known)
            if s['do'] == 'rwrite':
                if s['key'] in last and rng.random() < 0.4:
                    # nearly what is there already
                    s['a'] = dict(last[s['key']], tweak=rng.random())
                last[s['key']] = s['a']
            hist.append(s)
            if s['do'] in ('rwrite', 'foreign', 'vwrite') and s['key'] not in known:
                known.append(s['key'])
        yield dict(hist=hist)


# ---- making data

def nodata_of(s):
    return float('nan') if s['nodata'] == 'nan' else s['nodata']


def make_array(s):
    rnd = np.random.RandomState(s['seed'] % (1 << 31))
    n = s['rows'] * s['cols']
    dt = np.dtype(s['dt'])
    if dt.kind == 'f':
        a = rnd.uniform(-100, 3000, n)
        if s['seed'] % 3 == 0:
            a = np.round(a)
        if s['seed'] % 7 == 0 and dt.itemsize >= 4:
            a[::5] = 1e30
        if s['seed'] % 11 == 0 and dt.itemsize >= 8 and dt.kind == 'f':
            a[::3] *= 1e200
        if s['seed'] % 5 == 0:
            a[::4] = np.nan
        if s['seed'] % 13 == 0:
            a[::6] = np.inf
        if s['seed'] % 17 == 0:
            a[:] = 0
    elif dt.kind == 'b':
        a = rnd.rand(n) < 0.5
    else:
        lo, hi = {1: (-100, 100), 2: (-30000, 30000), 4: (-2 ** 31, 2 ** 31 - 1), 8: (-2 ** 31, 2 ** 31 - 1)}[dt.itemsize]
        if dt.kind == 'u':
            lo, hi = 0, {1: 255, 2: 65535, 4: 2 ** 32 - 1, 8: 2 ** 32 - 1}[dt.itemsize]
        if s['seed'] % 3 == 0:
            lo, hi = max(lo, -5), min(hi, 300)
        a = rnd.randint(lo, hi + 1, n, dtype='int64')
    a = a.astype(dt)
    nd = nodata_of(s)
    if nd is not None and s['seed'] % 2:
        with np.errstate(all='ignore'):
            if dt.kind == 'f':
                a[::3] = dt.type(nd)
                if s['dt'] in ('float32', 'float64') and not math.isnan(nd):
                    # close, but not nodata
                    a[1::9] = dt.type(nd * (1 + 1e-4) if nd else 1e-6)
                    a[2::9] = dt.type(-nd)
            elif dt.kind in 'iu' and np.iinfo(dt).min <= nd <= np.iinfo(dt).max and nd == int(nd):
                a[::3] = int(nd)
                if np.iinfo(dt).min <= nd - 1 and nd + 5 <= np.iinfo(dt).max:
                    a[1::9] = int(nd) - 1
                    a[2::9] = int(nd) + 5
    if s.get('tweak') is not None:
        # a part of the values in another order
        k = int(s['tweak'] * n)
        a[k:] = np.roll(a[k:], 1)
    a = a.reshape(s['rows'], s['cols'])
    return a


def view(a, how):
    """the same values, laid out differently in memory"""
    if how == 'T':
        return np.array(a.T).T
    if how == 'step':
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 2), a.dtype)
        b[::2, ::2] = a
        return b[::2, ::2]
    if how == 'flip':
        return a[::-1, ::-1].copy()[::-1, ::-1]
    return a


def crs_of(name):
    from osgeo import osr
    if name == 'utm':
        return world.wkt()
    return '' if not name else ('GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563,AUTHORITY["EPSG","7030"]],AUTHORITY["EPSG","6326"]],'
                                'PRIMEM["Greenwich",0,AUTHORITY["EPSG","8901"]],UNIT["degree",0.0174532925199433,AUTHORITY["EPSG","9122"]],AXIS["Latitude",NORTH],AXIS["Longitude",EAST],AUTHORITY["EPSG","4326"]]')


TEXT = ['', 'a', 'NaN', ']}', '{"a": [1, 2]', '1|0|3', '-1', 'Infinity, -0', 'pourpoint', 'junction', 'Malstrøm "2"', "it's; a, b", 'x' * 60, 'two\nlines', '007', ' lead', 'null', 'æøå日本']


def make_features(s):
    r = random.Random(s['seed'])
    out = []
    for i in range(s['n']):
        p = {}
        if s['schema'] in ('full', 'num', 'sparse', 'null'):
            p['bspot_id'] = i + 1
            p['volume'] = r.choice([0.0, 1.5, r.uniform(0, 1e6), 1e-3 * r.random(), 1 / 3.0])
            p['big'] = 2 ** 31 + r.randrange(1000) if s.get('more') else r.choice([0, 2 ** 31 + r.randrange(1000), -5])
            p['dstr'] = r.choice([None, r.randrange(100)])
            p['hist_resolution'] = r.choice([0.25, 0.5])
        if s['schema'] in ('full', 'text'):
            p['nodetype'] = r.choice(TEXT)
            p['hist_resolutext'] = r.choice(TEXT)
        if s['schema'] == 'sparse' and i:
            for k in list(p):
                if r.random() < 0.3:
                    del p[k]
        if s['schema'] == 'null':
            p['never'] = None
        x, y = 500000 + r.randrange(4000) / 4.0, 6200000 - r.randrange(4000) / 4.0
        g = s['geom']
        geom = None
        if g == 'Point':
            geom = dict(type=g, coordinates=[x, y])
        elif g == 'LineString':
            geom = dict(type=g, coordinates=[[x + k, y - k * k / 2.0] for k in range(r.randint(2, 6))])
        elif g == 'Polygon':
            geom = dict(type=g, coordinates=[[[x, y], [x, y - 2], [x + 3, y - 2], [x + 3, y], [x, y]]])
        out.append(dict(type='Feature', properties=p, geometry=geom))
    return out


def columns(feats):
    """the fields a layer gets from its first write"""
    out = []
    for f in feats:
        out += [k for k in f['properties'] if k not in out]
    return out


# ---- comparing

def same_array(got, want, exact_type):
    if got.shape != want.shape:
        return 'shape %s instead of %s' % (got.shape, want.shape)
    if exact_type and got.dtype != want.dtype:
        return 'type %s instead of %s' % (got.dtype, want.dtype)
    w = want
    if w.dtype.kind == 'f' or got.dtype.kind == 'f':
        w, got = w.astype('longdouble'), got.astype('longdouble')
        eq = (w == got) | (np.isnan(w) & np.isnan(got))
    else:
        eq = w.astype(object) == got.astype(object) if (w.dtype.kind == 'u') != (got.dtype.kind == 'u') else w == got
    bad = np.argwhere(~np.asarray(eq, bool))
    if len(bad):
        r, c = bad[0]
        return '%d of %d cells differ, first (%d, %d): %r instead of %r' % (len(bad), w.size, r, c, got[r, c], want[r, c])
    return None


def same_number(a, b, rel):
    return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and math.isclose(a, b, rel_tol=rel, abs_tol=rel))


def same_value(got, want, fmt):
    if fmt == 'csv':
        if want is None:
            return got in (None, '')
        if isinstance(want, str):
            return (got or '') == want
        try:
            return math.isclose(float(got), float(want), rel_tol=1e-12, abs_tol=1e-12)
        except (TypeError, ValueError):
            return False
    if isinstance(want, str):
        # shapefiles do not know empty text, and their text is limited to 254 bytes
        if fmt == 'shp' and want.strip() != want:
            return (got or '').strip() == want.strip()
        return (got or '') == want.encode('latin-1', 'replace').decode('latin-1') if fmt == 'shp' else got == want
    if want is None:
        return got is None or fmt == 'tab' and not got
    return same_number(got, want, 1e-9 if fmt == 'shp' else 1e-14)


def flat(x):
    return [y for v in x for y in flat(v)] if isinstance(x, list) else [x]


def in_order(feats):
    return sorted(feats, key=lambda f: (f['geometry'] is not None and flat(f['geometry']['coordinates']) or [], f['properties'].get('bspot_id') or 0, sorted(str(v) for v in f['properties'].values() if v is not None)))


def same_features(got, want, fmt, cols):
    if len(got) != len(want):
        return '%d features instead of %d' % (len(got), len(want))
    if fmt == 'fgb':
        # in the order of a spatial index
        got, want = in_order(got), in_order(want)
    for i, (g, w) in enumerate(zip(got, want)):
        for n, k in enumerate(cols):
            # names in shapefiles are cut off
            gk = list(g['properties'])[n] if fmt == 'shp' and n < len(g['properties']) else k
            if gk not in g['properties'] or not same_value(g['properties'][gk], w['properties'].get(k), fmt):
                return 'feature %d: %s is %r instead of %r' % (i, k, g['properties'].get(gk), w['properties'].get(k))
        if fmt == 'csv':
            continue
        a, b = g['geometry'], w['geometry']
        if (a is None) != (b is None):
            return 'feature %d: geometry %s instead of %s' % (i, a, b)
        if a:
            if a['type'] != b['type']:
                return 'feature %d: %s instead of %s' % (i, a['type'], b['type'])
            p, q = flat(a['coordinates']), flat(b['coordinates'])
            if a['type'] == 'Polygon' and fmt == 'shp':
                # rings are turned and may start elsewhere
                p, q = sorted(p), sorted(q)
            if len(p) != len(q) or not all(math.isclose(x, y, rel_tol=0, abs_tol=0.01 if fmt == 'tab' else 1e-6) for x, y in zip(p, q)):
                return 'feature %d: coordinates %s instead of %s' % (i, a['coordinates'], b['coordinates'])
    return None


# ---- the simulated program

class Reg(object):
    """what a file or layer must hold"""
    NONE, FULL, UNKNOWN = 'none', 'full', 'unknown'

    def __init__(self, state=NONE, value=None):
        self.state, self.value = state, value


class Program(object):
    def __init__(self, ctx, case, faults, base, prog):
        self.ctx, self.case, self.faults, self.base, self.prog = ctx, case, faults, base, prog
        self.ctl = ctx.ctl
        self.bad, self.outcomes, self.sizes = [], [], {}
        self.dir = ctx.data

    def path(self, name):
        return os.path.join(self.dir, name)

    def wrong(self, i, sig, msg):
        self.bad.append((sig, 'step %d (%s %s): %s' % (i, self.case['hist'][i]['do'], self.case['hist'][i].get('key', ''), msg)))

    def report(self, at, reg):
        with open(self.prog, 'wb') as f:
            pickle.dump((at, reg, self.bad, self.outcomes, self.sizes), f)

    def session(self, start, reg):
        """run steps until the end of the process"""
        self.reg = reg
        self.readers = []
        hist = self.case['hist']
        for i in range(start, len(hist)):
            s = hist[i]
            self.i = i
            self.report(i, reg)
            if s['do'] == 'session':
                self.report(i + 1, reg)
                return
            self.counts0 = None
            self.check_kept()
            getattr(self, s['do'])(s)
        self.i = len(hist)
        self.report(self.i, reg)
        self.i -= 1
        for key in sorted(reg):
            self.final(key)
        self.report(len(hist) + 1, reg)

    # -- faults

    def armed(self, f, label):
        return Armed(self, f, '%d %s' % (self.i, label))

    # -- rasters

    def forget(self, name):
        self.readers = [r for r in self.readers if r[0] != name]
        gc.collect()

    def value(self, s, a):
        return dict(a=a, nodata=nodata_of(s), gt=s['gt'], crs=s['crs'], dt=str(a.dtype), kept=a.dtype in (np.float64, np.float32, np.int32, np.uint32, np.int16, np.uint16, np.uint8))

    def rwrite(self, s):
        from malstroem.io import RasterWriter
        self.forget(s['key'])
        p = self.path(s['key'])
        a = make_array(s['a'])
        given = view(a, s['a']['view'])
        before = given.copy()
        w = RasterWriter(p, tuple(s['a']['gt']) if s['a']['gt'] else None, crs_of(s['a']['crs']), nodata_of(s['a']))
        f = s['fault'] if s['fault'] and s['fault']['how'] != 'source' else None
        for attempt, fl in enumerate([f, None] if f else [None]):
            self.reg[s['key']] = Reg(Reg.UNKNOWN)
            self.report(self.i, self.reg)
            err = None
            if attempt and s['retry'] == 'new':
                w = RasterWriter(p, tuple(s['a']['gt']) if s['a']['gt'] else None, crs_of(s['a']['crs']), nodata_of(s['a']))
            with self.armed(fl, 'write%d' % attempt):
                try:
                    w.write(given)
                except Exception as e:
                    err = e
            self.outcomes.append('%d rwrite %s' % (self.i, type(err).__name__))
            if err is None:
                self.reg[s['key']] = Reg(Reg.FULL, self.value(s['a'], a))
                break
            if fl is None:
                self.wrong(self.i, 'raster: cannot write', '%s: %s' % (type(err).__name__, err))
        if not np.array_equal(given, before, equal_nan=before.dtype.kind == 'f'):
            self.wrong(self.i, 'raster: argument', 'the array given to the writer is changed')
        if s['fault'] and s['fault']['how'] == 'die':
            pass

    def foreign(self, s):
        from osgeo import gdal, gdal_array
        self.forget(s['key'])
        p = self.path(s['key'])
        for n in os.listdir(self.dir):
            if n.startswith(s['key'].split('.')[0] + '.'):
                os.unlink(self.path(n))
        a = make_array(s['a'])
        nd = nodata_of(s['a'])
        v = self.value(s['a'], a)
        v['kept'] = True
        ds = gdal.GetDriverByName('GTiff').Create(p, a.shape[1], a.shape[0], 1, gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype.type),
                                                  {'plain': [], 'tiled': ['TILED=YES', 'COMPRESS=LZW'], 'world': ['TFW=YES']}[s['kind']])
        if s['a']['gt']:
            ds.SetGeoTransform(s['a']['gt'])
        if s['a']['crs']:
            ds.SetProjection(crs_of(s['a']['crs']))
        if nd is not None:
            if a.dtype.kind != 'f' and (nd != nd or nd != int(nd) or not np.iinfo(a.dtype).min <= nd <= np.iinfo(a.dtype).max):
                v['nodata'] = None
            else:
                ds.GetRasterBand(1).SetNoDataValue(nd if a.dtype.kind == 'f' else int(nd))
        ds.GetRasterBand(1).WriteArray(a)
        ds = None
        if s['aux']:
            # what desktop programs leave beside a raster
            with open(p + '.aux.xml', 'w') as f:
                f.write('<PAMDataset><PAMRasterBand band="1"><Metadata><MDI key="STATISTICS_MAXIMUM">7</MDI></Metadata></PAMRasterBand></PAMDataset>')
        self.reg[s['key']] = Reg(Reg.FULL, v)
        self.outcomes.append('%d foreign' % self.i)

    def want_array(self, v, subst):
        """(array, exact type)"""
        a = v['a']
        nd = v['nodata']
        free = None
        if subst is not None and nd is not None:
            a = a.copy()
            with np.errstate(all='ignore'):
                if nd != nd:
                    mask = np.isnan(a) if a.dtype.kind == 'f' else np.zeros(a.shape, bool)
                elif a.dtype.kind == 'f':
                    f = a.astype('float64')
                    mask = np.isclose(f, nd, rtol=1.3e-7, atol=0)
                    # so close that GDAL itself may take it for nodata
                    free = np.isclose(f, nd, rtol=1e-6, atol=1e-9) & ~mask
                else:
                    mask = a.astype('float64') == nd
                a[mask] = np.array(subst).astype(a.dtype)
        return a, free

    def check_raster(self, r, data, v, subst, what):
        want, free = self.want_array(v, subst)
        if free is not None and free.any() and data.shape == want.shape:
            either = free & (data == np.array(subst).astype(want.dtype))
            want = np.where(either, data, want).astype(want.dtype)
        d = same_array(data, want, v['kept'])
        if d:
            self.wrong(self.i, 'raster: values', '%s (%s, nodata %s, substitute %s): %s' % (what, v['dt'], v['nodata'], subst, d))

    def check_meta(self, r, v):
        from osgeo import osr
        if tuple(r.shape) != v['a'].shape:
            self.wrong(self.i, 'raster: shape', '%s instead of %s' % (r.shape, v['a'].shape))
        gt = v['gt'] or [0.0, 1.0, 0.0, 0.0, 0.0, 1.0]
        # (a world file is not replaced by a raster which has no georeference)
        stale = gt[:3] == [0.0, 1.0, 0.0] and os.path.exists(r.filepath[:-4] + '.tfw')
        if stale:
            return
        if not all(math.isclose(x, y, rel_tol=1e-12, abs_tol=1e-9) for x, y in zip(r.transform, gt)):
            self.wrong(self.i, 'raster: georeference', '%s instead of %s' % (list(r.transform), gt))
        if v['gt'] and not all(math.isclose(x, y, rel_tol=1e-12) for x, y in zip(r.resolution, (abs(gt[5]), abs(gt[1])))):
            self.wrong(self.i, 'raster: resolution', '%s with %s' % (r.resolution, gt))
        a, b = r.nodata, v['nodata']
        if not (a is None and b is None or a is not None and b is not None and (a == b or a != a and b != b or (np.dtype(v['dt']).itemsize <= 4 or not v['kept']) and np.float32(a) == np.float32(b))):
            self.wrong(self.i, 'raster: nodata', '%r instead of %r (%s)' % (a, b, v['dt']))
        if bool(r.crs) != bool(v['crs']):
            self.wrong(self.i, 'raster: crs', '%r instead of %s' % (r.crs[:60], v['crs']))
        elif r.crs:
            x, y = osr.SpatialReference(r.crs), osr.SpatialReference(crs_of(v['crs']))
            if not x.IsSame(y):
                self.wrong(self.i, 'raster: crs', '%r instead of %s' % (r.crs[:60], v['crs']))

    def rread(self, s):
        from malstroem.io import RasterReader
        g = self.reg.get(s['key'])
        if g is None or g.state != Reg.FULL:
            return
        v = g.value
        p = self.path(s['key'])
        f = s['fault']
        r = None
        subst = s['subst'] if v['kept'] else None
        for attempt in range(2):
            fl = f if f and s['when'] == 'open' and not attempt else None
            err = None
            with self.armed(fl, 'open%d' % attempt):
                try:
                    r = RasterReader(p, nodatasubst=subst)
                except Exception as e:
                    err = e
            self.outcomes.append('%d open %s' % (self.i, type(err).__name__))
            if err is None:
                break
            if fl is None:
                self.wrong(self.i, 'raster: cannot open', '%s: %s' % (type(err).__name__, err))
                return
        self.check_meta(r, v)
        n = s['times'] + (1 if f else 0)
        failed = False
        for k in range(n):
            fl = f if f and s['when'] == 'read' and k == 0 else None
            data = err = None
            with self.armed(fl, 'read%d' % k):
                try:
                    data = r.read()
                except Exception as e:
                    err = e
            self.outcomes.append('%d read %s' % (self.i, type(err).__name__))
            if err is not None:
                failed = True
                if fl is None:
                    self.wrong(self.i, 'raster: cannot read', 'reading number %d%s: %s: %s' % (k + 1, ' after a failed one' if failed else '', type(err).__name__, err))
                continue
            self.check_raster(r, data, v, subst, 'reading number %d%s' % (k + 1, ' after a failed one' if failed else ''))
            if s['scribble'] and data.size:
                data[...] = 1
        if s['keep']:
            self.readers.append((s['key'], 'raster', r, subst))

    # -- vectors

    def openkey(self, key):
        fmt, ds, lyr = LAYERS[key]
        return fmt, self.path(ds), lyr

    def readpath(self, key):
        fmt, p, lyr = self.openkey(key)
        if key == 'beside':
            p = self.path('beside.shp')
        # a shapefile without geometry is a table
        return p[:-4] + '.dbf' if p.endswith('.shp') and not os.path.exists(p) else p

    def gone(self, key):
        """after a failed attempt: what a careful user removes"""
        fmt, p, lyr = self.openkey(key)
        if fmt == 'gpkg':
            return
        if fmt == 'shp' and not p.endswith('.shp'):
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.startswith(lyr + '.'):
                        os.unlink(os.path.join(p, n))
        elif fmt == 'shp':
            for n in os.listdir(self.dir):
                if n.startswith(lyr + '.'):
                    os.unlink(self.path(n))
        elif fmt == 'tab':
            for n in os.listdir(self.dir):
                if n.startswith('t.'):
                    os.unlink(self.path(n))
        elif os.path.exists(p):
            os.unlink(p)

    def drop_layer(self, key):
        from osgeo import ogr
        fmt, p, lyr = self.openkey(key)
        if fmt not in ('gpkg', 'sqlite'):
            return self.gone(key)
        if os.path.exists(p):
            ds = ogr.Open(p, 1)
            for i in range(ds.GetLayerCount()):
                if ds.GetLayerByIndex(i).GetName() == lyr:
                    ds.DeleteLayer(i)
                    break
            ds = None

    def vwrite(self, s):
        from malstroem.io import VectorWriter
        from osgeo import ogr
        key = s['key']
        fmt, p, lyr = self.openkey(key)
        if key == 'beside' and not os.path.exists(p):
            return
        self.forget(p)
        if key in self.reg and self.reg[key].state != Reg.NONE:
            self.drop_layer(key)
            self.reg[key] = Reg()
            self.report(self.i, self.reg)
        if fmt == 'shp' and not p.endswith('.shp'):
            os.makedirs(p, exist_ok=True)

        geom = s['f'][0]['geom'] if fmt != 'csv' else None
        gtype = {'Point': ogr.wkbPoint, 'LineString': ogr.wkbLineString, 'Polygon': ogr.wkbPolygon, None: ogr.wkbNone}[geom]
        if fmt == 'shp' and not p.endswith('.shp') and gtype == ogr.wkbNone:
            # a table alone: the directory holds a .dbf only
            pass

        def writer():
            return VectorWriter(DRIVER[fmt], p, lyr, None, gtype, world.wkt())
        w = writer()
        done, cols = [], None
        f = s['fault']
        for n, fs in enumerate(s['f']):
            fs = dict(fs, geom=geom, more=len(s['f']) > 1)
            if n:
                # later writes go to the fields that are there
                fs['schema'] = s['f'][0]['schema']
                if not s['f'][0]['n'] or s['f'][0]['schema'] in ('sparse', 'null') or any(all(x['properties'][c] is None for x in done) for c in cols) or fmt != 'gpkg':
                    break
            feats = make_features(fs)
            before = json.dumps(feats)
            # (GDAL counts the features of a failed append to a GeoPackage layer when the disk ended its transaction)
            hurtable = f and n == len(s['f']) - 1 and (not n or f['how'] == 'source')
            for attempt, fl in enumerate([f, None] if hurtable else [None]):
                self.reg[key] = Reg(Reg.UNKNOWN, (list(done), cols, feats))
                self.report(self.i, self.reg)
                src, hurt = self.source(feats, fs['shape'], fl)
                if attempt and s['retry'] == 'new' and not n:
                    w = writer()
                err = None
                with self.armed(fl if fl and fl['how'] != 'source' else None, 'vwrite%d.%d' % (n, attempt)):
                    try:
                        w.write_geojson_features(src)
                    except Exception as e:
                        err = '%s: %s' % (type(e).__name__, e)
                        e.__traceback__ = None
                src = None
                gc.collect()
                self.outcomes.append('%d vwrite %s' % (self.i, err and err.split(':')[0]))
                if err is None:
                    if hurt:
                        self.wrong(self.i, '%s: source' % fmt, 'a broken source of features (%s) is no error' % fl['what'])
                    done = done + feats
                    if cols is None and feats:
                        cols = columns(feats)
                    self.reg[key] = Reg(Reg.FULL, (done, cols or []))
                    self.report(self.i, self.reg)
                    break
                if fl is None:
                    self.wrong(self.i, '%s: cannot write' % fmt, '%s%s' % (err, ' (%s writer after a failure)' % s['retry'] if attempt else ''))
                    self.reg[key] = Reg(Reg.UNKNOWN, (list(done), cols, feats))
                    self.drop_layer_quietly(key, w)
                    return
                if self.settle(key):
                    # all of it is there although it was reported as failed
                    if not hurt:
                        done, cols = self.reg[key].value
                        break
                if fmt != 'gpkg':
                    w = None
                    gc.collect()
                    self.gone(key)
                    if done:
                        done, cols = [], None
                        self.reg[key] = Reg()
                        return
                    if s['retry'] == 'same':
                        w = writer()
            if json.dumps(feats) != before:
                self.wrong(self.i, '%s: argument' % fmt, 'the features given to the writer are changed')

    def drop_layer_quietly(self, key, w):
        try:
            self.drop_layer(key)
            self.reg[key] = Reg()
        except Exception:
            pass

    def source(self, feats, shape, fl):
        hurt = bool(fl and fl['how'] == 'source' and feats)
        fs = [json.loads(json.dumps(x)) for x in feats] if hurt else feats
        if hurt:
            at = int(fl['at'] * len(feats))
            if fl['what'] == 'badvalue':
                fs[at]['properties']['bad'] = object()
            elif fl['what'] == 'nofeature':
                fs[at] = dict(kaputt=True, type='nothing')

            def g():
                for i, x in enumerate(fs):
                    if i == at and fl['what'] == 'raise':
                        raise ValueError('drawn')
                    yield x
            return g(), fl['what'] != 'nofeature'
        if shape == 'generator':
            return (x for x in fs), False
        if shape == 'collection':
            return dict(type='FeatureCollection', features=fs), False
        if shape == 'tuple':
            return tuple(fs), False
        return fs, False

    def settle(self, key):
        """after a failed write: a GeoPackage holds the layer as before or with everything"""
        from osgeo import ogr
        from malstroem.io import VectorReader
        fmt, p, lyr = self.openkey(key)
        if fmt != 'gpkg':
            return False
        done, cols, feats = self.reg[key].value
        gc.collect()
        try:
            if os.path.exists(p) and not os.path.getsize(p):
                os.unlink(p)
            ds = ogr.Open(p, 1) if os.path.exists(p) else None
            names = [ds.GetLayerByIndex(i).GetName() for i in range(ds.GetLayerCount())] if ds else []
            ds = None
            got = VectorReader(p, lyr).read_geojson_features() if lyr in names else None
        except Exception as e:
            ds = None
            if not [k for k in self.reg if LAYERS.get(k, [0, 0])[1] == LAYERS[key][1] and self.reg[k].state != Reg.NONE and k != key] and not done:
                # the file itself is what the failed attempt left
                gc.collect()
                for n in os.listdir(self.dir):
                    if n.startswith('v.gpkg'):
                        os.unlink(self.path(n))
                self.reg[key] = Reg()
                return False
            self.wrong(self.i, 'gpkg: unreadable', 'after a failed write: %s: %s' % (type(e).__name__, e))
            return False
        if got is None:
            if done:
                self.wrong(self.i, 'gpkg: lost', 'a failed append removed the layer')
            self.reg[key] = Reg(Reg.NONE)
            return False
        if done and not same_features(got, done, fmt, cols or []):
            self.reg[key] = Reg(Reg.FULL, (done, cols))
            return False
        d = same_features(got, done + feats, fmt, cols or columns(done + feats))
        if d:
            self.wrong(self.i, 'gpkg: partial', 'after a failed write: %s' % d)
            return False
        self.reg[key] = Reg(Reg.FULL, (done + feats, cols or columns(done + feats)))
        return True

    def check_crs(self, r, key):
        want, cols = self.reg[key].value
        fmt = LAYERS[key][0]
        if fmt in ('gpkg', 'shp', 'geojson', 'sqlite', 'fgb', 'tab') and want and want[0]['geometry'] is not None:
            if not r.crs or 'PROJCS' not in r.crs or fmt != 'tab' and 'UTM' not in r.crs:
                self.wrong(self.i, '%s: coordinate system' % fmt, '%r' % (r.crs and r.crs[:60]))

    def check_layer(self, got, key, what):
        fmt = LAYERS[key][0]
        want, cols = self.reg[key].value
        d = same_features(got, want, fmt, cols)
        if d and fmt == 'csv' and self.cut():
            self.wrong(self.i, 'csv: input cut off where it could not be read', '%s: %s' % (what, d))
        elif d:
            self.wrong(self.i, '%s: features' % fmt, '%s: %s' % (what, d))

    def cut(self):
        """did the process fail to read a CSV file?"""
        if not any(k == 'read' and path.endswith('.csv') and act in ('fail', 'bad sector', 'short') for k, path, ret, off, ln, act, err in self.ctl.log()):
            return False
        return True

    def vread(self, s):
        from malstroem.io import VectorReader
        key = s['key']
        g = self.reg.get(key)
        if g is None or g.state != Reg.FULL:
            return
        fmt, p, lyr = self.openkey(key)
        by = lyr
        if s['by'] != 'name' and fmt in ('geojson', 'csv') or s['by'] != 'name' and p.endswith('.shp'):
            by = 0 if s['by'] == 'index' else None
        f = s['fault']
        r = None
        for attempt in range(2):
            fl = f if f and s['when'] == 'open' and not attempt else None
            err = None
            with self.armed(fl, 'vopen%d' % attempt):
                try:
                    r = VectorReader(self.readpath(key), by)
                except Exception as e:
                    err = '%s: %s' % (type(e).__name__, e)
            self.outcomes.append('%d vopen %s' % (self.i, err and err.split(':')[0]))
            if err is None:
                self.check_crs(r, key)
                break
            if fl is None:
                self.wrong(self.i, '%s: cannot open' % fmt, err)
                return
        held = []
        failed = ''
        for n, how in enumerate(s['script']):
            fl = f if f and s['when'] == 'read' and n == 0 else None
            err = got = None
            with self.armed(fl, 'vread%d' % n):
                try:
                    if how == 'full':
                        got = r.read_geojson_features()
                    elif how == 'reset':
                        r.reset_reader()
                    else:
                        it = r.read_ogr_feature()
                        for k, x in enumerate(it):
                            if k >= s['k']:
                                if how == 'raise':
                                    raise KeyError('caller')
                                break
                        if how == 'closed':
                            it.close()
                        elif how == 'hold':
                            held.append(it)
                        it = x = None
                except Exception as e:
                    if not isinstance(e, KeyError) or how != 'raise':
                        err = '%s: %s' % (type(e).__name__, e)
                    e.__traceback__ = None
            self.outcomes.append('%d %s %s' % (self.i, how, err and err.split(':')[0]))
            if err:
                if fl is None:
                    self.wrong(self.i, '%s: cannot read' % fmt, '%s after %s%s: %s' % (how, s['script'][:n], failed, err))
                failed = ' (failed once)'
                continue
            if got is not None:
                self.check_layer(got, key, 'reading after %s%s' % (s['script'][:n], failed))
        if f and f['how'] != 'none' and s['when'] == 'read' and r is not None and s['script'] == ['full']:
            try:
                self.check_layer(r.read_geojson_features(), key, 'reading again%s' % failed)
            except Exception as e:
                self.wrong(self.i, '%s: cannot read' % fmt, 'reading again%s: %s: %s' % (failed, type(e).__name__, e))
        if s['keep'] and fmt == 'gpkg':
            r.reset_reader()
            self.readers.append((p, 'vector', r, key))

    def check_kept(self):
        """readers that stay open deliver what they did"""
        for name, kind, r, x in self.readers:
            try:
                if kind == 'raster':
                    g = self.reg.get(name)
                    if g and g.state == Reg.FULL:
                        self.check_raster(r, r.read(), g.value, x, 'reader which was kept open')
                else:
                    g = self.reg.get(x)
                    if g and g.state == Reg.FULL:
                        self.check_layer(r.read_geojson_features(), x, 'reader which was kept open')
            except Exception as e:
                self.wrong(self.i, 'kept reader', '%s %s: %s: %s' % (kind, name, type(e).__name__, e))

    def remove(self, s):
        key = s['key']
        if key in RASTERS:
            self.forget(key)
            for n in os.listdir(self.dir):
                if n.startswith(key.split('.')[0] + '.'):
                    os.unlink(self.path(n))
        else:
            fmt, p, lyr = self.openkey(key)
            self.forget(p)
            if self.reg.get(key) and self.reg[key].state != Reg.NONE:
                self.drop_layer(key)
        self.reg[key] = Reg()

    def final(self, key):
        """the end of the history: everything is there"""
        if self.reg[key].state != Reg.FULL:
            return
        from malstroem.io import RasterReader, VectorReader
        try:
            if key in RASTERS:
                r = RasterReader(self.path(key))
                self.check_meta(r, self.reg[key].value)
                self.check_raster(r, r.read(), self.reg[key].value, None, key + ' in the end')
            else:
                fmt, p, lyr = self.openkey(key)
                self.check_layer(VectorReader(self.readpath(key), lyr).read_geojson_features(), key, key + ' in the end')
        except Exception as e:
            self.wrong(self.i, 'lost', '%s in the end: %s: %s' % (key, type(e).__name__, e))


class Armed(object):
    """one fault for the duration of one call; without faults, the place where they can be"""

    def __init__(self, prog, f, label):
        self.p, self.f, self.label = prog, f, label

    def __enter__(self):
        p, ctl, f = self.p, self.p.ctl, self.f
        self.n0 = ctl.i64('nops')
        self.k0 = {k: ctl.i64('kindcount', ix=core.kernel.K[k]) for k in core.kernel.KINDS}
        self.l0 = ctl.i64('logged')
        size = p.base.get(self.label.rstrip('01') if False else self.label)
        if not p.faults:
            npmem.arm(1 << 60, 1)
        if not f or not p.faults or not size:
            return
        how = f['how']
        if how == 'disk':
            put(ctl, dict(kinds=1 << core.kernel.K[f['kind']], action='fail', nth=int(f['at'] * max(size['kinds'].get(f['kind'], 0), 1)), count=f['count'], err=f['err']))
        elif how == 'short':
            put(ctl, dict(kinds=1 << core.kernel.K[f['kind']], action='short', nth=int(f['at'] * max(size['kinds'].get(f['kind'], 0), 1)), count=f['count'], param=f['param']))
        elif how == 'sector':
            if size['files']:
                path, end = size['files'][int(f['at'] * len(size['files']))]
                lo = int(f['at'] * 7919 * end) % max(end, 1)
                put(ctl, dict(kinds=1 << core.kernel.K['read'], action='bad sector', nth=0, count=-1, path=path[-60:], lo=lo, hi=lo + f['len']))
        elif how == 'memory':
            npmem.arm(1 + int(f['at'] * size['arrays']), f['count'])
        elif how == 'full':
            ctl.i64('budget', int(f['at'] * max(size['written'], 1)))
        elif how == 'die':
            kind = core.kernel.MUTATING if f['act'] != 'crash_torn' else 1 << core.kernel.K['write']
            n = sum(size['kinds'][k] for k in core.kernel.KINDS if (1 << core.kernel.K[k]) & kind)
            put(ctl, dict(kinds=kind, action=f['act'], nth=int(f['at'] * max(n, 1)), param=f['param']))

    def __exit__(self, *a):
        p, ctl = self.p, self.p.ctl
        disarm(ctl)
        arrays = npmem.disarm()[0]
        if not p.faults:
            log = ctl.log()[self.l0:]
            files = {}
            for k, path, ret, off, ln, act, err in log:
                if k == 'read' and ret > 0:
                    files[path] = max(files.get(path, 0), off + ret)
            p.sizes[self.label] = dict(nops=ctl.i64('nops') - self.n0, kinds={k: ctl.i64('kindcount', ix=core.kernel.K[k]) - self.k0[k] for k in self.k0},
                                       written=sum(x[4] for x in log if x[0] == 'write' and x[2] > 0), files=sorted(files.items()), arrays=arrays)


def history(ctx, case, faults, base, rep):
    """one simulated run of the history (of one or more processes)"""
    prog = ctx.err + '.prog'
    shutil.rmtree(ctx.root, ignore_errors=True)
    os.makedirs(ctx.data)
    os.makedirs(os.path.join(ctx.root, 'tmp'))
    at, reg, bad, outcomes, sizes = 0, {}, [], [], {}
    digests = []
    for _ in range(len(case['hist']) + 2):
        if os.path.exists(prog):
            os.unlink(prog)

        def body():
            signal.alarm(100)
            p = Program(ctx, case, faults, base, prog)
            p.bad, p.outcomes, p.sizes = bad, outcomes, sizes
            p.session(at, reg)
        r = ctx.run(body)
        digests.append(ctx.ctl.digest())
        for k, path, ret, off, ln, a, err in ctx.ctl.log():
            if a != 'none':
                rep.trace.append('%s %s %s -> %s' % (a, k, path, err))
        if not os.path.exists(prog):
            raise core.Skip('process did not start: %s' % r.stderr[-200:])
        with open(prog, 'rb') as f:
            at, reg, bad, outcomes, sizes = pickle.load(f)
        if r.outcome() != 'ok':
            if not r.crashed:
                return None, core.Broken(r), outcomes, sizes, digests
            # the process died: it was the writer of step `at`
            outcomes.append('%d died' % at)
            s = case['hist'][at]
            key = s['key']
            if reg[key].state == Reg.UNKNOWN and key in LAYERS:
                after_death(ctx, case, faults, base, prog, at, reg, bad, outcomes, sizes)
                with open(prog, 'rb') as f:
                    at, reg, bad, outcomes, sizes = pickle.load(f)
            at += 1
        elif at > len(case['hist']):
            break
    rep.runs += 1
    rep.keys.append(core.jhash([case, outcomes, digests]))
    return bad, None, outcomes, sizes, digests


def after_death(ctx, case, faults, base, prog, at, reg, bad, outcomes, sizes):
    """the next process looks at what a dead writer left, and removes what is not in a GeoPackage"""
    key = case['hist'][at]['key']

    def body():
        p = Program(ctx, case, False, {}, prog)
        p.bad, p.outcomes, p.sizes, p.reg, p.i = bad, outcomes, sizes, reg, at
        if not p.settle(key):
            if LAYERS[key][0] != 'gpkg':
                p.gone(key)
                reg[key] = Reg()
            elif reg[key].state == Reg.UNKNOWN:
                reg[key] = Reg()
        p.report(at, reg)
    ctx.run(body)


def run(case, ctx):
    rep = core.Report()
    bad, broken, outcomes, sizes, dg = history(ctx, case, False, {}, rep)
    if broken:
        rep.bad('ends', 'without faults: ' + broken.what)
        return rep
    for sig, msg in bad:
        rep.bad(sig, 'without faults: ' + msg)
    if not any(s.get('fault') for s in case['hist']) or rep.violations:
        return rep
    rep.trace = []
    bad, broken, outcomes, _, dg = history(ctx, case, True, sizes, rep)
    if broken:
        if broken.outcome == 'no progress' and any(t.startswith(('fail write', 'short write', 'fail trunc')) and '.tif' in t for t in rep.trace):
            ctx.stats['endless loop in libtiff after failed writes'] += 1
            return rep
        rep.bad('ends', broken.what)
        return rep
    for sig, msg in bad:
        rep.bad(sig, msg)
    for o in outcomes:
        ctx.stats['step %s %s' % (o.split()[1], 'died' if 'died' in o else 'ok' if o.endswith('None') or o.endswith('NoneType') else 'failed')] += 1
    return rep


def shrink(case):
    for h in core.shrink_list(case['hist'], 1):
        yield dict(case, hist=h)
    for i, s in enumerate(case['hist']):
        if s.get('fault'):
            yield dict(case, hist=case['hist'][:i] + [dict(s, fault=None)] + case['hist'][i + 1:])
        if s.get('a') and (s['a']['rows'] > 3 or s['a']['cols'] > 3):
            yield dict(case, hist=case['hist'][:i] + [dict(s, a=dict(s['a'], rows=min(3, s['a']['rows']), cols=min(3, s['a']['cols'])))] + case['hist'][i + 1:])
        if s.get('f') and (len(s['f']) > 1 or s['f'][0]['n'] > 1):
            yield dict(case, hist=case['hist'][:i] + [dict(s, f=[dict(s['f'][0], n=max(1, s['f'][0]['n'] // 2))])] + case['hist'][i + 1:])
        if s.get('script') and len(s['script']) > 1:
            yield dict(case, hist=case['hist'][:i] + [dict(s, script=s['script'][1:])] + case['hist'][i + 1:])
        if s.get('keep'):
            yield dict(case, hist=case['hist'][:i] + [dict(s, keep=False)] + case['hist'][i + 1:])
