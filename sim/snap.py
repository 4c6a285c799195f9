"""What a user can read back: canonical contents of files, rasters, layers."""
import hashlib
import json
import os
import sqlite3

import numpy as np


class Unreadable(Exception):
    pass


def raster(path):
    from osgeo import gdal
    try:
        ds = gdal.OpenEx(path, gdal.OF_RASTER)
        if ds is None:
            raise Unreadable('%s cannot be opened' % os.path.basename(path))
        b = ds.GetRasterBand(1)
        a = b.ReadAsArray()
        if a is None:
            raise Unreadable('%s cannot be read' % os.path.basename(path))
        nd = b.GetNoDataValue()
        return dict(kind='raster', bands=ds.RasterCount, dtype=str(a.dtype), shape=list(a.shape), gt=[float(x) for x in ds.GetGeoTransform()],
                    crs=_crs(ds.GetProjection()), nodata=None if nd is None else float(nd), data=a)
    except RuntimeError as e:
        raise Unreadable('%s: %s' % (os.path.basename(path), e))


def _crs(w):
    return hashlib.sha1(w.encode()).hexdigest()[:10] if w else ''


def _norm(v):
    return v


def _geom(g):
    if g is None:
        return None
    return g.ExportToIsoWkt() if g.GetGeometryCount() or g.GetPointCount() else g.GetGeometryName()


def recover(path):
    """let SQLite roll back what a dead process left in its journal"""
    if path.endswith('.gpkg') and os.path.exists(path + '-journal'):
        try:
            con = sqlite3.connect(path)
            con.execute('SELECT count(*) FROM sqlite_master').fetchall()
            con.close()
        except sqlite3.DatabaseError:
            pass


def layers(path):
    """{name: layer} for one datasource"""
    from osgeo import gdal
    recover(path)
    try:
        ds = gdal.OpenEx(path, gdal.OF_VECTOR)
        if ds is None:
            raise Unreadable('%s cannot be opened' % os.path.basename(path))
        out = {}
        for i in range(ds.GetLayerCount()):
            lyr = ds.GetLayer(i)
            defn = lyr.GetLayerDefn()
            fields = [(defn.GetFieldDefn(j).GetName(), defn.GetFieldDefn(j).GetType()) for j in range(defn.GetFieldCount())]
            feats = []
            lyr.ResetReading()
            f = lyr.GetNextFeature()
            while f is not None:
                feats.append(([_norm(f.GetField(j)) for j in range(len(fields))], _geom(f.GetGeometryRef())))
                f = lyr.GetNextFeature()
            name = lyr.GetName()
            if name in out:
                name = '%s#%d' % (name, i)
            sr = lyr.GetSpatialRef()
            out[name] = dict(kind='layer', fields=fields, feats=feats, geom=lyr.GetGeomType(), crs=_crs(sr.ExportToWkt()) if sr else '')
        return out
    except RuntimeError as e:
        raise Unreadable('%s: %s' % (os.path.basename(path), e))


def props(layer):
    names = [n for n, _ in layer['fields']]
    return [dict(zip(names, v)) for v, _ in layer['feats']]


def integrity(path):
    """SQLite's own opinion of a GeoPackage"""
    try:
        con = sqlite3.connect(path)
        try:
            r = con.execute('PRAGMA integrity_check').fetchall()
        finally:
            con.close()
        return None if r == [('ok',)] else '; '.join(str(x[0]) for x in r[:3])
    except sqlite3.DatabaseError as e:
        return str(e)


def tree(root, skip=()):
    """{relative path: sha} of all regular files"""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if rel in skip:
                continue
            if not os.path.isfile(p):
                out[rel] = 'special'
                continue
            with open(p, 'rb') as h:
                out[rel] = hashlib.sha256(h.read()).hexdigest()[:16]
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = 'dir'
    return out


def _same(a, b, rtol):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y, rtol) for x, y in zip(a, b))
    if a == b:
        return True
    if rtol and isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= rtol * max(abs(a), abs(b), 1e-6)
    return a != a and b != b


def diff(want, got, rtol=0.0, ordered=True):
    """None when the same, else one line saying how they differ"""
    if want['kind'] != got['kind']:
        return 'kind %s instead of %s' % (got['kind'], want['kind'])
    if want['kind'] == 'raster':
        for k in ('bands', 'dtype', 'shape', 'gt', 'crs', 'nodata'):
            if not _same(want[k], got[k], 0.0):
                return '%s is %s instead of %s' % (k, got[k], want[k])
        w, g = want['data'], got['data']
        same = (w == g) | ((w != w) & (g != g)) if w.dtype.kind == 'f' else (w == g)
        if rtol:
            same = same | np.isclose(w, g, rtol=rtol, atol=rtol)
        if not np.all(same):
            bad = np.argwhere(~same)
            r, c = bad[0]
            return '%d of %d cells differ, first at (%d,%d): %r instead of %r' % (len(bad), w.size, r, c, g[r, c].item(), w[r, c].item())
        return None
    if [n for n, _ in want['fields']] != [n for n, _ in got['fields']]:
        return 'fields are %s instead of %s' % ([n for n, _ in got['fields']], [n for n, _ in want['fields']])
    if want['geom'] != got['geom']:
        return 'geometry type is %s instead of %s' % (got['geom'], want['geom'])
    if want['crs'] != got['crs']:
        return 'CRS differs'
    w, g = want['feats'], got['feats']
    if len(w) != len(g):
        return '%d features instead of %d' % (len(g), len(w))
    if not ordered:
        key = lambda f: json.dumps(f, sort_keys=True, default=str)
        w, g = sorted(w, key=key), sorted(g, key=key)
    for i, (x, y) in enumerate(zip(w, g)):
        if not _same(x[0], y[0], rtol):
            for (n, _), a, b in zip(want['fields'], x[0], y[0]):
                if not _same(a, b, rtol):
                    return 'feature %d: %s is %r instead of %r' % (i, n, b, a)
        if x[1] != y[1]:
            return 'feature %d: geometry is %s instead of %s' % (i, str(y[1])[:80], str(x[1])[:80])
    return None


def outputs(stage, data):
    """snapshot of everything a stage declares as output; raises Unreadable"""
    out = {}
    for r in stage.rasters:
        p = os.path.join(data, r)
        if not os.path.exists(p):
            raise Unreadable('%s is missing' % r)
        out[r] = raster(p)
    seen = {}
    for l in stage.layers:
        p = os.path.join(data, l.ds)
        if p not in seen:
            if not os.path.exists(p):
                raise Unreadable('%s is missing' % l.ds)
            seen[p] = layers(p)
        if l.layer not in seen[p]:
            raise Unreadable('layer %s is missing from %s' % (l.layer, l.ds))
        out[repr(l)] = seen[p][l.layer]
    return out
