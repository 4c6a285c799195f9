"""The library's reader and writer interfaces, kept in memory: the seam its tools already have."""
import copy

import numpy as np


class Raster(object):
    """a raster reader and writer in one"""

    def __init__(self, data=None, transform=(0.0, 1.0, 0.0, 0.0, 0.0, -1.0), on_read=None, on_write=None):
        self.data = data
        self.transform = tuple(transform)
        self.crs = ''
        self.nodata = self.nodatasubst = None
        self.filepath = None
        self.resolution = (abs(self.transform[5]), abs(self.transform[1]))
        self.on_read, self.on_write = on_read, on_write
        self.writes = 0

    @property
    def shape(self):
        return self.data.shape

    def read(self):
        if self.on_read:
            self.on_read()
        return np.array(self.data)

    def write(self, data):
        if self.on_write:
            self.on_write()
        self.data = np.array(data)
        self.writes += 1


class Vector(object):
    """a vector reader and writer in one; `order` decides in which order features are delivered"""

    def __init__(self, feats=None, order=None, on_read=None, on_write=None):
        self.feats = feats
        self.crs = ''
        self.order = order
        self.on_read, self.on_write = on_read, on_write
        self.writes = 0

    def read_geojson_features(self):
        if self.on_read:
            self.on_read()
        fs = copy.deepcopy(self.feats)
        if self.order is not None:
            fs = [fs[i] for i in self.order(len(fs))]
        return fs

    def write_geojson_features(self, feats):
        if self.on_write:
            self.on_write()
        if isinstance(feats, dict) and feats.get('type') == 'FeatureCollection':
            feats = feats['features']
        self.feats = plain(list(feats))
        self.writes += 1


def plain(x):
    """JSON-like copy: tuples become lists, numpy numbers become numbers"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def by_id(feats, key):
    return {f['properties'][key]: f for f in feats}
