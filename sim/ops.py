"""What a program that uses the library can do: operations on data of its own, drawn at random.

A spec is plain data.  `build` prepares the inputs (in the library's plain single-threaded way), `call` runs the operation
and gives something comparable.
"""
import copy
import os

import numpy as np

import mem
import world

LABEL = ['stats', 'minidx', 'maxidx', 'count', 'data', 'setvalue', 'keep', 'components']
FLOW = ['fill', 'noflats', 'flowdir', 'accum', 'watersheds', 'trace', 'upstream']
NET = ['net', 'geonet', 'network']
TOOL = ['demtool', 'bluespottool', 'streamtool', 'simplevolume', 'rastervolume', 'finalstate', 'hyps', 'levels', 'bluespots', 'approx', 'filter', 'points']
FILES = ['raster', 'vector', 'vectorize', 'vectorize_io', 'cli', 'complete']
MEMORY = LABEL + FLOW + NET + TOOL
HASH_SWITCHED = ['fill', 'noflats', 'flowdir', 'accum', 'watersheds', 'stats', 'minidx', 'data', 'demtool', 'bluespottool', 'rastervolume', 'hyps']
FILTERS = [None, 'maxdepth > 0.5', 'area > 2', 'volume > 3.5', 'area > 1 and (maxdepth > 1 or volume > 4)']


def wild(rng, d, kind=None):
    """terrains the usual generator does not make"""
    rows, cols = len(d['z']), len(d['z'][0])
    kind = kind or rng.choice(['zero', 'plateau', 'negative', 'ulp', 'spiral', 'huge', 'checker', 'stairs', 'meander'])
    z = d['z']
    if kind == 'zero':
        z = [[0.0] * cols for _ in range(rows)]
    elif kind == 'plateau':
        z = [[v + 8000.0 for v in r] for r in z]
    elif kind == 'negative':
        z = [[-v - 1.0 for v in r] for r in z]
    elif kind == 'ulp':
        b = np.float32(rng.choice([1.0, 1000.0, 3e4]))
        z = [[float(b + np.spacing(b) * rng.randint(0, 3)) for _ in r] for r in z]
    elif kind == 'huge':
        z = [[float(np.float32(v * 1e3)) for v in r] for r in z]
    elif kind == 'checker':
        z = [[float((r + c) % 2) for c in range(cols)] for r in range(rows)]
    elif kind == 'stairs':
        z = [[float((r // 2) * 3 - (5 if rng.random() < 0.1 else 0)) for c in range(cols)] for r in range(rows)]
    elif kind == 'meander':
        turned = cols > rows or cols == rows and rng.random() < 0.5
        if turned:
            rows, cols = cols, rows
        z = [[100.0] * cols for _ in range(rows)]
        h, turn = 20.0, rng.random() < 0.5
        step = rng.choice([0.0, 0.25, 0.25, -0.25])
        for r in range(1, rows - 1, 2):
            for c in (range(1, cols - 1) if turn else range(cols - 2, 0, -1)):
                z[r][c] = h - (rng.randint(1, 3) if rng.random() < 0.05 else 0)
                h += step
            if r + 2 < rows - 1:
                z[r + 1][c] = h
            turn = not turn
        if rng.random() < 0.5:
            z[0][1] = z[0][cols - 2] = 1.0
        if turned:
            z = [list(x) for x in zip(*z)]
    else:
        z = [[50.0] * cols for _ in range(rows)]
        r, c, dr, dc, h = 1, 1, 0, 1, 20.0
        seen = set()
        for _ in range(rows * cols):
            seen.add((r, c))
            z[r][c] = h
            h -= 0.25
            a, b = r + dr, c + dc
            aa, bb = a + dr, b + dc
            if not (0 < a < rows - 1 and 0 < b < cols - 1) or (a, b) in seen or (aa, bb) in seen:
                dr, dc = dc, -dr
                a, b = r + dr, c + dc
                if not (0 < a < rows - 1 and 0 < b < cols - 1) or (a, b) in seen:
                    break
            r, c = a, b
    return dict(d, z=z)


def large(rng):
    """a terrain with hundreds of bluespots, or a long and narrow one"""
    if rng.random() < 0.6:
        return world.many_dem(rng, 18, 36)
    return world.random_dem(rng, 3, 6, wide=rng.choice([70, 150, 300]))


def terrain(rng, lo=4, hi=8):
    d = world.random_dem(rng, lo, hi)
    return wild(rng, d) if rng.random() < 0.3 and len(d['z']) > 3 and len(d['z'][0]) > 3 else d


def random_op(rng, kinds, dem):
    op = rng.choice(kinds)
    s = dict(op=op, dem=dem, k=rng.randrange(1 << 16))
    if rng.random() < 0.4:
        s['lay'] = rng.choice(['F', 'F', 'view', 'neg', 'ro'])
    if op in ('stats', 'minidx', 'maxidx', 'data'):
        s['dt'] = rng.choice(['float32', 'float32', 'float64', 'int32'])
        s['lt'] = rng.choice(['int32', 'int32', 'int64', 'uint8'])
        s['n'] = rng.random() < 0.5
        s['lab'] = rng.choice(['bs', 'ws'])
        if op == 'data':
            s['bg'] = rng.choice([0, 0, 1, -1])
    if op == 'flowdir':
        s['edges'] = rng.random() < 0.7
        s['on'] = rng.choice(['nf', 'nf', 'nf', 'dem'])
    if op == 'accum':
        s['on'] = rng.choice(['fd', 'fd', 'fd', 'noedge', 'raw'])
    if op == 'watersheds':
        s['lt'] = rng.choice(['int32', 'int32', 'int64'])
        s['un'] = rng.choice([0, 0, 0, -1])
    if op == 'bluespottool':
        s['filter'] = rng.choice(FILTERS)
        s['accum'] = rng.random() < 0.5
    if op == 'filter':
        s['filter'] = rng.choice(FILTERS)
    if op in ('hyps', 'levels', 'bluespots', 'complete'):
        s['zres'] = rng.choice([0.25, 0.5, 2.0])
    if op in ('simplevolume', 'finalstate', 'levels', 'bluespots', 'network', 'complete'):
        s['mm'] = rng.choice([0, 1, 20, 500, 5000])
    if op == 'rastervolume':
        s['unit'] = rng.choice(['mm', 'l', 'm3'])
    if op == 'streamtool':
        s['streams'] = rng.random() < 0.6
    if op == 'raster':
        s['dt'] = rng.choice(['float32', 'float64', 'int32', 'uint8', 'int64', 'bool'])
        s['nodata'] = rng.choice([None, -9999.0, 0])
    if op in ('vector', 'vectorize_io'):
        s['fmt'] = rng.choice(['gpkg', 'gpkg', 'geojson', 'shp'])
    if op == 'cli':
        s['cmd'] = rng.choice(['filled', 'flowdir', 'depths', 'bspots', 'wsheds', 'accum', 'pourpts'])
    return s


class Data(object):
    """everything there is about one terrain, computed once"""
    cache = {}

    def __new__(cls, d):
        k = repr(d)
        if k not in cls.cache:
            x = object.__new__(cls)
            x.compute(d)
            cls.cache[k] = x
        return cls.cache[k]

    def compute(self, d):
        from malstroem.algorithms import fill, flow, label
        from malstroem.bluespots import BluespotTool
        from malstroem.streams import StreamTool
        self.gt = world.transform(d)
        self.dem = world.dem_values(d)
        self.filled = fill.fill_terrain(self.dem)
        self.depths = self.filled - self.dem
        self.short, self.diag = fill.minimum_safe_short_and_diag(self.dem)
        self.nf = fill.fill_terrain_no_flats(self.dem, self.short, self.diag)
        self.fd = flow.terrain_flowdirection(self.nf)
        self.noedge = flow.terrain_flowdirection(self.nf, False)
        self.raw = flow.terrain_flowdirection(self.dem.astype('float64'))
        self.acc = flow.accumulated_flow(self.fd)
        pp, bs, ws = mem.Vector(), self.R(), self.R()
        BluespotTool(self.R(self.depths), self.R(self.fd), None, bs, pp, ws, input_accum=self.R(self.acc)).process()
        self.bs, self.ws, self.pp = bs.data.astype('int32'), ws.data.astype('int32'), pp.feats
        nodes = mem.Vector()
        StreamTool(mem.Vector(self.pp), self.R(self.bs), self.R(self.fd), nodes, mem.Vector()).process()
        self.nodes = nodes.feats

    def R(self, a=None, **kw):
        return mem.Raster(a, self.gt, **kw)

    def volumes(self, mm):
        from malstroem.rain import SimpleVolumeTool
        o = mem.Vector()
        SimpleVolumeTool(mem.Vector(self.nodes), o, 'inputv', mm).process()
        return o.feats

    def final(self, mm):
        from malstroem.network import FinalStateCalculator
        o = mem.Vector()
        FinalStateCalculator(mem.Vector(self.volumes(mm)), 'inputv', o).process()
        return o.feats

    def hyps(self, zres):
        from malstroem.hyps import bluespot_hypsometry_io
        o = mem.Vector()
        bluespot_hypsometry_io(self.R(self.bs), self.R(self.dem), mem.Vector(self.pp), zres, o)
        return o.feats

    def levels(self, mm, zres):
        from malstroem.approx import approx_water_level_io
        o = mem.Vector()
        approx_water_level_io(mem.Vector(self.final(mm)), mem.Vector(self.hyps(zres)), o)
        return o.feats


class Op(object):
    """one operation, ready to be called"""

    def __init__(self, spec, path, seam=None):
        """path: a directory of its own, for operations on files; seam() is called whenever a reader or writer in memory is used"""
        self.spec, self.path, self.seam = spec, path, seam
        self.d = Data(spec['dem'])
        self.args = {}
        self.modifies = ()
        self.fn = getattr(self, 'op_' + spec['op'])()
        self.before = copy.deepcopy(self.args)

    def call(self):
        return self.fn()

    def changed_args(self):
        return [k for k in self.args if k not in self.modifies and canon(self.args[k]) != canon(self.before[k])]

    def arg(self, **kw):
        for k, v in kw.items():
            self.args[k] = self.laid(k, v) if isinstance(v, np.ndarray) else copy.deepcopy(v)
        return [self.args[k] for k in kw]

    def laid(self, name, v):
        """a copy of an array, in memory as the case wants it"""
        how = self.spec.get('lay')
        v = v.copy()
        if not how or self.spec['k'] >> 3 & 1 and len(self.args):
            return v
        if how == 'F':
            return np.asfortranarray(v)
        if how == 'view':
            big = np.zeros([2 * n + 1 for n in v.shape], v.dtype)
            part = big[tuple(slice(1, None, 2) for _ in v.shape)]
            part[...] = v
            return part
        if how == 'neg':
            rev = (slice(None, None, -1),) * v.ndim
            return v[rev].copy()[rev]
        v.setflags(write=False)
        return v

    def R(self, a=None):
        return self.d.R(a, on_read=self.seam, on_write=self.seam)

    def V(self, feats=None):
        return mem.Vector(feats, on_read=self.seam, on_write=self.seam)

    # ---- algorithms

    def op_fill(self):
        from malstroem.algorithms import fill
        a, = self.arg(dem=self.d.dem)
        return lambda: fill.fill_terrain(a)

    def op_noflats(self):
        from malstroem.algorithms import fill
        a, = self.arg(dem=self.d.dem)

        def f():
            s, g = fill.minimum_safe_short_and_diag(a)
            return fill.fill_terrain_no_flats(a, s, g)
        return f

    def op_flowdir(self):
        from malstroem.algorithms import flow
        a, = self.arg(z=self.d.nf if self.spec['on'] == 'nf' else self.d.dem.astype('float64'))
        return lambda: flow.terrain_flowdirection(a, self.spec['edges'])

    def op_accum(self):
        from malstroem.algorithms import flow
        a, = self.arg(fd=getattr(self.d, self.spec['on']))
        return lambda: flow.accumulated_flow(a)

    def op_watersheds(self):
        from malstroem.algorithms import flow
        a, l = self.arg(fd=self.d.fd, labels=self.d.bs.astype(self.spec['lt']))
        if self.spec['un']:
            l[l == 0] = self.spec['un']
            self.args['labels'] = l
        self.modifies = ('labels',)

        def f():
            flow.watersheds_from_labels(a, l, self.spec['un'])
            return l
        return f

    def op_trace(self):
        from malstroem.algorithms import flow
        a, = self.arg(fd=self.d.fd)
        cell = (self.spec['k'] % a.shape[0], self.spec['k'] // 7 % a.shape[1])
        return lambda: list(flow.trace_downstream(a, cell))

    def op_upstream(self):
        from malstroem.algorithms import flow
        a, = self.arg(fd=self.d.fd)
        cell = (self.spec['k'] % a.shape[0], self.spec['k'] // 7 % a.shape[1])
        return lambda: [flow.upstream_cells(a, cell), flow.direction_to_delta(self.spec['k'] % 9)]

    def op_components(self):
        from malstroem.algorithms import label
        a, = self.arg(depths=self.d.depths)
        return lambda: label.connected_components(a)

    def labelled(self):
        s = self.spec
        l = (self.d.bs if s.get('lab', 'bs') == 'bs' else self.d.ws)
        a = self.d.dem if s['k'] % 2 else self.d.filled
        if s.get('dt') == 'int32':
            a = np.clip(a, -2 ** 30, 2 ** 30)
        a, l = self.arg(data=a.astype(s.get('dt', 'float32')), labels=l.astype(s.get('lt', 'int32')))
        return a, l, int(l.max()) if s.get('n') else None

    def op_stats(self):
        from malstroem.algorithms import label
        a, l, n = self.labelled()
        return lambda: label.label_stats(a, l, n)

    def op_minidx(self):
        from malstroem.algorithms import label
        a, l, n = self.labelled()
        return lambda: label.label_min_index(a, l, n)

    def op_maxidx(self):
        from malstroem.algorithms import label
        a, l, n = self.labelled()
        return lambda: label.label_max_index(a, l, n)

    def op_data(self):
        from malstroem.algorithms import label
        a, l, n = self.labelled()
        if self.spec['bg'] == -1:
            # no cell is background
            return lambda: lists(label.label_data(a, l, n, background=-1))
        return lambda: lists(label.label_data(a, l, n, background=self.spec['bg']))

    def op_count(self):
        from malstroem.algorithms import label
        a, l, n = self.labelled()
        return lambda: label.label_count(l)

    def op_setvalue(self):
        from malstroem.algorithms import label
        l, v = self.arg(labels=self.d.bs, values=[float(i) * 1.5 for i in range(int(self.d.bs.max()) + 1)])
        return lambda: label.set_label_to_value(l, v)

    def op_keep(self):
        from malstroem.algorithms import label
        n = int(self.d.bs.max()) + 1
        l, v = self.arg(labels=self.d.bs, keep=[bool((self.spec['k'] >> (i % 16)) & 1) for i in range(n)])
        self.modifies = ('keep',)
        return lambda: label.keep_labels(l, v)

    def op_net(self):
        from malstroem.algorithms import net
        f, l, p = self.arg(fd=self.d.fd, labels=self.d.bs, pp=self.d.pp)
        return lambda: net.pourpoint_network(f, l, p, 0)

    def op_geonet(self):
        from malstroem.algorithms import net
        f, l, p = self.arg(fd=self.d.fd, labels=self.d.bs, pp=self.d.pp)
        return lambda: net.geometric_pourpoint_network(f, l, p, 0)

    def op_network(self):
        from malstroem.network import Network
        nodes, = self.arg(nodes=[f['properties'] for f in self.d.volumes(self.spec['mm'])])

        def f():
            n = Network()
            n.add_nodes(nodes)
            a = n.rain_event('inputv')
            b = n.rain_event('inputv')
            return [a, b]
        return f

    # ---- tools

    def op_demtool(self):
        from malstroem.dem import DemTool
        o = [self.R() for _ in range(4)]
        i = self.R(self.d.dem)

        def f():
            DemTool(i, *o).process()
            return [x.data for x in o]
        self.tool_inputs = i
        return f

    def op_bluespottool(self):
        from malstroem.bluespots import BluespotTool
        from malstroem.scripts._utils import parse_filter
        s, d = self.spec, self.d
        bs, ws, pp = self.R(), self.R(), self.V()
        ins = [self.R(d.depths), self.R(d.fd), self.R(d.acc), self.R(d.dem)]

        def f():
            flt = parse_filter(s['filter']) if s['filter'] else None
            kw = dict(input_accum=ins[2]) if s['accum'] else dict(input_dem=ins[3])
            BluespotTool(ins[0], ins[1], flt, bs, pp, ws, **kw).process()
            return [bs.data, ws.data, pp.feats]
        return f

    def op_streamtool(self):
        from malstroem.streams import StreamTool
        n, st = self.V(), self.V()
        ins = [self.V(self.d.pp), self.R(self.d.bs), self.R(self.d.fd)]

        def f():
            StreamTool(ins[0], ins[1], ins[2], n, st if self.spec['streams'] else None).process()
            return [n.feats, st.feats]
        return f

    def op_simplevolume(self):
        from malstroem.rain import SimpleVolumeTool
        i, o = self.V(self.d.nodes), self.V()

        def f():
            SimpleVolumeTool(i, o, 'inputv', self.spec['mm']).process()
            return o.feats
        return f

    def op_rastervolume(self):
        from malstroem.rain import RasterVolumeTool, Unit
        i, o = self.V(self.d.nodes), self.V()
        rain = (np.arange(self.d.dem.size).reshape(self.d.dem.shape) * 7 % 13).astype('float32')
        w, r = self.R(self.d.ws), self.R(rain)

        def f():
            RasterVolumeTool(i, w, r, getattr(Unit, self.spec['unit']), o, 'inputv').process()
            return o.feats
        return f

    def op_finalstate(self):
        from malstroem.network import FinalStateCalculator
        i, o = self.V(self.d.volumes(self.spec['mm'])), self.V()

        def f():
            FinalStateCalculator(i, 'inputv', o).process()
            return o.feats
        return f

    def op_hyps(self):
        from malstroem.hyps import bluespot_hypsometry_io
        b, z, p, o = self.R(self.d.bs), self.R(self.d.dem), self.V(self.d.pp), self.V()

        def f():
            bluespot_hypsometry_io(b, z, p, self.spec['zres'], o)
            return o.feats
        return f

    def op_levels(self):
        from malstroem.approx import approx_water_level_io
        v, h, o = self.V(self.d.final(self.spec['mm'])), self.V(self.d.hyps(self.spec['zres'])), self.V()

        def f():
            approx_water_level_io(v, h, o)
            return o.feats
        return f

    def op_bluespots(self):
        from malstroem.approx import approx_bluespots_io
        b, l, z, o, q = self.R(self.d.bs), self.V(self.d.levels(self.spec['mm'], self.spec['zres'])), self.R(self.d.dem), self.R(), self.R()

        def f():
            approx_bluespots_io(b, l, z, o, q)
            return [o.data, q.data]
        return f

    def op_approx(self):
        from malstroem.approx import approx_bluespots
        n = int(self.d.bs.max())
        b, z, lv = self.arg(labels=self.d.bs, dem=self.d.dem, levels={i: float(i * 3 % 11) for i in range(0, n + 1)})
        self.modifies = ('labels',)
        return lambda: approx_bluespots(b, lv, z)

    def op_filter(self):
        from malstroem.scripts._utils import parse_filter

        def f():
            g = parse_filter(self.spec['filter'])
            return [bool(g(dict(min=0, max=m, sum=1, count=1, volume=v, area=a))) for m in (0, 1, 2) for v in (1, 3, 9) for a in (1, 2, 4)]
        return f

    def op_points(self):
        from malstroem.vector import transform_cell_to_world
        return lambda: [transform_cell_to_world((r, c), self.d.gt) for r in range(3) for c in range(3)]

    # ---- files

    def file(self, name):
        os.makedirs(self.path, exist_ok=True)
        return os.path.join(self.path, name)

    def op_raster(self):
        from malstroem.io import RasterReader, RasterWriter
        s = self.spec
        a, = self.arg(data=(np.abs(self.d.dem) % 200).astype(s['dt']))
        p = self.file('r.tif')

        def f():
            RasterWriter(p, self.d.gt, world.wkt(), s['nodata']).write(a)
            r = RasterReader(p, nodatasubst=7)
            return [r.read(), list(r.transform), r.crs, r.nodata]
        return f

    def op_vector(self):
        from malstroem.io import VectorReader, VectorWriter
        from osgeo import ogr
        s = self.spec
        ds, lyr = {'gpkg': ('v.gpkg', 'lyr'), 'geojson': ('v.geojson', 'v'), 'shp': ('v.shp', 'v')}[s['fmt']]
        p = self.file(ds)
        feats, = self.arg(feats=self.d.pp)

        def f():
            VectorWriter(world.DRIVER[s['fmt']], p, lyr, None, ogr.wkbPoint, world.wkt()).write_geojson_features(feats)
            return VectorReader(p, lyr).read_geojson_features()
        return f

    def op_vectorize(self):
        from malstroem.vector import vectorize_labels_file
        p = self.file('labels.tif')
        world.write_tif(p, self.d.bs, self.d.gt, 0)
        return lambda: list(vectorize_labels_file(p))

    def op_vectorize_io(self):
        from malstroem.io import VectorReader
        from malstroem.vector import vectorize_labels_file_io
        s = self.spec
        src = self.file('labels.tif')
        world.write_tif(src, self.d.bs, self.d.gt, 0)
        ds, lyr = {'gpkg': ('p.gpkg', 'lyr'), 'geojson': ('p.geojson', 'p'), 'shp': ('p.shp', 'p')}[s['fmt']]
        p = self.file(ds)

        def f():
            vectorize_labels_file_io(src, p, lyr, world.DRIVER[s['fmt']], quiet=True)
            return VectorReader(p, lyr).read_geojson_features()
        return f

    def op_cli(self):
        from malstroem.scripts.cli import cli
        d = self.d
        for n, a in (('dem', d.dem), ('filled', d.filled), ('depths', d.depths), ('flowdir', d.fd), ('bluespots', d.bs), ('watersheds', d.ws)):
            world.write_tif(self.file(n + '.tif'), a, d.gt)
        c = self.spec['cmd']
        out = 'out.tif'
        args = {'filled': ['-dem', 'dem.tif'], 'flowdir': ['-dem', 'dem.tif'], 'depths': ['-dem', 'dem.tif', '-filled', 'filled.tif'],
                'accum': ['-flowdir', 'flowdir.tif'], 'bspots': ['-depths', 'depths.tif', '-filter', 'area > 2'],
                'wsheds': ['-bluespots', 'bluespots.tif', '-flowdir', 'flowdir.tif'],
                'pourpts': ['-bluespots', 'bluespots.tif', '-depths', 'depths.tif', '-watersheds', 'watersheds.tif', '-dem', 'dem.tif', '-format', 'gpkg']}[c]
        if c == 'pourpts':
            out = 'out.gpkg'
        args = world.absolute([c] + args + ['-out', out], self.path)
        p = self.file(out)

        def f():
            from malstroem.io import RasterReader, VectorReader
            cli.main(args=args, prog_name='malstroem', standalone_mode=False)
            return RasterReader(p).read() if c != 'pourpts' else VectorReader(p).read_geojson_features()
        return f

    def op_complete(self):
        from malstroem.scripts.cli import cli
        world.write_tif(self.file('dem.tif'), self.d.dem, self.d.gt)
        os.makedirs(self.file('out'), exist_ok=True)
        s = self.spec
        args = world.absolute(['complete', '-dem', 'dem.tif', '-outdir', 'out', '-mm', s['mm'], '-zresolution', s['zres'], '-filter', 'area > 0', '-accum'], self.path)

        def f():
            from malstroem.io import RasterReader, VectorReader
            cli.main(args=[str(a) for a in args], prog_name='malstroem', standalone_mode=False)
            return [RasterReader(self.file('out/%s.tif' % n)).read() for n in ('filled', 'bluespots', 'accum', 'watersheds', 'finaldepths', 'finalbluespots')] + [
                VectorReader(self.file('out/malstroem.gpkg'), n).read_geojson_features() for n in ('pourpoints', 'nodes', 'finallevels', 'finalbluespots')]
        return f


def lists(x):
    return [[float(v) for v in l] for l in x]


def canon(x):
    """something that compares: arrays with type and shape, numbers as they are"""
    if isinstance(x, np.ndarray):
        return ['array', str(x.dtype.newbyteorder('=')), list(x.shape), [canon(v) for v in x.ravel().tolist()]]
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, float) and x != x:
        return 'nan'
    return x


def diff(a, b, path=''):
    """where two canonical values differ first"""
    if type(a) != type(b):
        return '%s: %r instead of %r' % (path, short(b), short(a))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s is %s' % (path, k, 'missing' if k in a else 'additional')
            d = diff(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: %d elements instead of %d' % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if a == b else '%s: %r instead of %r' % (path, short(b), short(a))


def short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:77] + '...'
