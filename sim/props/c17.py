"""C17: results depend on the inputs and options alone."""
import json
import os
import random
import subprocess
import sys

import numpy as np

import core
import kernel
import snap
import world
from props import c01

ID = 'C17'
UNITS = {'quick': 64, 'thorough': 8000}
PER_UNIT = {'quick': 4, 'thorough': 10}
NOTE = ('Seeded search: the chain of commands or complete runs once in a plain environment and again in drawn ones (random bytes, hash seed, file clock that jumps, partial reads and '
        'writes, names and places of directories, relative paths, environment variables, umask, cache size, layout of the input file, unrelated files around); all outputs are compared. Samples terrains and environments.')
RULE = ('A unit draws a scenario and records all outputs in a plain environment; each case runs the same commands in an environment drawn from the kinds listed and compares every output. '
        'Distinct by environment and the operation logs of the commands.')
MEASURE = 'sha256 over the drawn environment and the operation log of each command'
REAL = c01.REAL
STUB = ['results of the file system calls below the scratch root (seccomp trap + simk.c)', 'sleeping, random bytes and file times']
ASSUMPTIONS = ['names of directories are ones GDAL itself takes literally', 'one machine: no other processor, library version or number of GDAL threads']

PLACES = ['my data', 'bj\u00f8rn', 'a[1]', 'x.gpkg', 'old.gpkg', 'y.shp', 'z.geojson', 'd.tif', 'a,b', "it's", '2020-01-01', 'a%20b', 'deep/er/still', '.hidden', 'UPPER', 'a#b', 'a;b', '~', 'k=v', 'a&b',
          'a+b', '-dash', '{0}', '%s', '$HOME', '\u6c34', 'n' * 120, 'link']
LAYOUTS = [['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16'], ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=32'], ['TILED=YES', 'BLOCKXSIZE=32', 'BLOCKYSIZE=16'], ['TILED=YES', 'BLOCKXSIZE=32', 'BLOCKYSIZE=16', 'COMPRESS=LZW'], ['COMPRESS=DEFLATE', 'PREDICTOR=3'],
           ['TILED=YES', 'BLOCKXSIZE=48', 'BLOCKYSIZE=16', 'COMPRESS=LZW'], ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=32', 'ENDIANNESS=BIG'],
           ['ENDIANNESS=BIG'], ['BLOCKYSIZE=1'], ['BLOCKYSIZE=3', 'COMPRESS=PACKBITS'], ['BIGTIFF=YES']]
VARS = [dict(TZ='Pacific/Kiritimati'), dict(TZ='America/St_Johns'), dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'), dict(LC_ALL='C.UTF-8', LANG='da_DK.UTF-8'),
        dict(HOME='/nonexistent'), dict(COLUMNS='20'), dict(USER='', LOGNAME=''), dict(PYTHONDONTWRITEBYTECODE='1'), dict(PYTHONUNBUFFERED='1'), dict(NO_COLOR='1'), dict(PYTHONOPTIMIZE='1')]
FILES = ['notes.txt', 'dem.tif.bak', 'r.gpkg.old', 'filled.tif~', '.lock', 'tmp1/x.json', 'nodes.csv', 'out.log']
DAY = 86400


def environment(rng):
    e = {}
    for k in rng.sample(KNOBS, rng.choice([1, 1, 2, 3])):
        v = DRAW[k](rng)
        e[k] = v
    if 'elsewhere' in e:
        # the other interpreter runs the commands as they are
        for k in ('clock', 'short', 'relative', 'tmp', 'umask', 'cache', 'vars', 'fds'):
            e.pop(k, None)
        if e['elsewhere'][1].get('PYTHONUTF8') == '0' and not e.get('place', '').isascii():
            e.pop('place')
    return e


DRAW = dict(
    rand=lambda r: r.randrange(2, 1 << 30),
    elsewhere=lambda r: [r.choice([1, 2, 7, 4242, r.randrange(1, 1 << 32)]), r.choice([{}] + VARS)],
    place=lambda r: '/'.join(r.sample(PLACES, r.choice([1, 2, 3]))),
    relative=lambda r: r.choice(['data', 'root', 'tmp']),
    tmp=lambda r: r.choice(['my tmp', 'tmp.gpkg', "t'mp", 't[1]', 'long' * 20, 'data']),
    clock=lambda r: r.choice([[0] * 3, [DAY, -DAY, 0], [-DAY, -2 * DAY], [r.randint(-10 ** 8, 10 ** 8) for _ in range(5)]]),
    short=lambda r: dict(kinds=r.choice([['read'], ['write'], ['read', 'write']]), **r.choice([dict(param=200, every=-1), dict(param=500, every=-1), dict(param=990, every=-1), dict(param=0, every=5), dict(param=500, every=7)])),
    vars=lambda r: r.choice(VARS),
    umask=lambda r: r.choice([0, 0o077, 0o027]),
    cache=lambda r: r.choice([0, 100, 4096, 1 << 30]),
    layout=lambda r: r.choice(LAYOUTS),
    files=lambda r: r.sample(FILES, r.randint(1, 4)),
    fds=lambda r: r.randint(1, 40),
    stale=lambda r: [r.choice(['values', 'values', 'shape', 'garbage', 'empty']), r.choice([DAY, -DAY, 0])],
)
KNOBS = list(DRAW) + ['elsewhere', 'clock', 'place', 'short', 'layout']


def cases(rng, tier, ctx, u):
    scene = world.random_scene(rng, 5, 14) if rng.random() < 0.7 else world.random_scene(rng, 17, 44)
    which = rng.choice(['chain', 'chain', 'complete'])
    for j in range(PER_UNIT[tier]):
        yield dict(scene=scene, which=which, env=environment(rng))


def stages_of(case):
    return [world.complete_stage(case['scene'])] if case['which'] == 'complete' else world.chain(case['scene'])


def reference(ctx, case):
    cache = ctx.__dict__.setdefault('_c17', {})
    key = core.jhash([case['scene'], case['which']])
    if key not in cache:
        cache.clear()
        world.lay_out(ctx.root, case['scene'])
        if case['which'] == 'complete':
            os.mkdir(os.path.join(ctx.data, 'out'))
        want = []
        for s in stages_of(case):
            r = ctx.cli(s.args)
            if r.outcome() != 'ok':
                raise core.Skip('%s fails in a plain environment: %s' % (s.name, r.stderr[-200:]))
            try:
                want.append(snap.outputs(s, ctx.data))
            except snap.Unreadable as e:
                raise core.Skip('%s in a plain environment: %s' % (s.name, e))
        cache[key] = want
    return cache[key]


def relayout(path, dem, options):
    """the same raster, stored in another way"""
    from osgeo import gdal
    os.unlink(path)
    a = world.dem_array(dem)
    ds = gdal.GetDriverByName('GTiff').Create(path, a.shape[1], a.shape[0], 1, gdal.GDT_Float32, options)
    ds.SetGeoTransform(world.transform(dem))
    ds.SetProjection(world.wkt())
    if dem['nodata'] is not None:
        ds.GetRasterBand(1).SetNoDataValue(dem['nodata'])
    ds.GetRasterBand(1).WriteArray(a)
    ds = None


def prepare(ctx, case, want):
    e, scene = case['env'], case['scene']
    world.lay_out(ctx.root, scene)
    data = ctx.data
    if case['which'] == 'complete':
        os.mkdir(os.path.join(data, 'out'))
    if e.get('layout'):
        relayout(os.path.join(data, 'dem.tif'), scene['dem'], e['layout'])
        os.utime(os.path.join(data, 'dem.tif'), (kernel.CLOCK, kernel.CLOCK))
    for n in e.get('files', []):
        p = os.path.join(data, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('unrelated\n')
    if e.get('stale') and case['which'] == 'chain':
        # rasters of an earlier analysis
        for s, w in zip(stages_of(case), want):
            for n in s.rasters:
                p = os.path.join(data, n)
                a = w[n]['data']
                if e['stale'][0] in ('garbage', 'empty'):
                    with open(p, 'wb') as f:
                        f.write(b'II*\0' + b'unrelated' * 40 if e['stale'][0] == 'garbage' else b'')
                else:
                    a = np.vstack([a, a]) if e['stale'][0] == 'shape' else a.copy()
                    a[len(a) // 2:] = 0
                    world.write_tif(p, a, world.transform(scene['dem']), w[n]['nodata'])
                os.utime(p, (kernel.CLOCK + e['stale'][1],) * 2)
    if e.get('place'):
        new = os.path.join(ctx.root, 'p', e['place'])
        os.makedirs(os.path.dirname(new))
        if e['place'].endswith('link'):
            os.rename(data, os.path.join(ctx.root, 'real'))
            os.symlink(os.path.relpath(os.path.join(ctx.root, 'real'), os.path.dirname(new)), new)
        else:
            os.rename(data, new)
        data = new
    return data


def relative(args, data, cwd):
    return [os.path.relpath(a, cwd) if a.startswith(data + '/') or a == data else a for a in args]


def settle(e, data, root):
    """in the simulated process, before anything runs"""
    if e.get('vars'):
        os.environ.update(e['vars'])
        if 'TZ' in e['vars']:
            import time
            time.tzset()
    if 'umask' in e:
        os.umask(e['umask'])
    if 'cache' in e:
        from osgeo import gdal
        gdal.SetCacheMax(e['cache'])
    if e.get('tmp'):
        import tempfile
        from osgeo import gdal
        t = data if e['tmp'] == 'data' else os.path.join(root, e['tmp'])
        os.makedirs(t, exist_ok=True)
        os.environ['TMPDIR'] = os.environ['CPL_TMPDIR'] = tempfile.tempdir = t
        gdal.SetConfigOption('CPL_TMPDIR', t)
    for _ in range(e.get('fds', 0)):
        os.open('/dev/null', os.O_RDONLY)


def run(case, ctx):
    want = reference(ctx, case)
    e = case['env']
    stages = stages_of(case)
    data = prepare(ctx, case, want)
    rep = core.Report()
    kind = '+'.join(sorted(e))
    keys = [json.dumps(e, sort_keys=True)]
    for k in e:
        ctx.stats['probe environment %s' % k] += 1
    if 'elsewhere' in e:
        hseed, var = e['elsewhere']
        job = dict(root=ctx.root, err=ctx.err, rand=e.get('rand', 1), commands=[world.absolute(s.args, data) for s in stages])
        env = dict(os.environ, PYTHONHASHSEED=str(hseed), SIM_LOGGED='1', **var)
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(os.path.dirname(kernel.__file__), 'elsewhere.py')], input=json.dumps(job).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        line = [l for l in p.stdout.decode(errors='replace').split('\n') if l.startswith('RESULT ')]
        if not line:
            raise RuntimeError('the other interpreter ended without a result: %s' % p.stderr.decode(errors='replace')[-400:])
        results = json.loads(line[0][7:])
        ctx.stats['processes'] += len(results)
        ctx.stats['ops'] += sum(r['nops'] for r in results)
    else:
        results = None
    cwd = {None: None, 'data': data, 'root': ctx.root, 'tmp': os.path.join(ctx.root, 'tmp')}[e.get('relative')]
    for i, s in enumerate(stages):
        if results is None:
            args = world.absolute(s.args, data)
            if cwd:
                args = relative(args, data, cwd)
            kw = dict(rand=e.get('rand', 1) + (i if 'rand' in e else 0), before=lambda: settle(e, data, ctx.root))
            if cwd:
                kw['cwd'] = cwd
            if e.get('clock'):
                kw['clock'] = kernel.CLOCK + e['clock'][i % len(e['clock'])]
            if e.get('short'):
                x = e['short']
                mask = sum(1 << kernel.K[k] for k in x['kinds'])
                kw['plan'] = [dict(kinds=mask, action='short', nth=0, count=-1, param=x['param'])] if x['every'] < 0 else [
                    dict(kinds=mask, action='short', nth=n, count=1, param=x['param']) for n in range(0, 30 * x['every'], x['every'])]
            r = ctx.run(kernel.run_cli(args), **kw)
            outcome, err = r.outcome(), r.stderr[-300:]
            keys.append(s.name + ctx.ctl.digest())
        else:
            outcome, err = results[i]['outcome'], results[i]['stderr'][-300:]
            keys.append(s.name + results[i]['digest'])
        rep.trace.append('%s -> %s' % (s.name, outcome))
        if outcome != 'ok':
            rep.bad('fails | %s | %s' % (s.name, kind), '%s works in a plain environment and fails with %s: %s' % (s.name, json.dumps(e, sort_keys=True), err))
            break
    else:
        for s, w in zip(stages, want):
            try:
                got = snap.outputs(s, data)
            except snap.Unreadable as x:
                rep.bad('lost | %s | %s' % (s.name, kind), '%s with %s: %s' % (s.name, json.dumps(e, sort_keys=True), x))
                break
            d = next((('%s differs: %s' % (k, snap.diff(w[k], got[k]))) for k in w if snap.diff(w[k], got[k])), None)
            if d:
                rep.bad('differs | %s | %s' % (s.name, kind), '%s with %s instead of a plain environment: %s' % (s.name, json.dumps(e, sort_keys=True), d))
                break
    rep.runs = 1
    rep.keys.append(core.jhash(keys))
    return rep


def shrink(case):
    e = case['env']
    for k in sorted(e):
        if len(e) > 1:
            yield dict(case, env={x: v for x, v in e.items() if x != k})
    if 'elsewhere' in e and e['elsewhere'][1]:
        yield dict(case, env=dict(e, elsewhere=[e['elsewhere'][0], {}]))
    if e.get('clock') and any(e['clock']):
        yield dict(case, env=dict(e, clock=[0]))
    for s in core.shrink_scene(case['scene']):
        yield dict(case, scene=s)
