"""C10: a failed or interrupted operation leaves no residue in the process."""
import gc
import locale
import logging
import os
import resource
import shutil
import signal
import sys
import threading
import warnings

import npmem
import numpy as np

import core
import ops
import threads
from props.c09 import compiled_names

ID = 'C10'
UNITS = {'quick': 400, 'thorough': 10000}
PER_UNIT = {'quick': 4, 'thorough': 4}
NOTE = ('Seeded search: an operation of the library fails up to three times in one process (disk errors, full device, interrupts at drawn file operations, lines and bytecodes, '
        'failing readers and writers, arrays without memory, broken input files), then is repeated without faults; process state is compared and results are checked. Samples operations and fault points.')
RULE = ('A case is an operation, a history of faults for its attempts, and the choice of implementation. Distinct by case, by the log of file operations and by the outcomes.')
MEASURE = 'operation, faults, outcome of every attempt and log of intercepted operations.'
REAL = ['malstroem (algorithms, tools, readers and writers, command line)', 'GDAL/OGR, SQLite', 'Python tempfile']
STUB = ['disk errors, device space and signals (drawn)', 'readers and writers in memory for half of the operations']
ASSUMPTIONS = ['an interrupt inside the creation or removal of a temporary directory by the standard library may leave it behind (Python has no remedy)',
               'vector outputs a failed attempt left are removed before the next attempt (see C03, C04); rasters stay']

LINE_ERRORS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'RuntimeError': RuntimeError, 'OSError': OSError}


def cases(rng, tier, ctx, u):
    for j in range(PER_UNIT[tier]):
        files = rng.random() < 0.6
        op = ops.random_op(rng, ops.FILES if files else ops.MEMORY, ops.terrain(rng, 4, 7))
        if op['op'] == 'complete' and rng.random() < 0.5:
            op = ops.random_op(rng, ['vector', 'raster', 'vectorize_io'], op['dem'])
        hist = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if files:
                how = rng.choice(['disk', 'disk', 'disk', 'full', 'signal', 'signal', 'line', 'line', 'opcode', 'input', 'memory'])
            else:
                how = rng.choice(['seam', 'line', 'line', 'opcode', 'memory'])
            f = dict(how=how)
            if how == 'disk':
                k = rng.choice(['openr', 'openw', 'closew', 'read', 'write', 'write', 'sync', 'trunc', 'unlink', 'mkdir', 'lock', 'rename'])
                f.update(kind=k, at=rng.random(), err=rng.choice(core.ERRS), count=rng.choice([1, 1, 1, 3, 1000000]))
            elif how in ('full', 'signal', 'line', 'opcode'):
                f.update(at=rng.random())
                if how in ('line', 'opcode'):
                    f['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'RuntimeError', 'OSError'])
            elif how == 'memory':
                f.update(at=rng.random(), count=rng.choice([1, 1, 3, 1000000]))
            elif how == 'seam':
                f.update(at=rng.randint(1, 5))
            else:
                f.update(at=rng.random(), what=rng.choice(['truncate', 'garbage', 'remove']))
            hist.append(f)
        yield dict(op=op, hist=hist, fast=rng.random() < 0.6)


def fds(root):
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if p.startswith(root + '/'):
            out.append(p[len(root) + 1:])
    return sorted(out)


class Probe(object):
    """an error handler of the program: does it still get the messages?"""

    def __init__(self):
        from osgeo import gdal
        self.got = []
        self.gdal = gdal
        gdal.PushErrorHandler(self.handle)

    def handle(self, cls, no, msg):
        self.got.append(msg)

    def works(self):
        n = len(self.got)
        self.gdal.Error(self.gdal.CE_Warning, 1, 'probe')
        return len(self.got) == n + 1


def state(root, cli):
    from osgeo import gdal, ogr, osr
    s = dict(tmp=sorted(os.listdir(os.path.join(root, 'tmp'))), fds=fds(root), cwd=os.getcwd(), env=dict(os.environ), implementation=compiled_names(),
             threads=threading.active_count(), handlers=[str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1)],
             numpy=np.geterr(), warnings=[str(f[:3]) for f in warnings.filters], trace=str(sys.gettrace()), path=list(sys.path),
             exceptions=[gdal.GetUseExceptions(), ogr.GetUseExceptions(), osr.GetUseExceptions()],
             options=dict(gdal.GetConfigOptions(), **{k: gdal.GetConfigOption(k) for k in ('CPL_TMPDIR', 'GDAL_NUM_THREADS', 'GDAL_PAM_ENABLED', 'OGR_SQLITE_SYNCHRONOUS', 'CPL_DEBUG', 'CPL_LOG', 'GDAL_CACHEMAX')}),
             cache=gdal.GetCacheMax(), umask=umask(), limit=[sys.getrecursionlimit(), resource.getrlimit(resource.RLIMIT_NOFILE), resource.getrlimit(resource.RLIMIT_FSIZE)], gc=gc.isenabled(), locale=locale.setlocale(locale.LC_ALL),
             hook=[str(sys.excepthook), str(threading.excepthook)], drivers=[gdal.GetDriverCount(), ogr.GetDriverCount()], errcall=str(np.geterrcall()),
             blocked=sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])), timer=signal.getitimer(signal.ITIMER_REAL)[0] > 0, std=[id(sys.stdout), id(sys.stderr)])
    if not cli:
        s['logging'] = [logging.getLogger().level, len(logging.getLogger().handlers), logging.getLogger('malstroem').level, logging.root.manager.disable]
    return s


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


class Attempt(object):
    """one call of the operation with one fault (or none)"""

    def __init__(self, ctx, case, n):
        self.ctx, self.case, self.n = ctx, case, n
        self.path = os.path.join(ctx.data, 'd')

    def prepare(self):
        """bring the directory to what a careful user would start from"""
        op = self.case['op']
        out = os.path.join(self.path, 'out')
        if op['op'] == 'complete' and os.path.isdir(out):
            shutil.rmtree(out)
        if os.path.isdir(self.path):
            for f in os.listdir(self.path):
                if f.split('.')[0] in ('v', 'p') or f.startswith('out.gpkg'):
                    os.unlink(os.path.join(self.path, f))

    def go(self, fault, size):
        from malstroem.algorithms import speedups
        speedups.enable()
        left = [fault['at'] if fault and fault['how'] == 'seam' else 0]

        def seam():
            left[0] -= 1
            if left[0] == 0:
                raise IOError('drawn')
        self.prepare()
        o = ops.Op(self.case['op'], self.path, seam)
        if not self.case['fast']:
            speedups.disable()
        fired = [False]
        how = fault['how'] if fault else None
        ctl = self.ctx.ctl
        before = state(self.ctx.root, True)
        n0 = ctl.i64('nops')
        ev = None
        if how == 'input':
            broken = self.break_input(fault)
        if how == 'disk':
            arm(ctl, fault, size, {k: ctl.i64('kindcount', ix=core.kernel.K[k]) for k in core.kernel.KINDS})
        elif how == 'signal':
            arm_all(ctl, 1 + int(fault['at'] * max(size['nops'], 1)) + n0)
        elif how == 'full':
            ctl.i64('budget', int(fault['at'] * max(size['written'], 1)))
        elif how == 'memory':
            npmem.arm(1 + int(fault['at'] * size['arrays']), fault['count'])
        elif how in ('line', 'opcode'):
            def do():
                raise LINE_ERRORS[fault['exc']]('drawn')
            at, opcodes = threads.place(size['places'], fault['at'])
            ev = threads.Events(at, do, opcodes if how == 'opcode' else 0)
        try:
            if ev:
                with ev:
                    r = o.call()
            else:
                r = o.call()
            npmem.disarm()
            out = ('ok', ops.canon(r))
        except Exception as e:
            out = ('error', type(e).__name__, str(e).replace(self.ctx.root, '')[:200])
        except KeyboardInterrupt:
            out = ('error', 'KeyboardInterrupt', '')
        finally:
            npmem.disarm()
            sys.settrace(None)
            disarm(ctl)
        if how == 'input' and broken:
            os.rename(broken + '.good', broken)
        r = o = None
        while True:
            try:
                gc.collect()
                break
            except KeyboardInterrupt:
                pass
        excused = core.beyond_remedy(ctl.log()[n0:])
        after = state(self.ctx.root, True)
        return out, before, after, excused, ctl.i64('nops') - n0

    def break_input(self, fault):
        names = [n for n in sorted(os.listdir(self.path)) if n.endswith('.tif')] if os.path.isdir(self.path) else []
        if not names:
            return None
        p = os.path.join(self.path, names[int(fault['at'] * len(names))])
        shutil.copy(p, p + '.good')
        if fault['what'] == 'remove':
            os.unlink(p)
        elif fault['what'] == 'truncate':
            os.truncate(p, int(os.path.getsize(p) * fault['at']))
        else:
            with open(p, 'r+b') as f:
                f.seek(int(os.path.getsize(p) * fault['at'] * 0.5))
                f.write(b'\xff\x00\x13' * 60)
        return p


def arm(ctl, fault, size, counts):
    k = fault['kind']
    n = max(size['kinds'].get(k, 0), 1)
    put(ctl, dict(kinds=1 << core.kernel.K[k], action='fail', nth=1 + int(fault['at'] * n), count=fault['count'], err=fault['err']))


def arm_all(ctl, at):
    put(ctl, dict(kinds=core.kernel.ALL, action='interrupt', nth=at - ctl.i64('nops')))


def put(ctl, p):
    """like Ctl.setup, for a process which already runs"""
    ctl.plan_entry(0, p)
    ctl.i32('nplan', 1)


def disarm(ctl):
    ctl.i32('nplan', 0)
    ctl.i64('budget', -1)


def run(case, ctx):
    rep = core.Report()
    cli = case['op']['op'] in ('cli', 'complete')

    def fresh():
        shutil.rmtree(ctx.root, ignore_errors=True)
        os.makedirs(ctx.data)
        os.makedirs(os.path.join(ctx.root, 'tmp'))

    def alone():
        signal.alarm(150)
        a = Attempt(ctx, case, 0)
        from malstroem.algorithms import speedups
        o = ops.Op(case['op'], a.path)
        if not case['fast']:
            speedups.disable()
        k0 = {k: ctx.ctl.i64('kindcount', ix=core.kernel.K[k]) for k in core.kernel.KINDS}
        n0 = ctx.ctl.i64('nops')
        npmem.arm(1 << 60, 1)
        with threads.Places() as ev:
            try:
                out = ('ok', o.call())
            except Exception as e:
                out = ('error', type(e).__name__, '')
        arrays = npmem.disarm()[0]
        if out[0] == 'ok':
            out = ('ok', ops.canon(out[1]))
        log = ctx.ctl.log()[n0:]
        return out, dict(nops=ctx.ctl.i64('nops') - n0, kinds={k: ctx.ctl.i64('kindcount', ix=core.kernel.K[k]) - k0[k] for k in k0},
                         written=sum(x[4] for x in log if x[0] == 'write' and x[2] > 0), places=ev.places(), arrays=arrays)
    fresh()
    try:
        want, size = ctx.inproc(alone)
    except core.Broken as e:
        raise core.Skip('alone: ' + e.what)
    fresh()

    def history():
        signal.alarm(150)
        used = int(sum(resource.getrusage(resource.RUSAGE_SELF)[:2]))
        resource.setrlimit(resource.RLIMIT_CPU, (used + 12, used + 17))
        res = []
        for n, f in enumerate(case['hist'] + [None]):
            probe = Probe()
            out, before, after, excused, used = Attempt(ctx, case, n).go(f, size)
            res.append((out, {k: (before[k], after[k]) for k in before if before[k] != after[k]}, excused, probe.works()))
            probe.gdal.PopErrorHandler()
            if excused:
                for t in os.listdir(os.path.join(ctx.root, 'tmp')):
                    shutil.rmtree(os.path.join(ctx.root, 'tmp', t), ignore_errors=True)
        return res
    try:
        res = ctx.inproc(history, rep, key=case)
    except core.Broken as e:
        if e.outcome == 'no progress' and any(a != 'none' and k in ('write', 'trunc') and path.endswith('.tif') for k, path, ret, off, ln, a, err in ctx.ctl.log()):
            # libtiff (TIFFRewriteDirectory) searches its directories in an endless loop when they could not be written
            ctx.stats['endless loop in libtiff after failed writes'] += 1
            return rep
        rep.bad('ends', 'the process ends: ' + e.what)
        return rep
    rep.keys[-1] = core.jhash([case, [x[0][:2] for x in res], ctx.ctl.digest()])
    for k, path, ret, off, ln, a, err in ctx.ctl.log():
        if a != 'none':
            rep.trace.append('%s %s %s -> %s' % (a, k, path, err))
    name = case['op']['op'] + ((' ' + case['op']['fmt']) if case['op'].get('fmt') else '')
    for (out, changed, excused, works), f in zip(res, case['hist'] + [None]):
        after = 'after %s' % (f['how'] if f else 'the last attempt')
        outcome = out[0] if out[0] == 'ok' else out[:2]
        if f:
            ctx.stats['fault %s%s' % (f['how'], ' took effect' if out[0] != 'ok' else ' without effect')] += 1
        for k, (b, x) in sorted(changed.items()):
            if excused and (k == 'tmp' or k == 'fds' and all(p.startswith('tmp') for p in set(x) ^ set(b))):
                continue
            rep.bad('%s: %s %s' % (name, k, 'left'), '%s (%s): %s is %s, was %s' % (after, outcome, k, ops.short(x), ops.short(b)))
        if not works and not (f and f['how'] in ('line', 'opcode')):
            # (an asynchronous exception between pushing a handler and the statement protecting it has no remedy)
            rep.bad('%s: error handler' % name, "%s (%s): the program's GDAL error handler does not work any more" % (after, outcome))
        if out[0] == 'ok' and want[0] == 'ok' and out[1] != want[1] and not (f and f['how'] == 'input'):
            rep.bad('%s: %s' % (name, 'wrong result' if f else 'repeated'), '%s: %s' % (after, ops.diff(want[1], out[1])))
    last = res[-1][0]
    if last[0] != want[0]:
        rep.bad('%s: cannot repeat' % name, 'repeating after %s: %s instead of %s' % ([f['how'] for f in case['hist']], ops.short(last), ops.short(want)))
    return rep


def shrink(case):
    if len(case['hist']) > 1:
        for i in range(len(case['hist'])):
            yield dict(case, hist=case['hist'][:i] + case['hist'][i + 1:])
    for d in core.shrink_dem(case['op']['dem']):
        yield dict(case, op=dict(case['op'], dem=d))
    if not case['fast']:
        yield dict(case, fast=True)
