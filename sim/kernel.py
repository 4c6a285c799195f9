"""Runs code in a forked child whose every file-system call goes through simk.c.

One call of `run` is one simulated process: it starts, executes, and ends by
itself, by an injected crash, or because it made no progress within its
operation limit.  What it did is returned as a numbered operation log.
"""
import ctypes
import gc
import hashlib
import mmap
import os
import resource
import signal
import struct
import sys
import traceback

KINDS = ['openr', 'openw', 'closer', 'closew', 'read', 'write', 'sync', 'trunc', 'rename', 'unlink', 'mkdir', 'rmdir', 'lock']
K = {n: i for i, n in enumerate(KINDS)}
ACTIONS = ['none', 'fail', 'short', 'crash_before', 'crash_after', 'crash_torn', 'interrupt', 'bad sector']
A = {n: i for i, n in enumerate(ACTIONS)}
ALL = (1 << len(KINDS)) - 1
MUTATING = sum(1 << K[k] for k in ('openw', 'closew', 'write', 'sync', 'trunc', 'rename', 'unlink', 'mkdir', 'rmdir'))
OPLIMIT = 150000
CLOCK = 1577836800  # what the file system's clock says unless something else is drawn
CPULIMIT = 40     # seconds; no simulated process needs more than a few

_lib = None
_lay = None


def load(path):
    global _lib, _lay
    _lib = ctypes.CDLL(path, use_errno=True)
    buf = (ctypes.c_int64 * 40)()
    _lib.simk_layout(buf)
    names = ('root randstate budget nplan cwd plan nops kindcount actcount enospc logged npaths crashed overflow phase oplimit '
             'vtime sleeps stuck sched state go gatekind gatepath opbase paths log sizeof_plan sizeof_log size memfail arrays lineat clock').split()
    _lay = dict(zip(names, buf))
    _lib.simk_arm.argtypes = [ctypes.c_void_p]
    _lib.simk_step.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]


class Ctl(object):
    """the memory shared between the simulator and one simulated process"""

    def __init__(self):
        self.m = mmap.mmap(-1, _lay['size'])
        self.c = ctypes.c_char.from_buffer(self.m)
        self.addr = ctypes.addressof(self.c)

    def i32(self, f, v=None):
        if v is None:
            return struct.unpack_from('i', self.m, _lay[f])[0]
        struct.pack_into('i', self.m, _lay[f], v)

    def i64(self, f, v=None, ix=0):
        if v is None:
            return struct.unpack_from('q', self.m, _lay[f] + 8 * ix)[0]
        struct.pack_into('q', self.m, _lay[f] + 8 * ix, v)

    def setup(self, root, plan=(), budget=-1, rand=1, sched=False, oplimit=OPLIMIT, clock=CLOCK, cwd=None):
        b = root.encode()
        assert len(b) < 250
        # zero everything in front of the log; the log itself is bounded by `logged`
        self.m[0:_lay['log']] = bytes(_lay['log'])
        self.m[_lay['root']:_lay['root'] + len(b)] = b
        struct.pack_into('Q', self.m, _lay['randstate'], (rand * 0x9e3779b97f4a7c15 + 0x1234567) & (2 ** 64 - 1))
        self.i64('budget', budget)
        self.i64('oplimit', oplimit)
        self.i64('clock', clock)
        self.i32('cwd', 1 if cwd and (cwd + '/').startswith(root + '/') else 0)
        self.i32('sched', 1 if sched else 0)
        self.i32('nplan', len(plan))
        for i, p in enumerate(plan):
            self.plan_entry(i, p)

    def plan_entry(self, i, p):
        o = _lay['plan'] + i * _lay['sizeof_plan']
        self.m[o:o + _lay['sizeof_plan']] = bytes(_lay['sizeof_plan'])
        struct.pack_into('=IiqqiI', self.m, o, p['kinds'], A[p['action']], p['nth'], p.get('count', 1), p.get('err', 5), p.get('param', 500))
        sub = p.get('path', '').encode()[:63]
        self.m[o + 32:o + 32 + len(sub)] = sub
        struct.pack_into('=qq', self.m, o + 96, p.get('lo', 0), p.get('hi', 0))

    def paths(self):
        n = self.i32('npaths')
        return [self.m[_lay['paths'] + i * 256:_lay['paths'] + i * 256 + 256].split(b'\0')[0].decode(errors='replace') for i in range(n)]

    def log(self):
        ps = self.paths()
        out = []
        for i in range(self.i64('logged')):
            kind, path, ret, off, ln, act, err = struct.unpack_from('=HHiqqii', self.m, _lay['log'] + i * _lay['sizeof_log'])
            if KINDS[kind] in ('openr', 'openw'):
                # which number a file gets depends on what the checker itself has open (PROJ's database)
                ret = min(ret, 0)
            out.append((KINDS[kind], ps[path], ret, off, ln, ACTIONS[act], err))
        return out

    def fired(self):
        n = self.i32('nplan')
        return [struct.unpack_from('=qq', self.m, _lay['plan'] + i * _lay['sizeof_plan'] + 112)[1] for i in range(n)]

    def digest(self):
        return hashlib.sha256(repr(self.log()).encode()).hexdigest()[:16]


class Result(object):
    def __init__(self, status, ctl):
        self.sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        self.code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -self.sig
        self.crashed = bool(ctl.i32('crashed'))
        self.stuck = bool(ctl.i32('stuck')) or self.sig == signal.SIGXCPU
        self.nops = ctl.i64('nops')
        self.kinds = {k: ctl.i64('kindcount', ix=i) for i, k in enumerate(KINDS)}
        self.acts = {a: ctl.i64('actcount', ix=i) for i, a in enumerate(ACTIONS) if i}
        self.enospc = ctl.i64('enospc')
        self.memfail, self.arrays, self.lineat = ctl.i64('memfail'), ctl.i64('arrays'), ctl.i64('lineat')
        self.fired = ctl.fired()
        self.vtime = ctl.i64('vtime')
        self.ctl = ctl
        self.stderr = ''

    def fault_happened(self):
        return self.crashed or any(self.fired) or self.enospc > 0 or self.memfail > 0 or self.lineat > 0

    def outcome(self):
        return 'crash' if self.crashed else 'stuck' if self.stuck else 'ok' if self.code == 0 else 'killed' if self.sig else 'error'


class Spec(object):
    """how to start one simulated process"""

    def __init__(self, fn, root, errfile, plan=(), budget=-1, rand=1, sched=False, oplimit=OPLIMIT, nomem=None, noarray=None, clock=CLOCK, cwd=None,
                 before=None):
        self.fn, self.root, self.errfile, self.plan, self.budget = fn, root, errfile, plan, budget
        self.rand, self.sched, self.oplimit, self.nomem, self.noarray = rand, sched, oplimit, nomem, noarray
        self.clock, self.cwd, self.before = clock, cwd, before


def start(spec, ctl):
    ctl.setup(spec.root, spec.plan, spec.budget, spec.rand, spec.sched, spec.oplimit, spec.clock, spec.cwd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 99
    try:
        _become_child(spec)
        if spec.cwd:
            os.chdir(spec.cwd)
        if spec.before:
            spec.before()
        if spec.nomem is not None:
            # what free lists hold depends on the past
            gc.collect()
        if _lib.simk_arm(ctl.addr):
            os._exit(98)
        code = _guarded(spec.fn, spec.nomem, spec.noarray, ctl)
        gc.collect()
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code)


def _become_child(spec):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    fd = os.open(spec.errfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    nul = os.open('/dev/null', os.O_RDONLY)
    os.dup2(nul, 0)
    os.close(nul)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', closefd=False)
    used = int(sum(resource.getrusage(resource.RUSAGE_SELF)[:2]))
    resource.setrlimit(resource.RLIMIT_CPU, (used + CPULIMIT, used + CPULIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = os.path.join(spec.root, 'tmp')
    os.environ['TMPDIR'] = t
    os.environ['CPL_TMPDIR'] = t
    import tempfile
    import random
    tempfile.tempdir = t
    # temporary names come from the seed alone: how many random bytes libraries fetch for themselves
    # depends on what this worker happened to do before
    names = tempfile._RandomNameSequence()
    names._rng, names._rng_pid = random.Random(spec.rand), os.getpid()
    tempfile._name_sequence = names
    random.seed(spec.rand)
    import numpy
    numpy.random.seed(spec.rand & 0xffffffff)
    from osgeo import gdal
    gdal.SetConfigOption('CPL_TMPDIR', t)


def _guarded(fn, nomem, noarray, ctl):
    """what the interpreter does around a console script"""
    armed = False
    if noarray is not None:
        import npmem
        npmem.arm(*noarray)
        try:
            return _guarded(fn, nomem, None, ctl)
        finally:
            n, hit = npmem.disarm()
            ctl.i64('arrays', n)
            ctl.i64('memfail', hit)
    try:
        if nomem is not None:
            import _testcapi
            armed = True
            _testcapi.set_nomemory(*nomem)
        fn()
        return 0
    except SystemExit as e:
        if armed:
            _testcapi.remove_mem_hooks()
        c = e.code
        return c if isinstance(c, int) else (0 if c is None else 1)
    except BaseException:
        if armed:
            _testcapi.remove_mem_hooks()
        try:
            traceback.print_exc()
        except BaseException:
            pass
        return 1
    finally:
        if armed:
            _testcapi.remove_mem_hooks()


def finish(pid, spec, ctl):
    _, st = os.waitpid(pid, 0)
    r = Result(st, ctl)
    try:
        with open(spec.errfile, errors='replace') as f:
            r.stderr = f.read()[-6000:]
    except OSError:
        pass
    return r


def run(spec, ctl):
    return finish(start(spec, ctl), spec, ctl)


def run_interleaved(specs, ctls, pick):
    """Run several simulated processes, one operation at a time; pick(alive) -> index is the scheduler.

    Returns (results, trace of picks)."""
    for s in specs:
        s.sched = True
    pids = [start(s, c) for s, c in zip(specs, ctls)]
    alive = list(range(len(specs)))
    trace = []
    results = [None] * len(specs)
    # bring each one to its first operation
    for i in list(alive):
        if _lib.simk_step(ctls[i].addr, pids[i], 0) == 2:
            alive.remove(i)
            results[i] = finish(pids[i], specs[i], ctls[i])
    while alive:
        i = pick(alive)
        trace.append(i)
        if _lib.simk_step(ctls[i].addr, pids[i], 1) == 2:
            alive.remove(i)
            results[i] = finish(pids[i], specs[i], ctls[i])
    return results, trace


def run_cli(args):
    def fn():
        from malstroem.scripts.cli import cli
        cli.main(args=[str(a) for a in args], prog_name='malstroem')
    return fn
