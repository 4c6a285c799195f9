"""What every property check shares: scratch worlds, fault generation, accounting."""
import _testcapi
import collections
import errno
import fcntl
import hashlib
import json
import os
import pickle
import shutil

import kernel
import snap
import threads
import world

LINE_ERRORS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
ERRS = [errno.EIO, errno.ENOSPC, errno.EACCES]


class Skip(Exception):
    """the case cannot be evaluated (not a violation)"""


class Broken(Exception):
    """a simulated process did not end by returning"""

    def __init__(self, r):
        self.r = r
        self.outcome = 'no progress' if r.stuck else r.outcome()
        last = [l for l in r.stderr.strip().split('\n') if l.strip()]
        self.what = '%s%s: %s' % (self.outcome, ' by signal %d' % r.sig if r.sig else '', last[-1][:200] if last else '')
        Exception.__init__(self, self.what)


class Violation(object):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Report(object):
    """the result of one case"""

    def __init__(self):
        self.violations = []
        self.keys = []      # one key per simulated run that was non-trivial
        self.runs = 0
        self.trace = []

    def bad(self, sig, msg):
        self.violations.append(Violation(sig, msg))


def jhash(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def scratch_base():
    for d in ('/dev/shm', os.environ.get('TMPDIR'), '/tmp'):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


def claim(path):
    """An empty directory of one's own. Its name is the same in every execution, since hashes of paths decide how much memory Python
    takes; only what runs at the same time gets another one."""
    for n in range(10000):
        p = path + ('-%d' % n if n else '')
        try:
            os.mkdir(p, 0o700)
        except FileExistsError:
            pass
        try:
            fd = os.open(p, os.O_RDONLY | os.O_DIRECTORY)
        except OSError:
            continue
        low, fd = fd, fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 300)
        os.close(low)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            if os.stat(p).st_ino != os.fstat(fd).st_ino:
                raise OSError('removed')
        except OSError:
            os.close(fd)
            continue
        for name in os.listdir(p):
            q = os.path.join(p, name)
            shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.remove(q)
        return p, fd
    raise RuntimeError('no directory for the simulation')


class Missing(Skip):
    """without any fault a command succeeds and leaves an output that is not there or cannot be read"""


class Ctx(object):
    """one worker's workshop"""

    def __init__(self, name):
        self.base, self.lock = claim(os.path.join(scratch_base(), 'vsim-' + name))
        self.root = os.path.join(self.base, 'w')
        self.data = os.path.join(self.root, 'data')
        self.err = os.path.join(self.base, 'err')
        self.ctls = [kernel.Ctl()]
        self.ctl = self.ctls[0]
        self.stats = collections.Counter()
        self._prefix = {}
        self.rep = None
        self.memline = False

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)
        os.close(self.lock)

    def more_ctls(self, n):
        while len(self.ctls) < n:
            self.ctls.append(kernel.Ctl())
        return self.ctls[:n]

    # ---- simulated processes

    def account(self, r, ctl=None, rep=None):
        ctl = ctl or self.ctl
        s = self.stats
        s['processes'] += 1
        s['ops'] += r.nops
        s['vtime'] += r.vtime
        s['outcome ' + r.outcome()] += 1
        if r.enospc:
            s['fault device full'] += r.enospc
        if r.memfail:
            s['fault no memory for array'] += r.memfail
        if r.lineat:
            s['fault no memory from a line' if self.memline else 'fault exception at a line'] += 1
        if any(r.acts.values()):
            for kind, path, ret, off, ln, act, err in ctl.log():
                if act != 'none':
                    s['fault %s %s' % (act, kind)] += 1
        if rep is not None:
            rep.runs += 1
            rep.keys.append(ctl.digest() + r.outcome())

    def spec(self, fn, **kw):
        return kernel.Spec(fn, self.root, self.err, **kw)

    def run(self, fn, rep=None, **kw):
        r = kernel.run(self.spec(fn, **kw), self.ctl)
        self.account(r, rep=rep)
        return r

    def cli(self, args, rep=None, line=None, **kw):
        fn = kernel.run_cli(world.absolute(args, self.data))
        if line:
            fn = self.at_line(fn, line)
        return self.run(fn, rep, **kw)

    def places(self, pf, i):
        """the lines of the library which command i executes; leaves another world behind"""
        if i not in pf.places:
            self.restore('p%d' % i)
            args = world.absolute(pf.stages[i].args, self.data)

            def fn():
                with threads.Places() as p:
                    try:
                        kernel.run_cli(args)()
                    except SystemExit:
                        pass
                return p.places()
            pf.places[i] = self.child(fn)[1] or []
        return pf.places[i]

    def fault_kw(self, pf, i, f):
        """arguments for run or cli; before the world of command i is restored"""
        kw = fault_kw(f)
        if f.get('line'):
            kw['line'] = dict(f['line'], event=threads.place(self.places(pf, i), f['line']['at']))
        return kw

    def at_line(self, fn, line):
        self.memline = bool(line.get('mem'))

        def do():
            self.ctl.i64('lineat', 1 + self.ctl.i64('nops'))
            if line.get('then'):
                self.ctl.plan_entry(0, line['then'])
                self.ctl.i32('nplan', 1)
            if line.get('mem'):
                _testcapi.set_nomemory(*line['mem'])
            else:
                raise LINE_ERRORS[line['exc']]('drawn')

        def f():
            try:
                with threads.Events(line['event'][0], do, line['event'][1] if line['op'] else 0):
                    fn()
            finally:
                if line.get('mem'):
                    _testcapi.remove_mem_hooks()
        return f

    def child(self, fn, rep=None, **kw):
        """fn() runs in a simulated process; returns (result of run, what fn returned or None)"""
        res = self.err + '.result'
        if os.path.exists(res):
            os.unlink(res)

        def body():
            out = fn()
            with open(res, 'wb') as f:
                pickle.dump(out, f)
        r = self.run(body, rep, **kw)
        out = None
        if r.outcome() == 'ok' and os.path.exists(res):
            with open(res, 'rb') as f:
                out = pickle.load(f)
        return r, out

    def inproc(self, fn, rep=None, key=None, **kw):
        """Like child, for a run that touches no files: the run is identified by `key` instead of its operation log.

        Gives what fn returned; raises Broken when the process ended in any other way than by returning."""
        os.makedirs(os.path.join(self.root, 'tmp'), exist_ok=True)
        r, out = self.child(fn, None, **kw)
        if rep is not None:
            rep.runs += 1
            rep.keys.append(jhash(key if key is not None else out))
        if r.outcome() != 'ok':
            raise Broken(r)
        return out

    def lay_empty(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.data)
        os.makedirs(os.path.join(self.root, 'tmp'))

    # ---- saved states of the world

    def save(self, name):
        p = os.path.join(self.base, 'save-' + name)
        shutil.rmtree(p, ignore_errors=True)
        shutil.copytree(self.root, p, symlinks=True)
        return p

    def restore(self, name):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.copytree(os.path.join(self.base, 'save-' + name), self.root, symlinks=True)

    def prefix(self, scene, which='chain', stages=None):
        """The fault-free history of one scene: a saved world in front of each stage and each stage's outputs."""
        key = jhash([scene, which, [s.name for s in stages] if stages else None])
        if key in self._prefix:
            p = self._prefix[key]
            if p is None:
                raise Skip('fault-free history fails')
            if isinstance(p, Missing):
                raise p
            return p
        for n in os.listdir(self.base):
            if n.startswith('save-p'):
                shutil.rmtree(os.path.join(self.base, n), ignore_errors=True)
        self._prefix = {key: None}
        world.lay_out(self.root, scene)
        if which == 'complete':
            os.mkdir(os.path.join(self.data, 'out'))
            stages = [world.complete_stage(scene)]
        elif stages is None:
            stages = world.chain(scene)
        p = Prefix(stages)
        big = len(scene['dem']['z']) * len(scene['dem']['z'][0])
        for i, st in enumerate(stages):
            self.save('p%d' % i)
            r = self.cli(st.args, noarray=(1 << 60, 1, big))
            if r.outcome() != 'ok':
                raise Skip('fault-free %s fails: %s' % (st.name, r.stderr[-300:]))
            try:
                p.want.append(snap.outputs(st, self.data))
            except snap.Unreadable as e:
                self._prefix[key] = Missing('fault-free %s: %s' % (st.name, e))
                raise self._prefix[key]
            p.kinds.append(dict(r.kinds, arrays=r.arrays, big=big))
            p.nops.append(r.nops)
            p.log.append(self.ctl.log())
            p.written.append(sum(ln for k, path, ret, off, ln, a, e in p.log[-1] if k == 'write' and ret > 0))
        self.save('p%d' % len(stages))
        self._prefix[key] = p
        return p


class Prefix(object):
    def __init__(self, stages):
        self.stages = stages
        self.want, self.kinds, self.nops, self.log, self.written = [], [], [], [], []
        self.places = {}

    def index(self, name):
        for i, s in enumerate(self.stages):
            if s.name == name:
                return i
        raise Skip('no stage ' + name)


# ---- faults

def gen_fault(rng, kinds, written, modes, log=()):
    """One fault configuration for a process whose fault-free run did `kinds` operations. JSON-able."""
    mode = rng.choice(modes)
    have = [k for k in kinds if kinds[k] and k not in ('lock', 'arrays', 'big')]
    mut = [k for k in have if (1 << kernel.K[k]) & kernel.MUTATING]
    if mode == 'budget':
        b = rng.choice([0, rng.randint(0, 400), rng.randint(0, max(written // 4, 1)), rng.randint(0, max(written, 1))])
        return dict(mode=mode, budget=int(b))
    if mode in ('fail', 'sticky'):
        pool = mut if mut and rng.random() < 0.7 else have
        k = rng.choice(pool)
        e = dict(kinds=1 << kernel.K[k], action='fail', nth=rng.randrange(kinds[k]), count=1 if mode == 'fail' else -1, err=rng.choice(ERRS))
        if mode == 'sticky' and rng.random() < 0.3:
            e['kinds'] = kernel.MUTATING
            e['nth'] = rng.randrange(max(sum(kinds[x] for x in mut), 1))
        return dict(mode=mode, plan=[e])
    if mode in ('shortw', 'shortr'):
        k = 'write' if mode == 'shortw' else 'read'
        if not kinds.get(k):
            return dict(mode='none', plan=[])
        return dict(mode=mode, plan=[dict(kinds=1 << kernel.K[k], action='short', nth=rng.randrange(kinds[k]), count=rng.choice([1, 1, 30]), param=rng.randint(0, 1000))])
    if mode == 'badsector':
        size = {}
        for k, p, ret, off, ln, a, e in log:
            if k == 'read' and ret > 0:
                size[p] = max(size.get(p, 0), off + ret)
        if not size:
            return dict(mode='none', plan=[])
        p = rng.choice(sorted(size))
        lo = rng.randrange(size[p])
        return dict(mode=mode, plan=[dict(kinds=1 << kernel.K['read'], action='bad sector', nth=0, count=-1, path=p[-60:], lo=lo, hi=lo + rng.choice([1, 8, 32, 128, 512, 4096]))])
    if mode == 'interrupt':
        k = rng.choice(have)
        return dict(mode=mode, plan=[dict(kinds=1 << kernel.K[k], action='interrupt', nth=rng.randrange(kinds[k]))])
    if mode == 'crash':
        act = rng.choice(['crash_before', 'crash_after', 'crash_torn'])
        if act == 'crash_torn' and not kinds.get('write'):
            act = 'crash_after'
        pool = ['write'] if act == 'crash_torn' else (mut or have)
        if rng.random() < 0.5:
            total = sum(kinds[x] for x in pool)
            mask = sum(1 << kernel.K[x] for x in pool)
            return dict(mode=mode, plan=[dict(kinds=mask, action=act, nth=rng.randrange(total), param=rng.randint(0, 1000))])
        k = rng.choice(pool)
        return dict(mode=mode, plan=[dict(kinds=1 << kernel.K[k], action=act, nth=rng.randrange(kinds[k]), param=rng.randint(0, 1000))])
    if mode in ('fail+crash', 'fail+sticky'):
        # something else goes wrong while the command deals with its first problem
        if not log:
            return dict(mode='none', plan=[])
        pool = mut if mut and rng.random() < 0.6 else have
        k = rng.choice(pool)
        n = rng.randrange(kinds[k])
        at = [i for i, x in enumerate(log) if x[0] == k]
        e = dict(kinds=1 << kernel.K[k], action=rng.choice(['fail', 'fail', 'fail', 'interrupt']), nth=n, count=rng.choice([1, 1, 1, 3]), err=rng.choice(ERRS))
        if e['action'] == 'interrupt':
            e['count'] = 1
        at = (at[n] if n < len(at) else len(log)) + 1 + rng.choice([rng.randint(0, 4), rng.randint(0, 15), rng.randint(0, 60)])
        f = dict(kinds=kernel.ALL, nth=at)
        if mode == 'fail+crash':
            f.update(action=rng.choice(['crash_before', 'crash_after', 'crash_torn']), count=1, param=rng.randint(0, 1000))
        else:
            f.update(action='fail', count=rng.choice([-1, 1, 4]), err=rng.choice(ERRS))
        return dict(mode=mode, plan=[e, f])
    if mode in ('line', 'line+crash'):
        f = dict(at=rng.random(), exc=rng.choice(sorted(LINE_ERRORS)), op=rng.random() < 0.3)
        if mode == 'line+crash':
            f['then'] = dict(kinds=kernel.ALL, action=rng.choice(['crash_before', 'crash_after', 'crash_torn', 'fail']), nth=rng.choice([rng.randint(0, 4), rng.randint(0, 25), rng.randint(0, 100)]),
                             count=1, param=rng.randint(0, 1000))
            if f['then']['action'] == 'fail':
                f['then'].update(count=-1, err=rng.choice(ERRS))
        return dict(mode=mode, line=f)
    if mode in ('nomem', 'mem'):
        if kinds.get('arrays') and rng.random() < 0.5:
            # memory of arrays, of the larger ones
            return dict(mode=mode, noarray=[rng.randint(1, kinds['arrays']), rng.choice([1, 1, 1, 2, 1000]), kinds['big']])
        if mode == 'mem':
            # counted from a line of the library
            s = rng.choice([rng.randint(0, 4), rng.randint(0, 30), int(10 ** rng.uniform(0, 3))])
            return dict(mode=mode, line=dict(at=rng.random(), op=False, mem=[s, s + rng.choice([1, 1, 3, 50])]))
        s = int(10 ** rng.uniform(2.0, 5.3))
        return dict(mode=mode, nomem=[s, s + rng.choice([1, 1, 3, 50])])
    return dict(mode='none', plan=[])


def fault_kw(f):
    kw = {}
    if f.get('plan'):
        kw['plan'] = f['plan']
    if f.get('budget') is not None:
        kw['budget'] = f['budget']
    if f.get('nomem'):
        kw['nomem'] = tuple(f['nomem'])
    if f.get('noarray'):
        kw['noarray'] = tuple(f['noarray'])
    return kw


def hits(ctl):
    """the operations that were disturbed"""
    return [x for x in ctl.log() if x[5] != 'none' or x[6] == errno.ENOSPC]


def beyond_remedy(log):
    """did a fault hit the creation or removal of a temporary directory itself? Nobody can clean up then"""
    return any(act in ('interrupt', 'fail') and path.startswith('tmp') and (k in ('mkdir', 'rmdir', 'unlink') or path.count('/') <= 1)
               for k, path, ret, off, ln, act, err in log)


def where(ctl):
    h = hits(ctl)
    if not h:
        return 'nothing'
    k, p = h[0][0], h[0][1]
    return '%s %s %s' % (h[0][5], k, os.path.splitext(p)[1] or os.path.basename(p))


def trace(ctl, around=6, limit=60):
    """the fault and the operations around it"""
    log = ctl.log()
    keep = set()
    for i, x in enumerate(log):
        if x[5] != 'none':
            keep.update(range(max(0, i - around), min(len(log), i + around + 1)))
    out = []
    for i in sorted(keep)[:limit]:
        k, p, ret, off, ln, act, err = log[i]
        out.append('#%d %s %s @%d +%d -> %d%s' % (i, k, p, off, ln, ret, '' if act == 'none' else '   <== %s' % act))
    return out


# ---- shrinking

def shrink_dem(d):
    z = d['z']
    R, C = len(z), len(z[0])

    def crop(r0, r1, c0, c1):
        return dict(d, z=[row[c0:c1] for row in z[r0:r1]], holes=[[r - r0, c - c0] for r, c in d['holes'] if r0 <= r < r1 and c0 <= c < c1])
    for k in (R // 2, R // 4, 1):
        if k and R - k >= 4:
            yield crop(k, R, 0, C)
            yield crop(0, R - k, 0, C)
    for k in (C // 2, C // 4, 1):
        if k and C - k >= 4:
            yield crop(0, R, k, C)
            yield crop(0, R, 0, C - k)
    if d['holes']:
        yield dict(d, holes=[])
    if d['nodata'] is not None and not d['holes']:
        yield dict(d, nodata=None)
    if d['cell'] != 1.0:
        yield dict(d, cell=1.0)
    r = [[float(round(v)) for v in row] for row in z]
    if r != z:
        yield dict(d, z=r)


def shrink_scene(s):
    for d in shrink_dem(s['dem']):
        yield dict(s, dem=d)
    for k, v in (('filter', None), ('accum', False), ('vector', False)):
        if s.get(k):
            yield dict(s, **{k: v})


def shrink_fault(f):
    if f.get('line'):
        x = f['line']
        if x['op']:
            yield dict(f, line=dict(x, op=False))
        if x.get('then'):
            yield dict(f, line={k: v for k, v in x.items() if k != 'then'})
            for n in (0, x['then']['nth'] // 2, x['then']['nth'] - 1):
                if 0 <= n < x['then']['nth']:
                    yield dict(f, line=dict(x, then=dict(x['then'], nth=n)))
    for i, e in enumerate(f.get('plan') or []):
        if len(f['plan']) > 1:
            yield dict(f, plan=f['plan'][:i] + f['plan'][i + 1:])
        if e.get('count', 1) != 1:
            yield dict(f, plan=f['plan'][:i] + [dict(e, count=1)] + f['plan'][i + 1:])
        for n in (0, e['nth'] // 2, e['nth'] - 1):
            if 0 <= n < e['nth']:
                yield dict(f, plan=f['plan'][:i] + [dict(e, nth=n)] + f['plan'][i + 1:])
    if f.get('budget'):
        for b in (0, f['budget'] // 2):
            yield dict(f, budget=b)


def shrink_list(xs, least=0):
    n = len(xs)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            ys = xs[:i] + xs[i + k:]
            if len(ys) >= least and len(ys) < n:
                yield ys
        k //= 2
