"""Deterministic threads: one runs at a time, and a drawn schedule decides at which line or bytecode of the library the next one takes over.

install() must come before the library is imported: locks which the library makes then know the scheduler.
"""
import ast
import os
import sys
import threading
import _thread

_real_lock, _real_rlock = threading.Lock, threading.RLock
_where = {}       # thread ident -> (scheduler, index)
PREFIX = None


class Deadlock(BaseException):
    pass


class CoopLock(object):
    """a lock that hands the processor on instead of blocking"""

    def __init__(self, make=_real_lock):
        self._l = make()

    def acquire(self, blocking=True, timeout=-1):
        at = _where.get(_thread.get_ident())
        if at is None or not blocking:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not at[0].wait_for(at[1], self):
                return False
        return True

    def release(self):
        self._l.release()
        for at in list(_where.values()):
            at[0].released(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


def make_lock():
    return CoopLock()


def make_rlock(*a, **kw):
    return CoopLock(_real_rlock)


def library_prefix():
    import malstroem
    return os.path.dirname(os.path.abspath(malstroem.__file__)) + os.sep


class locks(object):
    """while this is active, new locks are cooperative"""

    def __enter__(self):
        threading.Lock, threading.RLock = make_lock, make_rlock

    def __exit__(self, *a):
        threading.Lock, threading.RLock = _real_lock, _real_rlock


class Scheduler(object):
    """runs functions in threads; schedule is a list of [events until the next switch, which thread next]"""

    def __init__(self, schedule, opcodes=False, at_event=None):
        self.schedule = list(schedule)
        self.at = 0
        self.opcodes = opcodes
        self.at_event = at_event
        self.events = 0
        self.left = self.schedule[0][0] if self.schedule else None
        self.prefix = library_prefix()
        self.ran = []
        self.switches = 0
        self.deadlock = False

    def run(self, fns):
        n = len(fns)
        self.n = n
        self.gate = [_thread.allocate_lock() for _ in range(n)]
        self.main = _thread.allocate_lock()
        self.main.acquire()
        for g in self.gate:
            g.acquire()
        self.alive = list(range(n))
        self.waiting = {}
        self.out = [None] * n
        for i, f in enumerate(fns):
            threading.Thread(target=self.body, args=(i, f), daemon=True).start()
        self.hand(self.alive[(self.schedule[0][1] if self.schedule else 0) % n])
        self.main.acquire()
        return self.out

    def body(self, i, f):
        self.gate[i].acquire()
        _where[_thread.get_ident()] = (self, i)
        sys.settrace(self.tracer)
        try:
            self.out[i] = ('ok', f())
        except BaseException as e:
            self.out[i] = ('error', type(e).__name__, str(e)[:300])
        finally:
            sys.settrace(None)
            _where.pop(_thread.get_ident(), None)
            self.alive.remove(i)
            self.leave()

    def leave(self):
        run = [j for j in self.alive if j not in self.waiting]
        if run:
            self.hand(run[self.pick() % len(run)])
        elif self.alive:
            self.deadlock = True
            j = self.alive[0]
            self.waiting.pop(j, None)
            self.hand(j)
        else:
            self.main.release()

    def pick(self):
        return self.schedule[self.at][1] if self.at < len(self.schedule) else 0

    def hand(self, j):
        self.cur = j
        self.ran.append(j)
        self.gate[j].release()

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point()
        return self.local

    def point(self):
        self.events += 1
        if self.at_event:
            self.at_event(self.events)
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.at += 1
        self.left = self.schedule[self.at][0] if self.at < len(self.schedule) else None
        me = self.cur
        run = [j for j in self.alive if j not in self.waiting]
        j = run[self.pick() % len(run)]
        if j != me:
            self.switches += 1
            self.hand(j)
            self.gate[me].acquire()

    def wait_for(self, i, lock):
        """thread i cannot get the lock; True: try again"""
        if self.deadlock:
            raise Deadlock('the threads wait for each other')
        self.waiting[i] = lock
        run = [j for j in self.alive if j not in self.waiting]
        if not run:
            self.deadlock = True
            self.waiting.pop(i)
            raise Deadlock('the threads wait for each other')
        self.switches += 1
        self.hand(run[self.pick() % len(run)])
        self.gate[i].acquire()
        self.waiting.pop(i, None)
        return True

    def released(self, lock):
        for j in [j for j, l in self.waiting.items() if l is lock]:
            del self.waiting[j]


class Events(object):
    """does something at one of the library's lines in this thread, or some bytecodes after it"""

    def __init__(self, at, do, opcodes=0):
        self.at, self.do, self.opcodes = at, do, opcodes
        self.n = 0
        self.left = None
        self.done = False
        self.prefix = library_prefix()

    def __enter__(self):
        sys.settrace(self.tracer)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.at:
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    self.left = self.opcodes
                    return self.local
                self.now()
        if self.left is not None and event in ('line', 'opcode'):
            self.left -= 1
            if self.left <= 0:
                self.now()
        return self.local

    def now(self):
        self.left = None
        self.done = True
        self.do()


class Places(object):
    """records which lines of the library run, and when: for every line [first, last, how often, whether a statement handles exceptions there]"""

    def __init__(self):
        self.prefix = library_prefix()
        self.n = 0
        self.seen = {}

    def __enter__(self):
        sys.settrace(self.tracer)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def tracer(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(self.prefix) else None

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            x = self.seen.get((frame.f_code.co_filename, frame.f_lineno))
            if x is None:
                self.seen[frame.f_code.co_filename, frame.f_lineno] = [self.n, self.n, 1]
            else:
                x[1] = self.n
                x[2] += 1
        return self.local

    def places(self):
        guarded = {}
        out = []
        for (f, line), x in sorted(self.seen.items(), key=lambda i: i[1][0]):
            if f not in guarded:
                guarded[f] = handled(f)
            out.append(x + [line in guarded[f]])
        return out


def handled(path):
    """lines within statements which can do something about an exception"""
    out = set()
    try:
        with open(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return out
    for x in ast.walk(tree):
        if isinstance(x, (ast.Try, ast.With)):
            out.update(range(x.lineno, x.end_lineno + 1))
    return out


def place(places, at):
    """a line event for at in [0, 1): every line is as likely, however often it runs, lines within try and with statements more than others; (event, bytecodes after it)"""
    draw = [x for x in places for _ in range(4 if x[3] else 1)]
    if not draw:
        return 1, 1
    at *= len(draw)
    first, last, n, _ = draw[int(at)]
    at = at % 1 * 4
    which, at = int(at), at % 1
    return (first if which < 2 else last if which < 3 else first + int(at * (last - first + 1))), 1 + int(at * 20)


def random_schedule(rng, n, most=60):
    scale = rng.choice([1, 3, 10, 40, 200, 1500])
    k = rng.choice([1, 2, 3, 8, 20, most])
    return [[1 + int(rng.expovariate(1.0 / scale)) if rng.random() < 0.9 else rng.randint(1, 8 * scale), rng.randrange(n)] for _ in range(k + 1)]
