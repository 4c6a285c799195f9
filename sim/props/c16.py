"""C16: an interrupted command ends soon, says so, and starts nothing new."""
import mmap
import os
import signal
import struct

import core
import kernel
import snap
import threads
import world
from props import c01

ID = 'C16'
UNITS = {'quick': 60, 'thorough': 3000}
PER_UNIT = {'quick': 26, 'thorough': 60}
NOTE = ('Seeded search over the instants (file operations, library lines, bytecodes) at which a running command receives one or more interrupts, also while the device fails; '
        'counts what the command still does. Samples instants; the bound on further operations is a constant of the check.')
RULE = ('A unit draws a terrain and a scenario as C01 does; single commands (or `complete`) run from the saved worlds and receive SIGINT at a drawn operation, line or bytecode. '
        'Distinct by the log of file operations and the outcome.')
MEASURE = c01.MEASURE
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = ['the interrupt is SIGINT with the handler of the interpreter; one call into GDAL or numpy is not interrupted in the middle',
               'an interrupt which hits the creation or removal of a temporary directory itself may leave it behind (no remedy in Python)']
FURTHER = 400           # no single call into GDAL changes its files this often on these terrains
SAME_CALL = 40          # operations within one call which opens a file
RELEASED = 'discarded while objects are released'


def cases(rng, tier, ctx, u):
    scene = world.random_scene(rng, 5, 12)
    which = 'complete' if rng.random() < 0.3 else 'chain'
    try:
        pf = ctx.prefix(scene, which)
    except core.Skip:
        yield dict(scene=scene, which=which, stage=0, how='op', ops=[0], at=0)
        return
    n = PER_UNIT[tier]
    order = [i for i, s in enumerate(pf.stages) for _ in range(3 if s.layers else 1)] * n
    rng.shuffle(order)
    for i in order[:n]:
        c = dict(scene=scene, which=which, stage=i, how=rng.choice(['op', 'op', 'mut', 'mut', 'line', 'line', 'opcode']), at=rng.random(), again=0, disk=None)
        if rng.random() < 0.15:
            c['again'] = rng.choice([1, 2, 5, 20])
        if rng.random() < 0.12:
            c['disk'] = dict(kind=rng.choice(['write', 'openr', 'read', 'sync', 'unlink']), err=rng.choice(core.ERRS), count=rng.choice([1, -1]))
        yield c


def stem(p):
    for e in ('-journal', '-wal', '-shm', '.aux.xml'):
        if p.endswith(e):
            p = p[:-len(e)]
    return os.path.splitext(p)[0]


def run(case, ctx):
    pf = ctx.prefix(case['scene'], case['which'])
    i = case['stage']
    st = pf.stages[i]
    rep = core.Report()
    plan = []
    fn = kernel.run_cli(world.absolute(st.args, ctx.data))
    mark = mmap.mmap(-1, 16)
    struct.pack_into('qq', mark, 0, -1, -1)
    if case['how'] in ('op', 'mut'):
        mask = kernel.ALL if case['how'] == 'op' else kernel.MUTATING
        n = sum(v for k, v in pf.kinds[i].items() if k in kernel.K and mask >> kernel.K[k] & 1)
        plan.append(dict(kinds=mask, action='interrupt', nth=int(case['at'] * n), count=1))
        if case['again']:
            plan.append(dict(kinds=mask, action='interrupt', nth=int(case['at'] * n) + case['again'], count=1))
    else:
        at, opcodes = threads.place(ctx.places(pf, i), case['at'])
        inner = fn

        def fn():
            def do():
                struct.pack_into('q', mark, 0, ctx.ctl.i64('nops'))
                os.kill(os.getpid(), signal.SIGINT)
            with threads.Events(at, do, opcodes if case['how'] == 'opcode' else 0):
                inner()
    if case['disk']:
        d = case['disk']
        plan.append(dict(kinds=1 << kernel.K[d['kind']], action='fail', nth=int(case['at'] * max(pf.kinds[i][d['kind']], 1)), count=d['count'], err=d['err']))
    ctx.restore('p%d' % i)
    r = ctx.run(fn, rep, plan=plan)
    rep.trace = core.trace(ctx.ctl)
    log = ctx.ctl.log()
    at = struct.unpack_from('q', mark, 0)[0]
    if at < 0:
        at = next((n for n, x in enumerate(log) if x[5] == 'interrupt'), -1)
    if at < 0:
        ctx.stats['no interrupt'] += 1
        return rep
    name = st.name.split('_')[0]
    further = log[at + 1:]
    after = [x for x in further if x[1].startswith('data/') and 1 << kernel.K[x[0]] & kernel.MUTATING]
    ctx.stats['fault interrupt at %s' % (log[at][0] if case['how'] in ('op', 'mut') else case['how'])] += case['how'] in ('line', 'opcode')
    ctx.stats['further operations'] += len(further)
    if r.outcome() == 'stuck':
        rep.bad('%s never ends' % name, 'no progress after %d operations' % r.nops)
        return rep
    where = 'interrupted %s, %s of %s operations' % (('by ' + case['how'], at, pf.nops[i]) if case['how'] in ('line', 'opcode') else ('at %s %s' % log[at][:2], at, pf.nops[i]))
    discarded = 'xception ignored in' in r.stderr and 'KeyboardInterrupt' in r.stderr
    if discarded:
        ctx.stats['probe interrupt while objects are released'] += 1
        if r.outcome() == 'ok' and after:
            rep.bad(RELEASED, '%s: %s; the interpreter discards it and the command goes on for %d operations and ends with exit code 0' % (name, where, len(further)))
        return rep
    if r.outcome() == 'ok':
        rep.bad('%s: exit code' % name, '%s: exit code 0 after %d more operations' % (where, len(further)))
        return rep
    opened = set(stem(x[1]) for x in log[:at + 1] if x[0] == 'openw')
    for k, x in enumerate(further):
        if x[0] == 'openw' and x[1].startswith('data/') and stem(x[1]) not in opened:
            if k > SAME_CALL:
                rep.bad('%s: starts more' % name, '%s: %d operations later it opens %s for writing' % (where, k, x[1]))
            break
    if len(after) > FURTHER and not case['disk']:
        rep.bad('%s: goes on' % name, '%s: %d more operations which change files' % (where, len(after)))
    left = sorted(os.listdir(os.path.join(ctx.root, 'tmp')))
    if left and not core.beyond_remedy(log):
        rep.bad('%s: temporary files' % name, '%s: %s left' % (where, left))
    if os.environ.get('C16DBG'):
        open('/tmp/c16.txt', 'a').write('%s\n' % ((name, len(after), len(further), bool(case['disk'])),))
    return rep


def shrink(case):
    if case['disk']:
        yield dict(case, disk=None)
    if case['again']:
        yield dict(case, again=0)
    for s in core.shrink_scene(case['scene']):
        yield dict(case, scene=s)
