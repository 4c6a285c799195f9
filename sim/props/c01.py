"""C01: a command that reports success has written exactly the right outputs, whatever went wrong underneath."""
import core
import snap
import world

ID = 'C01'
UNITS = {'quick': 88, 'thorough': 2600}
PER_UNIT = {'quick': 30, 'thorough': 60}
MODES = ['badsector', 'badsector', 'fail', 'fail', 'fail', 'sticky', 'sticky', 'budget', 'budget', 'shortw', 'shortr', 'interrupt', 'mem', 'mem', 'fail+sticky', 'line']
NOTE = ('Seeded search over faults at every intercepted file operation of real commands; compares all outputs of successful runs with the fault-free run. '
        'Samples the fault space; trusts the shim and the read-back through GDAL.')
RULE = ('A unit draws a terrain and a scenario (raster/vector formats, filter, rain, accumulated flow or not), runs its chain of commands (or `complete`) '
        'without faults as reference, then runs single commands from the saved worlds with one drawn fault configuration each. A run is non-trivial and '
        'distinct by the fingerprint of its complete file-operation log (kinds, paths, offsets, lengths, results, faults) and outcome.')
MEASURE = 'sha256 over the numbered log of all intercepted file operations and the outcome of the process'
REAL = ['malstroem (all modules and the command line)', 'GDAL/OGR, SQLite and libtiff inside it', 'numpy, scipy, click', 'the Linux page cache as the disk contents']
STUB = ['results of the file system calls below the scratch root (seccomp trap + simk.c)', 'time, sleeping and random bytes', 'memory allocator failures (_testcapi.set_nomemory)']
ASSUMPTIONS = ['faults are those of one process: a failing, short or full device, an interrupt, or failing Python allocations',
               'the reference is the fault-free run of the same tree']


def cases(rng, tier, ctx, u):
    scene = world.random_scene(rng, 5, 12)
    which = 'complete' if rng.random() < 0.2 else 'chain'
    few = 1
    if u % 12 == 7:
        # more of everything than fits into a buffer
        scene.update(dem=world.many_dem(rng, 20, 48), filter=None)
        few = 2
    try:
        pf = ctx.prefix(scene, which)
    except core.Skip:
        yield dict(scene=scene, which=which, stage=0, fault=dict(mode='none'))
        return
    n = PER_UNIT[tier] if which == 'chain' else PER_UNIT[tier] // 3
    n = n // few
    order = list(range(len(pf.stages))) * (n // len(pf.stages) + 1)
    rng.shuffle(order)
    for i in order[:n]:
        yield dict(scene=scene, which=which, stage=i, fault=core.gen_fault(rng, pf.kinds[i], pf.written[i], MODES, pf.log[i]))


def klass(msg):
    for k in ('missing', 'cannot be opened', 'cannot be read', 'CRS', 'fields', 'features instead', 'cells differ', 'geometry'):
        if k in msg:
            return k
    return 'value'


def run(case, ctx):
    try:
        pf = ctx.prefix(case['scene'], case['which'])
    except core.Missing as e:
        rep = core.Report()
        rep.bad('silent | no fault | %s' % klass(str(e)), 'exit code 0, but %s' % e)
        return rep
    st = pf.stages[case['stage']]
    kw = ctx.fault_kw(pf, case['stage'], case['fault'])
    ctx.restore('p%d' % case['stage'])
    rep = core.Report()
    r = ctx.cli(st.args, rep, **kw)
    rep.trace = core.trace(ctx.ctl)
    out = r.outcome()
    if out == 'stuck':
        rep.bad('%s never ends | %s' % (st.name, core.where(ctx.ctl)), 'no progress after %d operations' % r.nops)
    if out != 'ok':
        return rep
    want = pf.want[case['stage']]
    ctx.stats['probe success although a fault fired'] += bool(r.fault_happened())
    try:
        got = snap.outputs(st, ctx.data)
    except snap.Unreadable as e:
        rep.bad(sig(case, st, ctx, str(e)), 'exit code 0, but %s' % e)
        return rep
    for k in want:
        d = snap.diff(want[k], got[k])
        if d:
            rep.bad(sig(case, st, ctx, d), 'exit code 0, but %s: %s' % (k, d))
            break
    return rep


def sig(case, st, ctx, msg):
    w = core.where(ctx.ctl)
    # one signature per kind of operation that fails, kind of file, and kind of damage
    if '.prj' in w:
        return 'silent | %s | %s' % (w, klass(msg))
    return 'silent | %s | %s | %s' % (st.name.split('_')[0], w, klass(msg))


def shrink(case):
    for f in core.shrink_fault(case['fault']):
        yield dict(case, fault=f)
    for s in core.shrink_scene(case['scene']):
        yield dict(case, scene=s)
