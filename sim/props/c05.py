"""C05: complete never mixes with what is already in the output directory."""
import os
import shutil

import core
import kernel
import snap
import world
from props import c01

ID = 'C05'
UNITS = {'quick': 160, 'thorough': 6000}
PER_UNIT = {'quick': 4, 'thorough': 8}
MODES = ['crash', 'crash', 'crash', 'fail', 'sticky', 'budget', 'interrupt', 'nomem', 'none', 'none', 'none']
NOTE = ('Seeded search over histories of complete runs, crashes, failures and foreign entries in one output directory, checked against a model that '
        'only knows whether the directory is empty. Samples the histories.')
RULE = ('A case is a history of two to seven events in one output directory: a run of complete with drawn parameters and a drawn fault, a foreign entry '
        '(file, hidden file, empty file, directory, hidden directory, dangling link, fifo, GeoPackage, read-only file) that appears, a clean-up that '
        'misses one entry, or a complete clean-up. Distinct by operation logs.')
MEASURE = c01.MEASURE
REAL, STUB = c01.REAL, c01.STUB + ['other users of the directory']
ASSUMPTIONS = ['nothing else writes into the directory while complete is running']

ENTRIES = ['notes.txt', '.hidden', 'empty', 'filled.tif', 'malstroem.gpkg', 'sub', '.git', 'dangling', 'fifo', 'readonly', 'malstroem.gpkg-journal', 'zzz~']
HOW = ['out', 'out', 'out', 'out/', './out', 'link', '../data/out', 'cwd']


def cases(rng, tier, ctx, u):
    base = world.random_scene(rng, 4, 9)
    base['fmt'] = 'gpkg'
    try:
        pf = ctx.prefix(base, 'complete')
    except core.Skip:
        yield dict(scene=base, events=[])
        return
    for j in range(PER_UNIT[tier]):
        ev = []
        for _ in range(rng.randint(2, 7)):
            x = rng.random()
            if x < 0.6:
                f = core.gen_fault(rng, pf.kinds[0], pf.written[0], MODES)
                if f['mode'] == 'crash' and rng.random() < 0.4:
                    # leave very little behind
                    e = f['plan'][0]
                    e['nth'] = min(e['nth'], rng.randint(0, 5))
                mm = rng.choice([base['mm'], base['mm'], 7])
                ev.append(dict(do='run', fault=f, mm=mm, how=rng.choice(HOW)))
            elif x < 0.8:
                ev.append(dict(do='add', name=rng.choice(ENTRIES)))
            elif x < 0.92:
                ev.append(dict(do='clear'))
            else:
                ev.append(dict(do='clear_all_but', pick=rng.randrange(1000)))
        yield dict(scene=base, events=ev)


def add(out, name):
    p = os.path.join(out, name)
    if os.path.lexists(p):
        return
    if name in ('sub', '.git'):
        os.mkdir(p)
    elif name == 'dangling':
        os.symlink('/nonexistent/simulated', p)
    elif name == 'fifo':
        os.mkfifo(p)
    else:
        with open(p, 'w') as f:
            f.write('' if name == 'empty' else 'content of %s\n' % name)
        if name == 'readonly':
            os.chmod(p, 0o400)


def listing(out):
    """everything about the directory that must not change"""
    import hashlib
    import stat
    res = {}
    for d, ds, fs in os.walk(out):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            h = ''
            if stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    h = hashlib.sha256(f.read()).hexdigest()[:16]
            elif stat.S_ISLNK(st.st_mode):
                h = os.readlink(p)
            res[os.path.relpath(p, out)] = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), st.st_mtime_ns, st.st_ino, h)
    return res


def run(case, ctx):
    scene = case['scene']
    pf = ctx.prefix(scene, 'complete')
    want = {scene['mm']: pf.want[0]}
    for e in case['events']:
        if e['do'] == 'run' and e['mm'] not in want:
            want[e['mm']] = reference(ctx, dict(scene, mm=e['mm']))
    ctx.restore('p0')
    rep = core.Report()
    out = os.path.join(ctx.data, 'out')
    os.symlink('out', os.path.join(ctx.data, 'link'))
    for k, e in enumerate(case['events']):
        if e['do'] == 'add':
            add(out, e['name'])
        elif e['do'] == 'clear':
            shutil.rmtree(out)
            os.mkdir(out)
        elif e['do'] == 'clear_all_but':
            names = sorted(os.listdir(out))
            if names:
                keep = names[e['pick'] % len(names)]
                for n in names:
                    p = os.path.join(out, n)
                    if n == keep:
                        continue
                    if os.path.isdir(p) and not os.path.islink(p):
                        shutil.rmtree(p)
                    else:
                        os.unlink(p)
        else:
            before = listing(out)
            others = snap.tree(ctx.data, ('out',))
            others = {p: h for p, h in others.items() if not p.startswith('out/')}
            sc = dict(scene, mm=e['mm'])
            st = world.complete_stage(sc)
            args = world.absolute(st.args, ctx.data)
            cwd = None
            if e['how'] == 'cwd':
                args[args.index('-outdir') + 1] = '.'
                cwd = out
            else:
                args[args.index('-outdir') + 1] = os.path.join(ctx.data, e['how'])
            cli = kernel.run_cli(args)

            def body(cli=cli, cwd=cwd):
                if cwd:
                    os.chdir(cwd)
                cli()
            r = ctx.run(body, rep, **core.fault_kw(e['fault']))
            rep.trace += ['event %d: complete, %d entries before, outcome %s' % (k, len(before), r.outcome())] + core.trace(ctx.ctl)
            now = {p: h for p, h in snap.tree(ctx.data).items() if not p.startswith('out/') and p != 'out/'}
            if now != {p: h for p, h in others.items() if p != 'out/'}:
                rep.bad('changed outside', 'complete changed something outside its output directory')
            if before:
                ctx.stats['probe occupied directory'] += 1
                if r.outcome() == 'ok':
                    rep.bad('not refused', 'exit code 0 although the directory holds %s' % sorted(before)[:3])
                after = listing(out)
                if after != before:
                    d = sorted(p for p in set(after) | set(before) if after.get(p) != before.get(p))
                    rep.bad('touched', 'the directory held %s; complete touched %s' % (sorted(before)[:3], d[:3]))
                wr = [x for x in ctx.ctl.log() if x[0] in ('openw', 'write', 'trunc', 'rename', 'unlink', 'mkdir', 'rmdir') and x[1].startswith('data/') and x[2] >= 0]
                if wr:
                    rep.bad('touched', 'the directory held %s; complete did %s %s' % (sorted(before)[:3], wr[0][0], wr[0][1]))
            elif r.outcome() == 'ok':
                ctx.stats['probe empty directory'] += 1
                declared = {os.path.basename(x) for x in st.rasters} | {'malstroem.gpkg'}
                extra = sorted(set(os.listdir(out)) - declared)
                if extra:
                    rep.bad('extra', 'complete left %s' % extra)
                try:
                    got = snap.outputs(st, ctx.data)
                    for n in got:
                        d = snap.diff(want[e['mm']][n], got[n])
                        if d:
                            rep.bad('wrong', '%s: %s' % (n, d))
                            break
                    names = set(snap.layers(os.path.join(out, 'malstroem.gpkg'))) - {l.layer for l in st.layers}
                    if names:
                        rep.bad('extra', 'undeclared layers %s' % sorted(names))
                except snap.Unreadable as x:
                    rep.bad('wrong', str(x))
            elif r.outcome() == 'error' and e['fault']['mode'] == 'none':
                rep.bad('refused empty', 'complete fails in an empty directory: %s' % r.stderr[-300:])
        if rep.violations:
            return rep
    return rep


def reference(ctx, scene):
    """the fault-free result with other parameters"""
    key = core.jhash(scene)
    cache = ctx.__dict__.setdefault('_c05', {})
    if key not in cache:
        world.lay_out(ctx.root, scene)
        os.mkdir(os.path.join(ctx.data, 'out'))
        st = world.complete_stage(scene)
        r = ctx.cli(st.args)
        if r.outcome() != 'ok':
            raise core.Skip('reference fails')
        cache.clear()
        cache[key] = snap.outputs(st, ctx.data)
    return cache[key]


def shrink(case):
    for ev in core.shrink_list(case['events'], 1):
        yield dict(case, events=ev)
    for k, e in enumerate(case['events']):
        if e['do'] == 'run':
            for f in core.shrink_fault(e['fault']):
                yield dict(case, events=case['events'][:k] + [dict(e, fault=f)] + case['events'][k + 1:])
            if e['how'] != 'out':
                yield dict(case, events=case['events'][:k] + [dict(e, how='out')] + case['events'][k + 1:])
    for s in core.shrink_scene(case['scene']):
        yield dict(case, scene=s)
