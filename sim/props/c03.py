"""C03: after crashes and failures, rerunning the interrupted step completes the analysis."""
import os
import shutil

import core
import snap
import world
from props import c01, c02

ID = 'C03'
UNITS = {'quick': 60, 'thorough': 2400}
PER_UNIT = {'quick': 12, 'thorough': 30}
MODES = ['badsector', 'crash', 'crash', 'crash', 'crash', 'fail', 'sticky', 'budget', 'interrupt', 'mem', 'fail+crash', 'fail+sticky', 'line', 'line+crash']
NOTE = ('Seeded search over sequences of crashes, failures, clean-ups and reruns; recovered results are compared with the undisturbed chain. '
        'Samples the fault space; process death only, no loss of the page cache.')
RULE = ('A unit draws a scenario and its fault-free chain. A case starts in front of one step, lets it crash or fail one to three times (removing its partial '
        'output, or not, in between), then removes the partial output and runs the step without faults, followed by up to three steps that depend on it. '
        'All of these must succeed with the fault-free results. Distinct by the file-operation logs of the disturbed runs.')
MEASURE = c01.MEASURE
REAL = c01.REAL
STUB = c01.STUB + ['the user who removes a partial layer (ogr DeleteLayer) or file']
ASSUMPTIONS = c02.ASSUMPTIONS[:1] + ['the user removes a partial layer with a tool that opens the GeoPackage for writing, a partial file with unlink']


def cases(rng, tier, ctx, u):
    scene = world.random_scene(rng, 5, 11)
    try:
        pf = ctx.prefix(scene, 'chain')
    except core.Skip:
        yield dict(scene=scene, stage=0, attempts=[dict(fault=dict(mode='none'), cleanup='none')], follow=0)
        return
    order = [i for i, s in enumerate(pf.stages) for _ in range(2 if s.layers else 1)]
    rng.shuffle(order)
    for j in range(PER_UNIT[tier]):
        i = order[j % len(order)]
        att = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            f = core.gen_fault(rng, pf.kinds[i], pf.written[i], MODES, pf.log[i])
            att.append(dict(fault=f, cleanup=rng.choice(['none', 'none', 'remove', 'look'])))
        yield dict(scene=scene, stage=i, attempts=att, follow=rng.choice([0, 1, 3]))


def holds(ctx, path, names):
    """does the GeoPackage hold one of these layers? Looks at a copy, so that what a dead process left stays as it is"""
    aside = os.path.join(ctx.base, 'aside')
    shutil.rmtree(aside, ignore_errors=True)
    os.mkdir(aside)
    for e in ('', '-journal'):
        if os.path.exists(path + e):
            shutil.copy2(path + e, os.path.join(aside, 'x.gpkg' + e))
    try:
        return bool(set(names) & set(snap.layers(os.path.join(aside, 'x.gpkg'))))
    except snap.Unreadable:
        return True
    finally:
        shutil.rmtree(aside, ignore_errors=True)


def remove_partial(ctx, st, rep, others, label, look=False):
    """what a user does before running a step again"""
    for r in st.rasters:
        p = os.path.join(ctx.data, r)
        if os.path.exists(p):
            os.unlink(p)
    for ds in sorted({l.ds for l in st.layers}):
        p = os.path.join(ctx.data, ds)
        mine = [l for l in st.layers if l.ds == ds]
        if mine[0].fmt == 'gpkg':
            if not os.path.exists(p):
                continue
            if look and not holds(ctx, p, [l.layer for l in mine]):
                ctx.stats['probe rerun on a journal'] += os.path.exists(p + '-journal')
                continue

            def drop():
                from osgeo import ogr
                d = ogr.Open(p, update=1)
                for l in mine:
                    for i in range(d.GetLayerCount()):
                        if d.GetLayer(i).GetName() == l.layer:
                            d.DeleteLayer(i)
                            break
                d = None
            r = ctx.run(drop)
            if r.outcome() != 'ok':
                if others.get(ds):
                    rep.bad('unrecoverable | %s' % label, '%s, which holds layers of other steps, cannot be opened for update: %s' % (ds, r.stderr[-200:]))
                else:
                    for e in ('', '-journal', '-wal', '-shm'):
                        if os.path.exists(p + e):
                            os.unlink(p + e)
        elif mine[0].fmt == 'shp':
            for l in mine:
                for e in c02.SIDECARS:
                    q = os.path.join(p, l.layer + e)
                    if os.path.exists(q):
                        os.unlink(q)
        elif os.path.exists(p):
            os.unlink(p)


def compare(rep, ctx, st, want, what, label):
    try:
        got = snap.outputs(st, ctx.data)
    except snap.Unreadable as e:
        rep.bad('%s | %s' % (what, label), '%s: %s' % (st.name, e))
        return False
    for k in want:
        d = snap.diff(want[k], got[k])
        if d:
            rep.bad('%s | %s' % (what, label), '%s: %s: %s' % (st.name, k, d))
            return False
    return True


def run(case, ctx):
    pf = ctx.prefix(case['scene'], 'chain')
    i = case['stage']
    st = pf.stages[i]
    kws = [ctx.fault_kw(pf, i, a['fault']) for a in case['attempts']]
    ctx.restore('p%d' % i)
    rep = core.Report()
    others = {l.ds: bool(os.path.exists(os.path.join(ctx.data, l.ds))) for l in st.layers}
    done = False
    label = st.name.split('_')[0]
    for a, kw in zip(case['attempts'], kws):
        r = ctx.cli(st.args, rep, **kw)
        rep.trace += core.trace(ctx.ctl)
        label = '%s | %s' % (st.name.split('_')[0], core.where(ctx.ctl))
        if r.outcome() == 'ok':
            if not compare(rep, ctx, st, pf.want[i], 'wrong after crash', label):
                return rep
            done = True
            break
        if a['cleanup'] != 'none' or any(l.fmt != 'gpkg' for l in st.layers):
            remove_partial(ctx, st, rep, others, label, a['cleanup'] == 'look')
    if not done:
        last = case['attempts'][-1]['cleanup']
        if st.layers or last != 'none':
            remove_partial(ctx, st, rep, others, label, last == 'look')
        if rep.violations:
            return rep
        r = ctx.cli(st.args, rep)
        ctx.stats['probe recoveries'] += 1
        if r.outcome() != 'ok':
            rep.bad('cannot recover | %s' % label, '%s does not succeed after the faults have stopped: %s' % (st.name, r.stderr[-300:]))
            return rep
        if not compare(rep, ctx, st, pf.want[i], 'wrong recovery', label):
            return rep
    # go on with steps that need it
    have = {s.name for s in pf.stages[:i + 1]}
    n = case['follow']
    for j in range(i + 1, len(pf.stages)):
        s = pf.stages[j]
        if n <= 0:
            break
        if not set(s.deps) <= have:
            continue
        n -= 1
        r = ctx.cli(s.args, rep)
        if r.outcome() != 'ok':
            rep.bad('chain broken | %s' % label, '%s fails after %s was recovered: %s' % (s.name, st.name, r.stderr[-300:]))
            return rep
        have.add(s.name)
        if not compare(rep, ctx, s, pf.want[j], 'wrong chain', label):
            return rep
    return rep


def shrink(case):
    if case['follow']:
        yield dict(case, follow=0)
    for a in core.shrink_list(case['attempts'], 1):
        yield dict(case, attempts=a)
    for k, a in enumerate(case['attempts']):
        for f in core.shrink_fault(a['fault']):
            yield dict(case, attempts=case['attempts'][:k] + [dict(a, fault=f)] + case['attempts'][k + 1:])
    for s in core.shrink_scene(case['scene']):
        yield dict(case, scene=s)
