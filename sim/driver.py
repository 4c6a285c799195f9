"""Seeded search over simulated runs for one property.

    driver.py C01 [--tier quick|thorough] [--seed N] [--workers N] [--units N] [--digest]
    driver.py C01 --replay FILE
"""
import collections
import gc
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
import build  # noqa: E402

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')


def load_prop(pid):
    return importlib.import_module('props.' + pid.lower())


def prepare():
    import numpy, scipy.ndimage, click, click_log, osgeo.gdal, osgeo.ogr, osgeo.osr, tempfile, json  # noqa: F401,E401
    import threads
    with threads.locks():
        lib = build.install()
        import malstroem.scripts.cli  # noqa: F401
        import malstroem.dem, malstroem.bluespots, malstroem.streams, malstroem.rain, malstroem.network, malstroem.hyps, malstroem.approx  # noqa: F401,E401
    import kernel
    kernel.load(lib)
    from osgeo import gdal, ogr
    gdal.UseExceptions()
    gdal.SetConfigOption('OGR_CURRENT_DATE', '2020-01-01T00:00:00.000Z')
    gdal.SetConfigOption('GDAL_NUM_THREADS', '1')
    gdal.SetConfigOption('GDAL_PAM_ENABLED', gdal.GetConfigOption('GDAL_PAM_ENABLED'))
    # what malstroem imports when it is first needed
    import scipy.ndimage, _testcapi  # noqa: F401,E401
    gdal.AllRegister()
    gdal.SetErrorHandler('CPLQuietErrorHandler')
    # simulated processes are forks: let their garbage collector leave alone what they share
    gc.collect()
    gc.freeze()


class Clean(object):
    def __init__(self, pid, w):
        self.name = '%s-%d' % (pid, w)

    def __enter__(self):
        import core
        self.ctx = core.Ctx(self.name)
        return self.ctx

    def __exit__(self, *a):
        self.ctx.close()


def unit_rng(seed, pid, i):
    import random
    return random.Random('%s/%s/%d' % (seed, pid, i))


def apart(fn):
    """fn() in a fork of this process, which nothing has run in before: what happened in other units (caches, free lists,
    specialised bytecode, open databases) cannot have an influence"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError('a unit ended with status %d' % st)
    return pickle.loads(data)


def again(prop, case, ctx):
    """one case on its own"""
    import core

    def fn():
        try:
            return prop.run(case, ctx)
        except core.Skip as e:
            return e
    rep = apart(fn)
    if isinstance(rep, core.Skip):
        raise core.Skip(str(rep))
    return rep


def nothing():
    return dict(cases=0, runs=0, units=0, skips=0, keys=set(), stats=collections.Counter(), samples=[], errors=[], digests=[], capped=False,
                found=collections.OrderedDict())


def add(total, a):
    for k in ('cases', 'runs', 'units', 'skips', 'samples', 'errors', 'digests', 'stats'):
        total[k] += a[k]
    total['keys'] |= a['keys']
    total['capped'] |= a['capped']
    for s, v in a['found'].items():
        if s not in total['found'] or v[0] < total['found'][s][0]:
            total['found'][s] = v


def unit(prop, args, u, ctx, stop_at):
    import core
    agg = nothing()
    agg['units'] = 1
    for case in prop.cases(unit_rng(args.seed, prop.ID, u), args.tier, ctx, u):
        try:
            rep = prop.run(case, ctx)
        except core.Skip as e:
            agg['skips'] += 1
            agg['errors'].append('skip: %s' % e)
            break
        agg['cases'] += 1
        agg['runs'] += rep.runs
        agg['keys'].update(rep.keys)
        if args.digest:
            agg['digests'].append((u, core.jhash([sorted(v.sig for v in rep.violations), rep.keys])))
        if len(agg['samples']) < 1:
            agg['samples'].append(dict(unit=u, case=brief(case)))
        for v in rep.violations:
            if v.sig not in agg['found']:
                agg['found'][v.sig] = (u, case, v.msg)
        if time.time() > stop_at:
            break
    agg['stats'] = ctx.stats
    return agg


def worker(prop, args, w, out):
    """run units w, w+n, w+2n, ... and pickle what happened to `out`"""
    stop_at = args.t0 + args.cap
    total = nothing()
    with Clean(prop.ID, w) as ctx:
        for u in range(w, args.units, args.workers):
            if time.time() > stop_at or len(total['found']) >= 6:
                total['capped'] = True
                break
            add(total, apart(lambda: unit(prop, args, u, ctx, stop_at)))
            total['samples'], total['errors'] = total['samples'][:1], total['errors'][:3]
    with open(out, 'wb') as f:
        pickle.dump(total, f)


def brief(case, limit=1500):
    s = json.dumps(case, default=str)
    return case if len(s) <= limit else s[:limit] + '...'


def known_for(pid):
    try:
        with open(KNOWN) as f:
            k = json.load(f)
    except OSError:
        return []
    return [x for x in k.get('findings', []) if x['property'] == pid]


def minimise(prop, case, sig, ctx, seconds):
    """greedy shrinking that keeps the same violation"""
    import core
    end = time.time() + seconds
    n = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in prop.shrink(case):
            if time.time() > end:
                break
            n += 1
            try:
                rep = prop.run(cand, ctx)
            except core.Skip:
                continue
            except Exception:
                continue
            if any(v.sig == sig for v in rep.violations):
                case = cand
                progress = True
                break
    return case, n


def search(prop, args):
    import core
    args.t0 = time.time()
    outs, pids = [], []
    tmp = os.path.join(core.scratch_base(), 'vsim-out-%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    sys.stdout.flush()
    for w in range(args.workers):
        out = os.path.join(tmp, str(w))
        outs.append(out)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                worker(prop, args, w, out)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        pids.append(pid)
    # watchdog: a worker far beyond its cap hangs in something the simulator does not control
    status = {}
    hard = args.t0 + args.cap * 2 + 120
    while len(status) < len(pids):
        for p in pids:
            if p not in status:
                q, st = os.waitpid(p, os.WNOHANG)
                if q:
                    status[p] = st
        if time.time() > hard:
            for p in pids:
                if p not in status:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
        time.sleep(0.02)
    total = None
    harness_errors = [w for w, p in enumerate(pids) if status[p] != 0]
    for w, out in enumerate(outs):
        if not os.path.exists(out):
            continue
        with open(out, 'rb') as f:
            a = pickle.load(f)
        total = total or nothing()
        add(total, a)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return total, harness_errors


def confirm_and_report(prop, found, args):
    """re-run each violation on its own, minimise it, write its replay file"""
    import core
    known = {k['sig'] for k in known_for(prop.ID)}
    n = 0
    budget = 45.0 if args.tier == 'quick' else 180.0
    items = [(s, v) for s, v in sorted(found.items(), key=lambda x: x[1][0]) if s not in known]
    for sig, (u, case, msg) in items[:4]:
        with Clean(prop.ID, u % args.workers) as ctx:
            try:
                rep = again(prop, case, ctx)
            except core.Skip as e:
                print('NOTE: violation %r of unit %d was not reproduced: %s' % (sig, u, e))
                continue
            if not any(v.sig == sig for v in rep.violations):
                print('NOTE: violation %r of unit %d was not reproduced' % (sig, u))
                continue
            small, tried = apart(lambda: minimise(prop, case, sig, ctx, budget / min(len(items), 4)))
            try:
                rep = again(prop, small, ctx)
            except core.Skip:
                rep = None
            if rep is None or not any(v.sig == sig for v in rep.violations):
                # it needs what the process did before
                small = case
                rep = again(prop, small, ctx)
            vs = [v for v in rep.violations if v.sig == sig]
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (prop.ID, core.jhash([sig, small])))
            with open(path, 'w') as f:
                json.dump(dict(property=prop.ID, seed=args.seed, unit=u, worker=u % args.workers, violation=sig, message=vs[0].msg if vs else msg, case=small,
                               trace=rep.trace[:80], minimised_with=tried, tree=build.tree_digest(),
                               replay='bash /verif/check.sh %s --replay %s' % (prop.ID, path)), f, indent=1, default=str)
            print('  %s: %s' % (sig, vs[0].msg if vs else msg))
            print('VIOLATION property=%s replay=%s' % (prop.ID, path))
            sys.stdout.flush()
            n += 1
    return n


def run_known(prop):
    import core
    for k in known_for(prop.ID):
        with Clean(prop.ID, 0) as ctx:
            try:
                rep = again(prop, k['case'], ctx)
            except core.Skip:
                continue
        if any(v.sig == k['sig'] for v in rep.violations):
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, k['what']))


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    with Clean(prop.ID, r.get('worker', 0)) as ctx:
        rep = again(prop, r['case'], ctx)
        print('\n'.join(rep.trace[:80]))
        for v in rep.violations:
            print('  %s: %s' % (v.sig, v.msg))
        same = [v for v in rep.violations if v.sig == r['violation']]
    if same:
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    print('the violation does not occur')
    return 0


def evidence(prop, args, total, nviol, wall):
    st = total['stats']
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault ')}
    outcomes = {k[8:]: v for k, v in sorted(st.items()) if k.startswith('outcome ')}
    probes = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('probe ')}
    search_wall = max(total['wall'], 0.001)
    ev = dict(property=prop.ID, tier=args.tier, seed=args.seed, level='exploration', wall_s=round(wall, 2), violations=nviol,
              assumptions=prop.ASSUMPTIONS,
              coverage=dict(
                  evaluations=total['cases'], distinct_nontrivial=len(total['keys']), rule=prop.RULE, samples=total['samples'][:3],
                  simulated_runs=total['runs'], units=total['units'], seeds_per_hour=int(total['units'] * 3600 / search_wall),
                  simulated_runs_per_hour=int(total['runs'] * 3600 / search_wall),
                  simulated_processes=st['processes'], intercepted_operations=st['ops'],
                  simulated_time_s=round(st['vtime'] / 1e9, 3), scheduling_decisions=st['decisions'],
                  faults_fired=faults, outcomes=outcomes, reach_probes=probes,
                  distinct_measure='distinct_nontrivial counts different complete execution fingerprints: ' + prop.MEASURE,
                  real_components=prop.REAL, stubbed_components=prop.STUB,
                  skipped_units=total['skips'], skip_reasons=total['errors'][:3], stopped_by_wall_cap=total['capped'], workers=args.workers))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--units', type=int, default=None)
    ap.add_argument('--cap', type=float, default=None)
    ap.add_argument('--digest', action='store_true')
    ap.add_argument('--replay')
    args = ap.parse_args()
    t0 = time.time()
    prepare()
    prop = load_prop(args.prop)
    if args.replay:
        sys.exit(replay(prop, args.replay))
    if args.units is None:
        args.units = prop.UNITS[args.tier]
    if args.cap is None:
        args.cap = 90.0 if args.tier == 'quick' else 780.0
    print('%s tier=%s seed=%d units=%d workers=%d tree=%s' % (prop.ID, args.tier, args.seed, args.units, args.workers, build.tree_digest()))
    sys.stdout.flush()
    total, herr = search(prop, args)
    if total is None:
        print('no worker gave a result')
        sys.exit(3)
    total['wall'] = time.time() - args.t0
    run_known(prop)
    nviol = confirm_and_report(prop, total['found'], args)
    wall = time.time() - t0
    evidence(prop, args, total, nviol, wall)
    if args.digest:
        import core
        print('DIGEST', core.jhash(sorted(total['digests'])))
        if os.environ.get('SIM_DIGESTS'):
            json.dump(sorted(total['digests']), open(os.environ['SIM_DIGESTS'], 'w'))
    print('%s: %d units, %d cases, %d simulated runs, %d distinct, %d violations, %.1f s' % (
        prop.ID, total['units'], total['cases'], total['runs'], len(total['keys']), nviol, wall))
    if nviol:
        sys.exit(1)
    if herr:
        print('workers %s ended with an error of the check itself' % herr)
        sys.exit(3)
    sys.exit(0)


if __name__ == '__main__':
    main()
