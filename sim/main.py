import importlib
import json
import os
import sys
import time
import traceback

from . import boot, engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_wall = time.monotonic


def load_prop(pid):
    mod = importlib.import_module('sim.props.' + pid.lower())
    p = mod.PROP
    p.known = [k for k in engine.load_known()
               if k.get('property') == pid and k.get('class')]
    return p


def _arg(argv, name, default=None):
    if name in argv:
        i = argv.index(name)
        v = argv[i + 1]
        del argv[i:i + 2]
        return v
    return default


def main(argv):
    argv = list(argv)
    replay = _arg(argv, '--replay')
    runs = _arg(argv, '--runs')
    seed = int(_arg(argv, '--seed', os.environ.get('VERIF_SEED', '1')))
    workers = int(_arg(argv, '--workers',
                       str(min(8, os.cpu_count() or 1))))
    dump = _arg(argv, '--dump')
    out_dir = _arg(argv, '--out', VERIF)
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    t0 = _wall()
    try:
        boot.make_scratch()
        ext = boot.build_extension(boot.SCRATCH)
        digest = boot.tree_digest()
    except Exception:
        traceback.print_exc()
        return 2
    plan = None
    if replay:
        with open(replay) as f:
            plan = json.load(f)['plan']
    prop = load_prop(pid)
    try:
        if replay:
            return do_replay(prop, plan, ext)
        return search(prop, tier, seed, runs, workers, ext, t0, digest,
                      out_dir, dump)
    except Exception:
        traceback.print_exc()
        return 2


def do_replay(prop, plan, ext):
    pure = bool(plan.get('pure'))
    boot.boot(pure=pure, ext=None if pure else ext)
    prop.setup()
    r = engine.execute(prop, plan, keep_events=True)
    if 'error' in r:
        print(r['error'])
        return 2
    for e in r.get('events', ()):
        print('  |', e)
    for t in r.get('trail', ()):
        print('  switch', t)
    for v in r['violations']:
        print('%s: %s' % tuple(v))
    print('log=%s shape=%s' % (r['log'], r['shape']))
    return 1 if r['violations'] else 0


def batch_in_child(prop, seed, tier, runs, workers, cap, pure, ext):
    """The seams can be installed once per process, so each flavour of the
    batch (C or pure Python name lookup) gets a process of its own."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            boot.boot(pure=pure, ext=None if pure else ext)
            prop.setup()
            prop.pure = pure
            out = engine.run_batch(prop, seed, tier, runs, workers, cap)
            bad = sorted(i for i, x in out[0].items()
                         if x['violations'] and not prop.all_known(x))
            mini = None
            if bad and not out[1]:
                i = bad[0]
                plan = engine.make_plan(prop, seed, i, tier)
                plan['pure'] = pure
                v = [x for x in out[0][i]['violations']
                     if not prop.known_match(x)][0]
                best, n = engine.minimise(prop, plan, v[0])
                first = engine.execute(prop, best, keep_events=True)
                again = engine.execute(prop, best)
                same = (first.get('log') == again.get('log')
                        and first.get('violations') == again.get('violations'))
                vs = [x for x in first.get('violations', ())
                      if x[0] == v[0] and not prop.known_match(x)]
                mini = dict(run=i, cls=v[0], original=v, runs=n, plan=best,
                            detail=(vs or [v])[0][1], reproduces=bool(vs),
                            same=same, events=first.get('events'),
                            trail=first.get('trail'), log=first.get('log'))
            data = pickle.dumps((out[0], out[1], mini))
        except BaseException:
            data = pickle.dumps(({}, [dict(i=-1,
                                           error=traceback.format_exc())],
                                 None))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    import pickle as p
    return p.loads(data)


def search(prop, tier, seed, runs, workers, ext, t0, digest, out_dir, dump):
    total = int(runs) if runs else (
        prop.quick_runs if tier == 'quick' else prop.thorough_runs)
    cap = prop.quick_cap if tier == 'quick' else prop.thorough_cap
    flavours = [(False, total)]
    if prop.pure_share:
        n = max(1, int(total * prop.pure_share))
        flavours = [(False, total - n), (True, n)]
    results, errors, mini = [], [], None
    planned = 0
    for pure, n in flavours:
        planned += n
        res, err, m = batch_in_child(
            prop, seed if not pure else seed + 1000003, tier, n, workers,
            cap * n / float(total), pure, ext)
        for i in sorted(res):
            res[i]['pure'] = pure
            results.append(res[i])
        errors += err
        if m or err:
            mini = m
            break
    wall = _wall() - t0
    if dump:
        with open(dump, 'w') as f:
            for r in results:
                f.write('%s %d %s %s %d\n' % (r['pure'], r['i'], r['log'],
                                              r['shape'],
                                              len(r['violations'])))
    code = 0
    if errors:
        print('HARNESS ERROR in run %s:\n%s' % (errors[0].get('i'),
                                                errors[0]['error']))
        code = 2
    known_hit = {}
    for r in results:
        for v in r['violations']:
            k = prop.known_match(v)
            if k:
                known_hit[k['what']] = known_hit.get(k['what'], 0) + 1
    # a listed finding is announced whether or not this batch met it
    for k in prop.known:
        print('KNOWN-FINDING: property=%s %s' % (prop.id, k['what']))
    nviol = 0
    if mini is not None:
        path = write_replay(prop, tier, seed, mini, out_dir)
        nviol = 1
        print('%s: %s' % (mini['cls'], mini['detail']))
        if not mini['same']:
            print('note: two executions of the minimised plan differ')
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        code = 1
    write_evidence(prop, tier, seed, results, wall, nviol, planned, workers,
                   digest, known_hit, out_dir)
    print('%s %s: %d of %d runs, %d distinct non-trivial, %.1f s, exit %d'
          % (prop.id, tier, len(results), planned,
             len(set(r['shape'] for r in results if r['nontrivial'])),
             wall, code))
    return code


def write_replay(prop, tier, seed, mini, out_dir):
    d = os.path.join(out_dir, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%d-run%d.json' % (prop.id, seed,
                                                     mini['run']))
    with open(path, 'w') as f:
        json.dump(dict(property=prop.id, tier=tier, seed=seed,
                       run=mini['run'], violation=mini['cls'],
                       detail=mini['detail'], original=mini['original'],
                       reproduces=mini['reproduces'],
                       minimiser_runs=mini['runs'],
                       replay_cmd='python3 check.py %s --replay %s'
                       % (prop.id, path),
                       plan=mini['plan'], events=mini['events'],
                       schedule=mini['trail'], log=mini['log']), f, indent=1)
    return path


def write_evidence(prop, tier, seed, results, wall, nviol, planned, workers,
                   digest, known_hit, out_dir):
    faults, probes = {}, {}
    simt = 0.0
    checks = 0
    for r in results:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        simt += r['sim_time']
        checks += r['checks']
    distinct = len(set(r['shape'] for r in results if r['nontrivial']))
    samples = []
    for r in results[:2] + results[len(results) // 2:len(results) // 2 + 1]:
        plan = engine.make_plan(prop, seed if not r['pure']
                                else seed + 1000003, r['i'], tier)
        samples.append(dict(run=r['i'], plan=prop.describe(plan),
                            faults_fired=r['faults'],
                            events=r['nevents'], log=r['log']))
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level,
              coverage=dict(
                  evaluations=len(results), distinct_nontrivial=distinct,
                  rule=prop.rule, samples=samples,
                  runs_planned=planned,
                  runs_per_hour=int(len(results) / max(wall, 0.01) * 3600),
                  simulated_seconds=round(simt, 3),
                  oracle_checks=checks,
                  faults_injected=faults, rare_conditions=probes,
                  interleaving_measure=prop.measure,
                  distinct_event_logs=len(set(r['log'] for r in results)),
                  pure_python_lookup_runs=sum(r['pure'] for r in results),
                  known_findings_met=known_hit,
                  components_real=prop.real, components_stubbed=prop.stubbed,
                  workers=workers, tree=digest),
              assumptions=prop.assumptions, wall_s=round(wall, 2),
              violations=nviol)
    d = os.path.join(out_dir, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
