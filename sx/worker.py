"""One process: explores one harness symbolically, or replays models concretely on the plain modules."""
import faulthandler
import importlib
import json
import os
import sys
import threading
import time
import traceback

REPO = os.environ.get('SX_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_perf = time.perf_counter
PATH_LIMIT = 45.0


def prepare(symbolic, django):
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(3000)
    import warnings
    warnings.simplefilter('ignore')
    from . import world
    world.install()
    if django:
        from . import fs
        fs.install()
    if symbolic:
        from . import instrument
        instrument.install(REPO)
    sys.path.insert(0, REPO)
    if django:
        from . import djsetup
        djsetup.setup()


def load(check):
    return importlib.import_module('harness.' + check.lower())


def explore(job, out):
    from . import engine, smt, instrument
    from .ctx import SymCtx
    mod = load(job['check'])
    instrument.FUNCTIONS.clear()
    tee = open(job['tee'], 'w') if job.get('tee') else None
    solver = smt.Solver(tuple(job.get('solver') or ('z3', '-in')), tee=tee)
    eng = engine.Engine(getattr(mod, job['fn']), job['params'], solver=solver,
                        deadline=_perf() + job.get('limit', 600), max_paths=job.get('max_paths'))
    eng.stop_at_first = False
    eng.known_ids = set(job.get('known', ()))
    eng.max_violations = job.get('max_violations', 3)
    res = dict(job=job, error=None)

    def finish(hang=None):
        res.update(stats=eng.stats, covers=eng.covers, labels=eng.labels, violations=eng.violations,
                   witnesses=eng.witnesses, known_found=eng.known_found, complete=eng.complete, forced_sizes=eng.forced_sizes, functions=instrument.FUNCTIONS,
                   solver=dict(queries=solver.queries, sat=solver.sat, unsat=solver.unsat, time=solver.time),
                   concretise_sites=eng.concretise_sites, max_depth=eng.max_depth, wall=_perf() - t0)
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f, default=str)
        os.rename(out + '.tmp', out)

    def watchdog():
        while not over:
            threading.Event().wait(1.0)
            if eng.path_t0 is not None and _perf() - eng.path_t0 > PATH_LIMIT:
                faulthandler.dump_traceback()
                eng.violations.append(dict(label='terminates', detail='a path did not end within %d s' % PATH_LIMIT,
                                           model=eng._model_of_inputs()))
                finish()
                os._exit(0)

    t0 = _perf()
    over = []
    th = threading.Thread(target=watchdog)
    th.daemon = True
    th.start()
    try:
        eng.run(SymCtx)
    except BaseException as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-12))
    eng.path_t0 = None
    over.append(True)
    solver.close()
    if tee:
        tee.close()
    finish()


def replay_one(mod, item):
    from . import engine
    from .ctx import ConcCtx
    ctx = ConcCtx(item['params'], item['model'])
    out = dict(outcome='ok', label=None, detail=None, known=None)
    try:
        try:
            getattr(mod, item['fn'])(ctx)
        finally:
            ctx.teardown()
    except engine.PathDone:
        pass
    except engine.ViolationFound as e:
        out.update(outcome='violation', label=e.label, detail=str(e.detail), known=e.known)
    except engine.PathAbort as e:
        out.update(outcome='diverged', label=type(e).__name__)
    except Exception as e:
        tb = traceback.format_exc(limit=-8)
        out.update(outcome='violation', label='no unexpected exception',
                   detail='%s: %s\n%s' % (type(e).__name__, e, tb))
    out['log'] = [[l, engine.render(v, {})] for l, v in ctx.log]
    return out


def concrete(job, out):
    mod = load(job['check'])
    results = []
    for item in job['items']:
        results.append(replay_one(mod, item))
    with open(out + '.tmp', 'w') as f:
        json.dump(results, f, default=str)
    os.rename(out + '.tmp', out)


def main():
    mode, django = sys.argv[1], sys.argv[2] == '1'
    sys.path.insert(0, HERE)
    prepare(mode == 'explore', django)
    for line in iter(sys.stdin.readline, ''):
        jobfile, out = line.rstrip('\n').split('\t')
        with open(jobfile) as f:
            job = json.load(f)
        (explore if mode == 'explore' else concrete)(job, out)
        sys.stdout.flush()
        sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
