"""check <ID>: runs the jobs of one property's check in parallel, replays what they report, writes the evidence.

exit 0: held on everything explored; exit 1: VIOLATION line (counterexample reproduced on the plain modules);
exit 2: no verdict (engine error, time limit, unreproduced counterexample, vacuous harness, trace mismatch).
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
WORKERS = int(os.environ.get('SX_WORKERS', '8'))
TOTAL_LIMIT = {'quick': 780, 'thorough': 14400}


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=HERE)
    return e


class Slot(object):
    """One worker process, kept for further jobs of the same kind (its JIT stays warm)."""

    def __init__(self):
        self.p = None
        self.kind = None
        self.job = None

    def give(self, kind, job, jf, of, lf):
        if self.p is None or self.kind != kind or self.p.poll() is not None:
            self.kill()
            self.log = open(lf, 'w')
            self.p = subprocess.Popen([PY, '-m', 'sx.worker', kind[0], '1' if kind[1] else '0'], cwd=HERE, env=env(),
                                      stdin=subprocess.PIPE, stdout=self.log, stderr=self.log, start_new_session=True)
            self.kind, self.lf = kind, lf
        self.job, self.of, self.t0 = job, of, time.time()
        self.p.stdin.write(('%s\t%s\n' % (jf, of)).encode())
        self.p.stdin.flush()

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                self.p.wait(10)
            except Exception:
                pass
            self.p.stdin.close()
            self.log.close()
            self.p = None

    def tail(self):
        with open(self.lf) as f:
            return f.read()[-3000:]


class Pool(object):
    def __init__(self, tmp):
        self.tmp = tmp
        self.n = 0
        self.slots = [Slot() for _ in range(WORKERS)]

    def close(self):
        for s in self.slots:
            s.kill()

    def run(self, mode, jobs, deadline, fresh=False):
        """-> list of results (dict, or {'error': ...}) in job order."""
        results = [None] * len(jobs)
        todo = list(enumerate(jobs))
        # slots of the right kind first
        while todo or any(s.job for s in self.slots):
            for s in self.slots:
                if s.job is None and todo:
                    i, job = todo.pop(0)
                    self.n += 1
                    jf, of, lf = (os.path.join(self.tmp, '%s%d' % (x, self.n)) for x in ('job', 'out', 'log'))
                    with open(jf, 'w') as f:
                        json.dump(job, f)
                    if fresh:
                        s.kill()
                    s.give((mode, job.get('django', False)), (i, job), jf, of, lf)
            time.sleep(0.01)
            for s in self.slots:
                if s.job is None:
                    continue
                i, job = s.job
                if os.path.exists(s.of):
                    with open(s.of) as f:
                        results[i] = json.load(f)
                    s.job = None
                elif s.p.poll() is not None:
                    if not os.path.exists(s.of):
                        results[i] = dict(error='worker ended with status %s\n%s' % (s.p.returncode, s.tail()))
                        s.kill()
                        s.job = None
                elif time.time() > deadline or time.time() - s.t0 > job.get('wall', 10 ** 6):
                    s.kill()
                    results[i] = dict(error='killed at the time limit', timeout=True)
                    s.job = None
        return results


def known_findings(pid):
    """Listed, unrepaired findings of one property: id -> what fails. Lines "known: property=<id> id=<name> <what>"."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('id='):
                    out[w[2][3:]] = w[3].strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--job', help='only the jobs whose function or label contains this')
    ap.add_argument('--replay', help='replay a saved counterexample')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--sketch', action='store_true', help='one path per job: only whether the shards fit their harness')
    a = ap.parse_args()
    if a.tier not in TOTAL_LIMIT:
        a.tier = 'quick'
    sys.path.insert(0, HERE)
    t0 = time.time()
    spec = vars(importlib.import_module('harness.' + a.check.lower()))
    tmp = tempfile.mkdtemp(prefix='sx-')
    try:
        pool = Pool(tmp)
        rc = run(a, spec, pool, t0)
    finally:
        pool.close()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def shards_and_covers(a, jobs, results):
    """The shards of a harness cover all of its first choices, and together reach all of its cover points."""
    groups, out = {}, []
    for j, r in zip(jobs, results):
        k = j['fn'] + json.dumps({k: v for k, v in j['params'].items() if k != 'force'}, sort_keys=True)
        groups.setdefault(k, []).append((j, r))
    for k, g in sorted(groups.items()):
        seen = set(c for j, r in g for c, n in r['covers'].items() if n)
        for c in sorted(set(c for j, r in g for c in j['covers']) - seen):
            out.append('vacuous: cover point %r of %s was not reached' % (c, k))
        if a.job:
            continue
        forces = [tuple(j['params'].get('force', ())) for j, r in g]
        missing = set()
        for f, (j, r) in zip(forces, g):
            for at, n in r['forced_sizes'].items():
                there = set(x[int(at)] for x in forces if len(x) > int(at) and x[:int(at)] == f[:int(at)])
                missing |= set(f[:int(at)] + (v,) for v in set(range(n)) - there)
        if missing:
            out.append('shards of %s do not cover %s' % (k, sorted(missing)))
    return out


def run(a, spec, pool, t0):
    pid = a.check
    deadline = t0 + TOTAL_LIMIT[a.tier]
    if a.replay:
        with open(a.replay) as f:
            item = json.load(f)
        r = pool.run('concrete', [dict(check=item['check'], django=spec.get('DJANGO', False), items=[item], wall=120)],
                     deadline)[0]
        print(json.dumps(r, indent=1))
        bad = isinstance(r, dict) or r[0]['outcome'] == 'violation'
        if bad:
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        return 1 if bad else 0

    known_ids = known_findings(pid)
    jobs = []
    for j in spec['jobs'](a.tier):
        j = dict(j)
        j.setdefault('params', {})
        j.setdefault('covers', [])
        j['check'] = pid
        j['known'] = sorted(known_ids)
        j['django'] = j.get('django', spec.get('DJANGO', False))
        j['limit'] = j.get('limit', TOTAL_LIMIT[a.tier] * 0.8)
        j['wall'] = j['limit'] + 60
        if a.job and a.job not in j['fn'] + json.dumps(j['params']):
            continue
        jobs.append(j)
    if a.sketch:
        for j in jobs:
            j['max_paths'] = 3
    results = pool.run('explore', jobs, deadline)
    if a.sketch:
        out = [r['error'] for r in results if r['error'] and 'incomplete' not in r['error']]
        out += [x for x in shards_and_covers(a, jobs, results) if x.startswith('shards')] if not out else []
        print('\n'.join(out))
        return 0

    errors, violations, items, owners, found = [], [], [], [], {}
    seen_cover = {}
    tot = dict(paths=0, infeasible=0, pruned=0, forks=0, forced=0, checks=0, discharged=0, concretised=0, known=0)
    sol = dict(queries=0, sat=0, unsat=0, time=0.0)
    functions, labels, sites, maxd = {}, {}, {}, 0
    for j, r in zip(jobs, results):
        name = '%s%s' % (j['fn'], json.dumps(j['params'], sort_keys=True) if j['params'] else '')
        if 'stats' not in r:
            errors.append('%s: %s' % (name, r['error']))
            continue
        for k in tot:
            tot[k] += r['stats'][k]
        for k in sol:
            sol[k] += r['solver'][k]
        for d, s in ((functions, r['functions']), (labels, r['labels']), (sites, r['concretise_sites'])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        maxd = max(maxd, r['max_depth'])
        for k, v in r['covers'].items():
            seen_cover[k] = seen_cover.get(k, 0) + v
        if a.v:
            print('%-60s paths=%d pruned=%d infeasible=%d queries=%d wall=%.1fs depth=%d %s' % (
                name[:100], r['stats']['paths'], r['stats']['pruned'], r['stats']['infeasible'],
                r['solver']['queries'], r['wall'], r['max_depth'], 'VIOL' if r['violations'] else ''))
        for v in r['violations']:
            violations.append((j, v))
        for k, v in r['known_found'].items():
            found.setdefault(k, (j, v))
        if r['error']:
            errors.append('%s: %s' % (name, r['error']))
        elif not r['violations']:
            if not r['complete']:
                errors.append('%s: exploration incomplete' % name)
            if not r['stats']['paths'] and not r['stats']['known'] and 'force' not in j['params']:
                errors.append('%s: vacuous, no path completed' % name)
        for w in r['witnesses']:
            items.append(dict(fn=j['fn'], params=j['params'], model=w['model'], log=w['log'], django=j['django']))
            owners.append(name)
    if not violations and not errors:
        errors += shards_and_covers(a, jobs, results)

    # counterexamples, each replayed in its own fresh process on the plain modules
    confirmed, unconfirmed = [], []
    if violations:
        vr = pool.run('concrete', [dict(check=pid, django=j['django'], wall=120, items=[
            dict(fn=j['fn'], params=j['params'], model=v['model'])]) for j, v in violations], deadline + 60, fresh=True)
        for (j, v), r in zip(violations, vr):
            hang = isinstance(r, dict)
            if hang and not (v['label'] == 'terminates' and r.get('timeout')):
                unconfirmed.append((j, v, r))
            elif hang or r[0]['outcome'] == 'violation':
                confirmed.append((j, v, r))
            else:
                unconfirmed.append((j, v, r[0]))

    # listed findings that showed up: replayed as well
    known_lines = []
    for k, (j, v) in sorted(found.items()):
        r = pool.run('concrete', [dict(check=pid, django=j['django'], wall=120, items=[
            dict(fn=j['fn'], params=j['params'], model=v['model'])])], deadline + 60, fresh=True)[0]
        if isinstance(r, list) and r[0]['outcome'] == 'violation' and r[0].get('known') == k:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, known_ids[k]))
        else:
            errors.append('known finding %s not reproduced: %s' % (k, str(r)[:1500]))

    # trace validation: the witnesses of explored paths, run concretely, observe what the exploration observed
    validated = mismatched = 0
    if items and not confirmed:
        chunks = []
        for dj in (False, True):
            sub = [n for n in range(len(items)) if items[n]['django'] == dj]
            k = max(1, min(WORKERS, len(sub) // 8 or 1))
            for c in range(k):
                part = sub[c::k]
                if part:
                    chunks.append((dj, part))
        rs = pool.run('concrete', [dict(check=pid, django=dj, items=[items[n] for n in part], wall=600)
                                   for dj, part in chunks], deadline + 60)
        for (dj, part), r in zip(chunks, rs):
            if isinstance(r, dict):
                errors.append('witness validation: %s' % r['error'])
                continue
            for n, x in zip(part, r):
                it = items[n]
                if x['outcome'] == 'violation':
                    j = dict(fn=it['fn'], params=it['params'], check=pid, django=dj)
                    confirmed.append((j, dict(label=x['label'], detail=x['detail'], model=it['model']), [x]))
                elif x['outcome'] != 'ok' or x['log'] != it['log']:
                    mismatched += 1
                    if mismatched <= 3:
                        errors.append('witness mismatch in %s: %s\n explored %s\n concrete %s' % (
                            owners[n], x['outcome'], json.dumps(it['log'])[:1500], json.dumps(x['log'])[:1500]))
                else:
                    validated += 1

    for j, v, r in unconfirmed:
        errors.append('counterexample not reproduced: %s %s: %s\n%s\nconcrete: %s' % (
            j['fn'], j['params'], v['label'], v['detail'], str(r)[:2000]))

    rdir = os.path.join(HERE, 'replays', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    lines = []
    if confirmed:
        os.makedirs(rdir)
        seen = set()
        for n, (j, v, r) in enumerate(confirmed):
            path = os.path.join(rdir, '%d.json' % n)
            with open(path, 'w') as f:
                json.dump(dict(check=pid, fn=j['fn'], params=j['params'], model=v['model'], label=v['label'],
                               detail=v['detail'], concrete=r), f, indent=1, default=str)
            if (j['fn'], v['label']) in seen:
                continue
            seen.add((j['fn'], v['label']))
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            lines.append('  %s %s: %s' % (j['fn'], json.dumps(j['params']), v['label']))
            lines.append('  ' + (str(v['detail']) or '').replace('\n', '\n  ')[:1500])

    samples = [dict(harness=owners[n], inputs=items[n]['model'], observed=items[n]['log'])
               for n in range(0, len(items), max(1, len(items) // 5))][:6]
    cov = dict(
        states=tot['paths'] + tot['pruned'], transitions=tot['forks'] + tot['forced'],
        traces_validated_against_impl=validated, samples=samples or [dict(note='no path completed')],
        explanation='states: symbolic paths explored to the end; transitions: branch decisions put to the solver; '
                    'each path stands for all inputs satisfying its condition',
        exhaustive=not errors and not sites,
        paths_completed=tot['paths'], paths_ending_in_known_findings=tot['known'],
        known_findings=known_lines, paths_pruned_by_partial_order=tot['pruned'],
        paths_cut_by_assumptions=tot['infeasible'], branches_forked=tot['forks'], branches_forced=tot['forced'],
        assertions_put=tot['checks'], assertions_discharged=tot['discharged'], assertion_labels=labels,
        solver_queries=sol['queries'], solver_sat=sol['sat'], solver_unsat=sol['unsat'],
        solver_time_s=round(sol['time'], 2), deepest_path_decisions=maxd, cover_points=seen_cover,
        functions_encoded=sorted(functions), functions_encoded_count=len(functions),
        concretisations=sites, bounds=spec.get('BOUNDS', ''), jobs=len(jobs), errors=errors[:5])
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get('VERIF_SEED') or 0), level='model_checking',
              coverage=cov, assumptions=list(spec.get('ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
              violations=len(confirmed))
    if not a.job:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for l in known_lines + lines:
        print(l)
    print('%s %s: %d paths (%d pruned), %d assertions discharged, %d queries, %.1fs solver, %d traces validated, '
          '%d functions, %.1fs' % (pid, a.tier, tot['paths'], tot['pruned'], tot['discharged'], sol['queries'],
                                   sol['time'], validated, len(functions), time.time() - t0))
    if confirmed:
        return 1
    if errors:
        for e in errors[:6]:
            print('ERROR ' + e)
        return 2
    return 0


if __name__ == '__main__':
    main()
