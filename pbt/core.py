"""Runner of the generated checks: Hypothesis drives `strategy -> case (JSON-able) -> check(case)`.

`check` raises `Violation` when the oracle disagrees.  An exception that passes through code of the
repository on a case of the documented domain is a violation also; any other exception is an error of
the harness (exit 2).  Every failing case is written out, as JSON, and is replayed without Hypothesis.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

from . import boot

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = 100      # seconds of CPU for a single case (typical: milliseconds)
SHRINK_SECONDS = 40


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is outside of the domain (counted, not evaluated)"""


class _Stop(BaseException):
    pass


def ensure(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    """One generated sub-check of a property."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule='', stateful=False):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule


def _in_repo(tb):
    repo = os.path.realpath(os.path.join(boot.REPO, 'kalepy')) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(repo):
            return True
    return False


def run_case(sub, case):
    """Evaluate one case; return the labels, or raise Violation / Skip / (harness) errors."""
    import numpy as np
    np.random.seed(12345)
    try:
        rv = sub.check(case)
    except (Violation, Skip, _Stop, KeyboardInterrupt):
        raise
    except Exception as err:
        if _in_repo(err.__traceback__):
            fr = traceback.extract_tb(err.__traceback__)[-1]
            raise Violation('raised %s: %s (at %s:%s) for valid input' % (
                type(err).__name__, str(err)[:300], os.path.basename(fr.filename), fr.name)) from err
        raise
    if rv is None:
        return True, []
    return rv


def _short(obj, depth=0):
    if isinstance(obj, dict):
        return {k: _short(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        if len(obj) > 12:
            return [_short(v, depth + 1) for v in obj[:8]] + ['... %d more' % (len(obj) - 8)]
        return [_short(v, depth + 1) for v in obj]
    return obj


def run_sub(sub, seed, count, out_path):
    """Run in a worker process; write the result to `out_path`"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    res = dict(name=sub.name, evaluations=0, skipped=0, nontrivial=0, labels={}, samples=[], violation=None, error=None)
    seen = set()
    best = {}
    t_fail = [None]
    current = [None]

    def dump():
        with open(out_path + '.tmp', 'w') as fh:
            json.dump(res, fh)
        os.replace(out_path + '.tmp', out_path)

    def on_cpu(signum, frame):
        res['violation'] = dict(case=current[0], msg='did not finish within %d s of CPU' % CASE_CPU_LIMIT)
        dump()
        os._exit(0)

    signal.signal(signal.SIGVTALRM, on_cpu)

    def test(case):
        key = json.dumps(case, sort_keys=True)
        current[0] = case
        if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_SECONDS:
            raise _Stop()
        res['evaluations'] += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        try:
            nontriv, labels = run_case(sub, case)
        except Skip:
            res['skipped'] += 1
            return
        except Violation as err:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            if not best or len(key) <= len(best['key']):
                best.update(key=key, case=case, msg=str(err))
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        for lab in labels:
            res['labels'][lab] = res['labels'].get(lab, 0) + 1
        if nontriv:
            hh = hashlib.md5(key.encode()).digest()
            if hh not in seen:
                seen.add(hh)
                if len(res['samples']) < 2 or (len(res['samples']) < 3 and len(seen) > count // 2):
                    res['samples'].append(_short(case))

    sett = settings(max_examples=count, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example])
    func = hypothesis.seed(seed)(sett(hypothesis.given(sub.strategy)(test)))
    try:
        func()
    except (_Stop, Violation):
        pass
    except BaseException as err:
        # (Hypothesis also reports failures it could not repeat;  the case that failed has been kept)
        if not best:
            res['error'] = ''.join(traceback.format_exception(err))[-4000:]
    if best:
        res['violation'] = dict(case=best['case'], msg=best['msg'])
    res['nontrivial'] = len(seen)
    dump()


def run_property(mod, tier, seed):
    """Run every sub-check of a property module, in parallel worker processes."""
    import multiprocessing as mp
    import tempfile
    t0 = time.time()
    pid = mod.ID
    warm = getattr(mod, 'warm', None)
    if warm is not None:
        warm()
    ctx = mp.get_context('fork')
    jobs = []
    for ii, sub in enumerate(mod.SUBS):
        # several independently seeded searches of each sub-check, for all of the cores
        if tier == 'thorough':
            count = sub.thorough
            shards = min(8, max(1, count // 200))
        else:
            shards = max(4 if len(mod.SUBS) < 5 else 2, 8 // len(mod.SUBS))
            count = sub.quick * shards
        for sh in range(shards):
            hh = hashlib.md5(('%s/%s/%d/%d' % (pid, sub.name, seed, sh)).encode()).hexdigest()
            jobs.append((sub, int(hh[:8], 16), max(1, count // shards)))
    # the largest jobs first
    order = sorted(range(len(jobs)), key=lambda jj: -jobs[jj][0].quick * getattr(jobs[jj][0], 'cost', 1))
    tmp = tempfile.mkdtemp(prefix='pbt_')
    ncpu = min(8, os.cpu_count() or 1)
    limit = 780 if tier == 'quick' else 6 * 3600
    running, results, errors = {}, {}, []
    pending = list(order)
    first_violation = None
    try:
        while pending or running:
            while pending and len(running) < ncpu:
                jj = pending.pop(0)
                sub, sd, cnt = jobs[jj]
                path = os.path.join(tmp, '%d.json' % jj)
                proc = ctx.Process(target=run_sub, args=(sub, sd, cnt, path))
                proc.start()
                running[jj] = (proc, path)
            time.sleep(0.02)
            for jj, (proc, path) in list(running.items()):
                if proc.is_alive():
                    continue
                proc.join()
                del running[jj]
                if os.path.exists(path):
                    with open(path) as fh:
                        results[jj] = json.load(fh)
                    if results[jj]['violation'] and first_violation is None:
                        first_violation = time.time()
                else:
                    errors.append('%s: worker ended with code %s' % (jobs[jj][0].name, proc.exitcode))
            if first_violation is not None and time.time() - first_violation > 60:
                pending = []
                break
            if time.time() - t0 > limit:
                errors.append('time limit of %d s' % limit)
                break
    finally:
        for proc, _ in running.values():
            proc.kill()
            proc.join()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    viols = []
    evid = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], subchecks={})
    rules = []
    for jj in range(len(jobs)):
        sub = jobs[jj][0]
        rr = results.get(jj)
        if rr is None:
            continue
        if rr['error']:
            errors.append('%s: %s' % (sub.name, rr['error']))
        if rr['violation']:
            viols.append((sub, jobs[jj][1], rr['violation']))
        evid['evaluations'] += rr['evaluations'] - rr['skipped']
        evid['distinct_nontrivial'] += rr['nontrivial']
        ss = evid['subchecks'].setdefault(sub.name, dict(generated=0, outside_domain=0, distinct_nontrivial=0, classes={}))
        ss['generated'] += rr['evaluations']
        ss['outside_domain'] += rr['skipped']
        ss['distinct_nontrivial'] += rr['nontrivial']
        for kk, vv in rr['labels'].items():
            ss['classes'][kk] = ss['classes'].get(kk, 0) + vv
        if len([1 for xx in evid['samples'] if xx['subcheck'] == sub.name]) < 2:
            evid['samples'] += [dict(subcheck=sub.name, case=cc) for cc in rr['samples'][:1]]
        if sub.rule and ('%s: %s' % (sub.name, sub.rule)) not in rules:
            rules.append('%s: %s' % (sub.name, sub.rule))
    evid['rule'] = ('Cases are generated by Hypothesis from the strategy of each sub-check (seeded by VERIF_SEED), '
                    'expanded deterministically, and counted once by their content; non-trivial by sub-check -- ' + ' | '.join(rules))

    # fixed probes of known findings and of repaired defects
    known, probe_viols = [], []
    for probe in getattr(mod, 'PROBES', []):
        rr = probe()
        if rr is not None:
            known.append(rr)

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    data = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=evid,
                assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(viols))
    if known:
        data['assumptions'] = data['assumptions'] + ['known finding observed: ' + kk for kk in known]
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(data, fh, indent=1)
    os.replace(path + '.tmp', path)

    for kk in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, kk))
    if viols:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for sub, sd, vv in viols:
            rep = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (pid, sub.name, seed))
            with open(rep, 'w') as fh:
                json.dump(dict(property=pid, subcheck=sub.name, seed=seed, case=vv['case'], message=vv['msg']), fh, indent=1)
            print('  %s/%s: %s' % (pid, sub.name, vv['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, rep))
        sys.stdout.flush()
        return 1
    if errors:
        for ee in errors:
            print('ERROR (harness) %s: %s' % (pid, ee))
        return 2
    print('%s ok: %d cases, %d distinct non-trivial, %.1f s' % (
        pid, evid['evaluations'], evid['distinct_nontrivial'], time.time() - t0))
    return 0


def replay(path):
    import importlib
    with open(path) as fh:
        rep = json.load(fh)
    mod = importlib.import_module('pbt.props.' + rep['property'].lower())
    sub = {ss.name: ss for ss in mod.SUBS}[rep['subcheck']]
    try:
        run_case(sub, rep['case'])
    except Violation as err:
        print('  %s/%s: %s' % (rep['property'], rep['subcheck'], err))
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    except Skip:
        print('outside of the domain')
        return 0
    print('holds')
    return 0
