"""Explores a property's harnesses path by path, replays what it finds on the
uninstrumented code and writes the evidence file."""
import gc
import importlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMEX_REPO', '/repo')
Z3SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
HASHSEEDS = [0, 1, 2, 3, 5, 7, 11, 13, 17, 23, 42, 99]


def prepare(instrumented):
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.append(Z3SITE)
    import warnings
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # no colour / home lookups from black; file logging stays in scratch
    if instrumented:
        from symex import instr
        instr.install(REPO)
    import pyfileconf  # noqa
    import logging
    logging.getLogger('pyfileconf').setLevel(logging.CRITICAL)
    # preload lazily imported parts so they are shared by every forked path
    for m in ('pyfileconf.selector.models.itemview', 'pyfileconf.selector.models.selector', 'pyfileconf.main',
              'pyfileconf.plugin.default_hooks', 'pyfileconf.batch', 'pyfileconf.iterate', 'black'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass


class H:
    """One harness: fn(ctx) for a bounded family of inputs."""

    def __init__(self, name, fn, bounds, isolate=True, timeout=60, quick=True, set_perm=False, share=1.0,
                 setup=None):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.isolate = isolate
        self.timeout = timeout
        self.quick = quick
        self.set_perm = set_perm
        self.share = share
        self.setup = setup
        self.state = None   # (setup ctx, result) shared by the forked paths

    def run(self, c, state):
        if self.setup is None:
            self.fn(c)
        else:
            self.fn(c, state)


def load_property(pid):
    return importlib.import_module(f'harness.{pid.lower()}')


def known_findings(pid):
    """`known: property=CXX id=KFn what...` lines of known_findings.txt (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = dict(what=m.group(3))
    return out


class _Alarm(BaseException):
    pass


def _on_alarm(sig, frm):
    from symex.engine import PathTimeout
    raise PathTimeout()


# ---------------------------------------------------------------------------
def run_one(h, prefix, known, tier):
    """Execute one path symbolically; returns a picklable result."""
    from symex import engine as E
    from symex import rt
    from symex.ctx import Ctx, PathEnd, Violation
    eng = E.Engine(prefix)
    eng.set_perm = h.set_perm
    E.ENGINE = eng
    c = Ctx(None, known=known, tier=tier)
    res = {'status': 'ok', 'label': None, 'detail': '', 'assignment': None, 'known': None}
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, h.timeout)
    t0 = time.time()
    try:
        try:
            if h.setup is not None:
                c.adopt(h.state[0])
            h.run(c, h.state and h.state[1])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except PathEnd:
        res['status'] = 'ok'
    except E.PathAbort:
        res['status'] = 'aborted'
    except Violation as v:
        res.update(status='known' if v.known else 'violation', label=v.label, detail=v.detail,
                   assignment=v.assignment, known=v.known)
    except E.Unsupported as ex:
        res.update(status='inconclusive', label='unsupported', detail=str(ex))
    except E.PathTimeout:
        res.update(status='timeout', label='terminates', detail=f'no result within {h.timeout}s')
    except RecursionError as ex:
        res.update(status='violation', label='no unexpected exception', detail='RecursionError')
    except SystemExit as ex:
        res.update(status='violation', label='no unexpected exception', detail=f'SystemExit {ex.code}')
    except Exception as ex:
        res.update(status='violation', label='no unexpected exception',
                   detail=f'{type(ex).__name__}: {str(ex)[:300]}\n' + ''.join(traceback.format_exc()[-1500:]))
    try:
        if res['status'] != 'aborted':
            if res['assignment'] is None:
                if res['status'] == 'violation' and c.regions:
                    import z3
                    # an exception: attribute it to a recorded finding only if every input of the path is inside it
                    outside = [z3.Not(E.lift(x)) for _, x in c.regions]
                    m = eng.model(*outside)
                    if m is None:
                        m = eng.model()
                        res['status'] = 'known'
                        res['known'] = c.regions[0][0]
                else:
                    m = eng.model()
                if m is not None:
                    res['assignment'] = c.assignment(m)
                    if res['status'] == 'ok':
                        res['obs'] = c.observations(m)
                elif res['status'] == 'ok':
                    res['status'] = 'inconclusive'
                    res['detail'] = 'no model for a completed path'
    except E.Unsupported as ex:
        res['status'] = 'inconclusive'
        res['detail'] = str(ex)
    finally:
        E.ENGINE = None
        c.cleanup()
    res.update(alternatives=eng.alternatives, queries=eng.queries, solver_time=eng.solver_time,
               branches=eng.branches, forks=eng.forks, concretised=eng.concretised, capped=eng.capped,
               unknown=eng.unknown, checks=eng.checks, discharged=eng.discharged, labels=c.labels,
               steps=c.steps, nsyms=len(c.syms), depth=len(eng.decisions), wall=time.time() - t0, harness=h.name)
    return res


def child_main(h, prefix, known, tier, wfd, batch_s):
    from symex import rt
    sys.stdin = open(os.devnull)
    results, todo, t0 = [], [prefix], time.time()
    base = set(rt.seen_functions)
    while todo:
        p = todo.pop()
        r = run_one(h, p, known, tier)
        todo.extend(r.pop('alternatives'))
        results.append(r)
        if h.isolate or time.time() - t0 > batch_s or r['status'] in ('violation', 'timeout'):
            break
    data = pickle.dumps((results, todo, rt.seen_functions - base))
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


class Explorer:
    def __init__(self, pid, harnesses, known, tier, seed, budget, workers=8):
        self.pid, self.hs, self.known, self.tier = pid, harnesses, known, tier
        self.budget, self.workers = budget, workers
        self.rng = random.Random(seed)
        self.results = {h.name: [] for h in harnesses}
        self.functions = set()
        self.complete = {}
        self.stop = None

    def run(self, on_violation):
        t0 = time.time()
        tot = sum(h.share for h in self.hs)
        used = 0.0
        for i, h in enumerate(self.hs):
            left = self.budget - (time.time() - t0)
            rest = sum(x.share for x in self.hs[i:])
            if h.setup is not None:
                from symex.ctx import SetupCtx
                sc = SetupCtx(known=self.known, tier=self.tier)
                try:
                    h.state = (sc, h.setup(sc))
                except Exception as e:
                    # the shared set-up itself fails: let every path run it (and report it) by itself
                    res = dict(status='violation', label='set-up', detail=traceback.format_exc()[-1500:],
                               assignment={}, harness=h.name)
                    self.results[h.name].append(res)
                    if on_violation(h, res):
                        self.stop = res
                    sc.cleanup()
                    continue
            try:
                self.explore(h, max(5.0, left * h.share / rest), on_violation)
            finally:
                if h.setup is not None:
                    sc.cleanup()
                    h.state = None
            if self.stop:
                return

    def explore(self, h, budget, on_violation):
        queue, running, t0 = [[]], {}, time.time()
        gc.collect()
        gc.freeze()
        dead = 0
        while (queue or running) and not self.stop:
            while queue and len(running) < self.workers and time.time() - t0 < budget:
                # depth first, with a little seeded spread so a cut run still sees every region
                idx = len(queue) - 1 if self.rng.random() < 0.6 else self.rng.randrange(len(queue))
                queue[idx], queue[-1] = queue[-1], queue[idx]
                prefix = queue.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        os.setpgid(0, 0)
                        gc.disable()
                        child_main(h, prefix, self.known, self.tier, w, 1.5)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (pid, prefix, [], time.time())
            if not running:
                break
            rs, _, _ = select.select(list(running), [], [], 1.0)
            for r in rs:
                chunk = os.read(r, 1 << 20)
                pid, prefix, buf, ts = running[r]
                if chunk:
                    buf.append(chunk)
                    continue
                os.close(r)
                del running[r]
                os.waitpid(pid, 0)
                data = b''.join(buf)
                if not data:
                    dead += 1
                    self.results[h.name].append(dict(status='inconclusive', detail='path process died', label=None,
                                                     assignment=None, harness=h.name))
                    continue
                results, todo, fns = pickle.loads(data)
                self.functions |= fns
                queue.extend(todo)
                for res in results:
                    self.results[h.name].append(res)
                    if res['status'] in ('violation', 'timeout', 'inconclusive'):
                        if on_violation(h, res):
                            self.stop = res
            now = time.time()
            for r, (pid, prefix, buf, ts) in list(running.items()):
                if now - ts > h.timeout + 60:
                    os.kill(pid, signal.SIGKILL)
            if time.time() - t0 >= budget and not running:
                break
        for r, (pid, *_ ) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
            os.close(r)
        self.complete[h.name] = not queue and not running and not self.stop and dead == 0


# ---------------------------------------------------------------------------
# concrete replay on the plain code
# ---------------------------------------------------------------------------
def concrete_run(h, assignment, known, tier):
    from symex.ctx import Ctx, PathEnd, Violation
    from symex.engine import PathTimeout
    c = Ctx(assignment, known=known, tier=tier)
    res = {'status': 'ok', 'label': None, 'detail': '', 'known': None}
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, h.timeout)
    try:
        try:
            h.run(c, h.setup(c) if h.setup is not None else None)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except PathEnd:
        pass
    except Violation as v:
        res.update(status='known' if v.known else 'violation', label=v.label, detail=v.detail, known=v.known)
    except PathTimeout:
        res.update(status='timeout', label='terminates', detail=f'no result within {h.timeout}s')
    except (Exception, SystemExit) as ex:
        k = c._known_concrete()
        res.update(status='known' if k else 'violation', known=k, label='no unexpected exception',
                   detail=f'{type(ex).__name__}: {str(ex)[:300]}\n' + traceback.format_exc()[-1500:])
    res['obs'] = c.observations()
    res['steps'] = c.steps
    c.cleanup()
    return res


def replay_server(pid, path):
    """subprocess entry: run every assignment of the JSON file, one fork each."""
    prepare(instrumented=False)
    mod = load_property(pid)
    jobs = json.load(open(path))
    hs = {h.name: h for h in mod.HARNESSES}
    running, out, pending = {}, {}, list(enumerate(jobs['jobs']))[::-1]
    while pending or running:
        while pending and len(running) < jobs.get('workers', 8):
            i, job = pending.pop()
            r, w = os.pipe()
            pid_ = os.fork()
            if pid_ == 0:
                os.close(r)
                try:
                    sys.stdin = open(os.devnull)
                    sys.stdout = open(os.devnull, 'w')
                    res = concrete_run(hs[job['harness']], job['assignment'], jobs['known'], jobs['tier'])
                except BaseException as ex:
                    res = {'status': 'error', 'label': None, 'detail': traceback.format_exc(), 'obs': [], 'known': None}
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(res))
                os._exit(0)
            os.close(w)
            running[r] = (pid_, i, [])
        rs, _, _ = select.select(list(running), [], [], 1.0)
        for r in rs:
            p, i, buf = running[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                buf.append(chunk)
                continue
            os.close(r)
            del running[r]
            os.waitpid(p, 0)
            data = b''.join(buf)
            out[i] = pickle.loads(data) if data else {'status': 'error', 'label': None, 'detail': 'process died',
                                                      'obs': [], 'known': None}
    json.dump([out[i] for i in range(len(jobs['jobs']))], open(path + '.out', 'w'), default=str)


def replay(pid, jobs, known, tier, hashseed=0, workers=8, timeout=600):
    d = tempfile.mkdtemp(prefix='pfcreplay')
    try:
        p = os.path.join(d, 'jobs.json')
        json.dump(dict(jobs=jobs, known=sorted(known), tier=tier, workers=workers), open(p, 'w'))
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
        subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), pid, '--replay-batch', p], env=env,
                       cwd=VERIF, timeout=timeout, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return json.load(open(p + '.out'))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------
def main(pid, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='pfcroot', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.environ['SYMEX_SCRATCH'] = scratch
    master = os.getpid()
    try:
        return _main(pid, tier, seed, t0)
    finally:
        if os.getpid() == master:
            shutil.rmtree(scratch, ignore_errors=True)


def _main(pid, tier, seed, t0):
    prepare(instrumented=True)
    from symex import instr
    mod = load_property(pid)
    kf = known_findings(pid)
    known = set(kf)
    hs = [h for h in mod.HARNESSES if tier == 'thorough' or h.quick]
    if os.environ.get('SYMEX_ONLY'):  # while developing
        hs = [h for h in hs if h.name in os.environ['SYMEX_ONLY'].split(',')]
    budget = float(os.environ.get('SYMEX_BUDGET') or (240 if tier == 'quick' else 660))
    ex = Explorer(pid, hs, known, tier, seed, budget)
    state = dict(spurious=0, fallback=0, violation=None, tried=set(), replay_ok_fallback=0)

    def on_violation(h, res):
        if res.get('assignment') is None:
            return False
        key = (h.name, res['status'], res['label'], (res['detail'] or '')[:60])
        cap = 3 if res['status'] in ('violation', 'timeout') else 12
        n = sum(1 for k in state['tried'] if k[:3] == key[:3])
        if n >= cap * 4 or (key, n) in state['tried']:
            state['spurious'] += 1
            return False
        state['tried'].add(key + (n,))
        seeds = HASHSEEDS if h.set_perm else HASHSEEDS[:1]
        for s in seeds:
            out = replay(pid, [dict(harness=h.name, assignment=res['assignment'])], known, tier, s, workers=1)[0]
            if out['status'] in ('violation', 'timeout'):
                state['violation'] = dict(property=pid, harness=h.name, assignment=res['assignment'], hashseed=s,
                                          label=out['label'], detail=out['detail'], steps=out.get('steps'),
                                          symbolic_label=res['label'])
                return True
        if res['status'] == 'inconclusive':
            state['fallback'] += 1
        else:
            state['spurious'] += 1
            if os.environ.get('SYMEX_DEBUG'):
                print('SPURIOUS', h.name, res['label'], res['detail'], res['assignment'], out)
        return False

    ex.run(on_violation)
    allres = [r for rs in ex.results.values() for r in rs]

    # validate the encoding: models of explored paths against the plain code
    validated = mismatches = 0
    samples = []
    if not state['violation']:
        oks = [r for r in allres if r['status'] == 'ok' and r.get('assignment') is not None]
        random.Random(seed).shuffle(oks)
        n = int(getattr(mod, 'VALIDATE', {}).get(tier, 150 if tier == 'quick' else 600))
        pick = oks[:n]
        hperm = {h.name: h.set_perm for h in hs}
        if pick:
            outs = replay(pid, [dict(harness=r['harness'], assignment=r['assignment']) for r in pick], known, tier)
            for r, o in zip(pick, outs):
                if o['status'] in ('violation', 'timeout'):
                    # the plain code fails on this path although the encoding did not
                    state['violation'] = dict(property=pid, harness=r['harness'], assignment=r['assignment'],
                                              hashseed=0, label=o['label'], detail=o['detail'], steps=o.get('steps'),
                                              symbolic_label='(found while validating a path model)')
                    break
                if o['status'] == 'ok' and (hperm[r['harness']] or
                                            [list(x) for x in r.get('obs', [])] == [list(x) for x in o['obs']]):
                    validated += 1
                else:
                    mismatches += 1
                    if os.environ.get('SYMEX_DEBUG'):
                        print('MISMATCH', r['harness'], r['assignment'], r.get('obs'), o)
        for r in pick[:6]:
            samples.append(dict(harness=r['harness'], inputs=r['assignment'], steps=r['steps'],
                                observed=[list(x) for x in r.get('obs', [])][:8]))

    kfseen = {}
    for r in allres:
        if r['status'] == 'known':
            kfseen.setdefault(r['known'], r)

    count = lambda s: sum(1 for r in allres if r['status'] == s)
    tot = lambda k: sum(r.get(k, 0) for r in allres)
    labels = {}
    for r in allres:
        for l, n in (r.get('labels') or {}).items():
            labels[l] = labels.get(l, 0) + n
    paths = len([r for r in allres if r['status'] != 'aborted'])
    wall = time.time() - t0
    cov = dict(
        states=paths, transitions=tot('branches'), traces_validated_against_impl=validated,
        validation_mismatches=mismatches, samples=samples,
        exhaustive=all(ex.complete.get(h.name) for h in hs) and count('inconclusive') == 0 and state['spurious'] == 0,
        harnesses={h.name: dict(bounds=h.bounds, paths=len([r for r in ex.results[h.name] if r['status'] != 'aborted']),
                                complete=bool(ex.complete.get(h.name))) for h in hs},
        queries_discharged=tot('queries'), assertions_checked=tot('checks'), assertions_discharged=tot('discharged'),
        solver_time_s=round(tot('solver_time'), 2), solver='z3',
        max_depth=max([r.get('depth', 0) for r in allres] or [0]),
        symbolic_inputs_max=max([r.get('nsyms', 0) for r in allres] or [0]),
        concretisations=tot('concretised'), inconclusive_paths=count('inconclusive'),
        timeouts=count('timeout'), spurious_counterexamples=state['spurious'], aborted_paths=count('aborted'),
        assertion_labels=labels, functions_encoded=sorted(ex.functions), functions_encoded_count=len(ex.functions),
        modules_instrumented=instr.STATS['modules'],
        known_findings_seen={k: dict(inputs=r['assignment'], label=r['label']) for k, r in kfseen.items()},
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 1),
              violations=1 if state['violation'] else 0,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'logging calls below the configured level are not evaluated in the symbolic run',
                  'configuration values range over None, bool, int, str/list/dict atoms and opaque objects',
                  'bounds are those listed per harness; nothing outside them is claimed'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)

    print(f'{pid} {tier}: {paths} paths, {tot("branches")} branch decisions, {tot("queries")} solver queries, '
          f'{tot("checks")} assertions, {validated} traces validated, complete={cov["exhaustive"]}, '
          f'inconclusive={count("inconclusive")} spurious={state["spurious"]} mismatches={mismatches} '
          f'in {wall:.1f}s')
    if os.environ.get('SYMEX_DEBUG'):
        for h in hs:
            print('  ', h.name, cov['harnesses'][h.name]['paths'], cov['harnesses'][h.name]['complete'],
                  round(sum(r.get('wall', 0) for r in ex.results[h.name]), 1))
        print('  labels', labels)
        for r in allres:
            if r['status'] == 'inconclusive':
                print('  inconclusive', r['harness'], r['detail'], r.get('steps'))
                break
    if state['violation']:
        v = state['violation']
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}.json')
        json.dump(v, open(path, 'w'), indent=1, default=str)
        print(f'counterexample: harness {v["harness"]}, assertion: {v["label"]}: {str(v["detail"])[:1500]}')
        print(f'inputs: {json.dumps(v["assignment"], default=str)}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    for k in sorted(known):
        d = kf[k]
        print(f'KNOWN-FINDING: property={pid} {k}: {d["what"]}')
    if not tot('checks'):
        print('vacuous: no assertion was reached')
        return 3
    return 0


def replay_file(path):
    v = json.load(open(path))
    env = os.environ.get('PYTHONHASHSEED')
    if env != str(v.get('hashseed', 0)):
        os.environ['PYTHONHASHSEED'] = str(v.get('hashseed', 0))
        os.execv(sys.executable, [sys.executable] + sys.argv)
    prepare(instrumented=False)
    mod = load_property(v['property'])
    h = {h.name: h for h in mod.HARNESSES}[v['harness']]
    res = concrete_run(h, v['assignment'], set(known_findings(v['property'])), 'quick')
    print(json.dumps({k: res[k] for k in ('status', 'label', 'detail', 'steps', 'obs')}, indent=1, default=str))
    return 1 if res['status'] in ('violation', 'timeout') else 0
