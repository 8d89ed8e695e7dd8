''' The exploration engine: deterministic enumeration of cases, sharded over processes, with evidence and replay files. '''

import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_SECONDS = 240
WORKER_MEMORY = 5 << 30

class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message, self.key = message, key

class NonTermination(BaseException):
    ''' Raised by the per case watchdog. '''

def load_known(pid):
    ''' The known findings (not the fixed ones) of a property: {key: text}. '''
    path = os.path.join(ROOT, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                fields = line[len('finding: '):].split(' ', 2)
                prop, key = fields[0].split('=', 1)[1], fields[1].split('=', 1)[1]
                if prop == pid: out[key] = fields[2] if len(fields) > 2 else ''
    return out

class Ctx:
    ''' Collects what one case covered. '''
    def __init__(self, known=()):
        self.known = known
        self.states = self.transitions = self.traces = 0
        self.outcomes = {}
        self.seen_known = {}
        self.sample = None
    def check(self, cond, message, key=None):
        if cond: return True
        if callable(message): message = message()
        if key is not None and key in self.known:
            self.seen_known[key] = self.seen_known.get(key, 0) + 1
            return False
        raise Violation(message, key)
    def equal(self, got, want, message, key=None):
        if got == want: return True
        m = message() if callable(message) else message
        return self.check(False, f'{m}: got {got!r}, expected {want!r}', key)
    def state(self, n=1): self.states += n
    def step(self, n=1): self.transitions += n
    def trace(self, n=1): self.traces += n
    def outcome(self, name, n=1): self.outcomes[name] = self.outcomes.get(name, 0) + n
    def rejects(self, f, message, excs=(Exception,), key=None):
        ''' Check that f() raises one of the given errors. '''
        text = lambda: message() if callable(message) else message
        try:
            r = f()
        except excs:
            self.outcome('rejected')
            return True
        except Exception as error:  # Wrong kind of error.
            return self.check(False, f'{text()}: raised {error!r} instead of {[e.__name__ for e in excs]}', key)
        return self.check(False, f'{text()}: accepted, returned {r!r}', key)

def _alarm(signum, frame):
    raise NonTermination(f'no answer within {CASE_CPU_SECONDS} CPU seconds')

def short_trace():
    lines = traceback.format_exc().strip().splitlines()
    return ' | '.join(line.strip() for line in lines[-8:])

def execute(module, case, known=()):
    ''' Run a single case, returning (ctx, None) or (ctx, message). '''
    ctx = Ctx(known)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(module, 'CASE_CPU_SECONDS', CASE_CPU_SECONDS))
    try:
        module.run_case(case, ctx)
    except Violation as v:
        return ctx, v.message + (f' [key={v.key}]' if v.key else '')
    except NonTermination as error:
        return ctx, f'non-termination: {error}'
    except MemoryError:
        return ctx, 'memory exhausted'
    except RecursionError:
        return ctx, 'RecursionError: ' + short_trace()
    except Exception as error:  # Anything escaping from the code under test breaks the property.
        return ctx, f'unexpected {type(error).__name__}: {error} :: {short_trace()}'
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx, None

_module = None
_known = ()

def _init(name, known):
    global _module, _known
    import importlib
    _module = importlib.import_module(name)
    _known = known
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
    except (ValueError, OSError):
        pass

def _work(batch):
    tot = Ctx()
    for index, case in batch:
        ctx, failure = execute(_module, case, _known)
        tot.states += ctx.states
        tot.transitions += ctx.transitions
        tot.traces += ctx.traces
        for k, v in ctx.outcomes.items(): tot.outcomes[k] = tot.outcomes.get(k, 0) + v
        for k, v in ctx.seen_known.items(): tot.seen_known[k] = tot.seen_known.get(k, 0) + v
        if ctx.sample is not None and tot.sample is None: tot.sample = ctx.sample
        if failure: return (tot, index, case, failure)
    return (tot, None, None, None)

def write_replay(pid, case, message):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    name = f'{pid}-{hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]}.json'
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'case': case, 'message': message}, f, indent=1)
    return os.path.relpath(path, ROOT)

def run(pid, module_name, tier, seed, procs=None):
    t0 = time.time()
    import importlib
    module = importlib.import_module(module_name)
    known = load_known(pid)
    cases = list(module.cases(tier))
    procs = procs or min(8, os.cpu_count() or 1)
    # Heavier cases are listed first by the modules that know; interleave into batches.
    size = getattr(module, 'BATCH', 1)
    batches = [[(i, cases[i]) for i in range(j, min(j + size, len(cases)))] for j in range(0, len(cases), size)]
    tot = Ctx()
    failures, done = [], 0
    ctx = multiprocessing.get_context('fork')
    pool = ProcessPoolExecutor(max_workers=procs, mp_context=ctx, initializer=_init, initargs=(module_name, known))
    try:
        pending, it = {}, iter(batches)
        def fill():
            for b in it:
                pending[pool.submit(_work, b)] = b
                if len(pending) >= 3 * procs: return
        fill()
        while pending:
            ready, _ = wait(list(pending), return_when=FIRST_COMPLETED)
            for fut in ready:
                batch = pending.pop(fut)
                try:
                    c, index, case, failure = fut.result()
                except BrokenProcessPool:
                    failures.append((batch[0][1], 'a worker process died (crash or out of memory) in this batch'))
                    break
                done += len(batch)
                tot.states += c.states; tot.transitions += c.transitions; tot.traces += c.traces
                for k, v in c.outcomes.items(): tot.outcomes[k] = tot.outcomes.get(k, 0) + v
                for k, v in c.seen_known.items(): tot.seen_known[k] = tot.seen_known.get(k, 0) + v
                if failure: failures.append((case, failure))
            if failures: break
            if len(pending) < 3 * procs: fill()
    finally:
        if failures:
            for proc in list((pool._processes or {}).values()):
                try: proc.kill()
                except Exception: pass
        pool.shutdown(wait=not failures, cancel_futures=True)
    wall = time.time() - t0
    for key, text in known.items():
        n = tot.seen_known.get(key, 0)
        print(f'KNOWN-FINDING: property={pid} {key} {text} (met {n} times in this run)')
    coverage = {
        'states': tot.states, 'transitions': tot.transitions, 'traces_validated_against_impl': tot.traces,
        'cases': len(cases), 'cases_completed': done,
        'samples': [cases[i] for i in sorted({0, len(cases) // 3, (2 * len(cases)) // 3, len(cases) - 1}) if 0 <= i < len(cases)],
        'exhaustive': not failures and done == len(cases),
        'bounds': module.bounds(tier) if hasattr(module, 'bounds') else '',
        'distinct_outcomes': len(tot.outcomes), 'outcomes': dict(sorted(tot.outcomes.items())[:60]),
        }
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])) or ['the reference model in mc/ref.py is right; bounds as stated'],
        'wall_s': round(wall, 2), 'violations': len(failures)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if failures:
        for case, message in failures:
            path = write_replay(pid, case, message)
            print(f'{message}'[:3000])
            print(f'VIOLATION property={pid} replay={path}')
        sys.stdout.flush()
        return 1
    print(f'{pid}: held on {tot.states} states, {tot.transitions} transitions, {tot.traces} traces validated; {len(cases)} cases; {wall:.1f} s')
    return 0
