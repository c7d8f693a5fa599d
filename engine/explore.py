"""Path exploration by process forking: every decision with two feasible sides forks; no path is ever re-executed."""
import ctypes
import gc
import json
import mmap
import os
import resource
import signal
import struct
import sys
import time

import rt
import sym
from sym import Ctx, SymBool, SymInt, SymBytes, SymFloat, SymText, Unsupported, AssumeFailed, Budget, Inconclusive
import hsym

TOKENS = 8
CASE_SECONDS = {'quick': 150, 'thorough': 500}
CASE_MEMORY = 4 << 30


class Shared(object):
    """counters in shared memory: 0 paths, 1 violations, 2 stop flag, 3 live path budget"""
    def __init__(self, ncov):
        self.m = mmap.mmap(-1, 4096 + ncov)
        self.cov = memoryview(self.m)[4096:4096 + ncov]

    def get(self, i):
        return struct.unpack_from('<q', self.m, 8 * i)[0]

    def add(self, i, v=1):
        # racy increments only blur budgets, never verdicts
        struct.pack_into('<q', self.m, 8 * i, self.get(i) + v)


class Forker(object):
    def __init__(self, shared, rfd, wfd, out, deadline, max_paths, max_viol):
        self.sh, self.rfd, self.wfd, self.out = shared, rfd, wfd, out
        self.deadline, self.max_paths, self.max_viol = deadline, max_paths, max_viol
        self.case_deadline = deadline
        self.own = False          # this process owns a token it must return at exit
        self.children = []

    def token(self):
        try:
            return len(os.read(self.rfd, 1)) == 1
        except BlockingIOError:
            return False

    def fork(self, ctx):
        """True in the child"""
        if self.sh.get(2):
            raise Budget('stopped')
        if time.time() > min(self.deadline, self.case_deadline):
            raise Budget('time budget')
        if self.sh.get(0) > self.max_paths:
            raise Budget('path budget')
        got = self.token()
        pid = os.fork()
        if pid == 0:
            self.own = got
            ctx.queries = 0
            ctx.solver_s = 0.0
            ctx.decisions = 0
            ctx.checks_sent = 0
            ctx.checks_concrete = 0
            ctx.steps0 = ctx.steps
            hsym.H.child()
            return True
        if not got:
            os.waitpid(pid, 0)
        else:
            self.children.append(pid)
            for p in list(self.children):
                try:
                    if os.waitpid(p, os.WNOHANG)[0]:
                        self.children.remove(p)
                except ChildProcessError:
                    self.children.remove(p)
        return False

    def write(self, rec):
        data = (json.dumps(rec) + '\n').encode()
        # one write per record: O_APPEND keeps records whole
        n = os.write(self.out, data)
        while n < len(data):
            data = data[n:]
            n = os.write(self.out, data)


def run_case(ctx, forker, name, func, args, tier):
    """runs one case on the current path; never returns"""
    H = hsym.H
    rec = {'case': name}
    sym.set_ctx(ctx)
    sys.setrecursionlimit(20000)
    status, detail = 'ok', ''
    try:
        try:
            func(*args)
        except sym.EngineStop:
            raise
        except Exception as e:
            rt.engine_gap(e)
            if os.environ.get('VERIF_TRACE'):
                import traceback
                traceback.print_exc()
            H.uncaught(e)
    except AssumeFailed:
        status = 'assume'
    except Unsupported as e:
        status, detail = 'unsupported', str(e)
        if os.environ.get('VERIF_TRACE'):
            import traceback
            traceback.print_exc()
    except rt.StepLimit:
        status = 'steplimit'
    except Inconclusive as e:
        status, detail = 'inconclusive', str(e)
    except Budget as e:
        status, detail = 'budget', str(e)
    except H.Stop:
        status = 'stopped'
    except MemoryError:
        status, detail = 'inconclusive', 'out of memory'
    except RecursionError:
        status, detail = 'unsupported', 'recursion depth'
    except BaseException as e:
        status, detail = 'engine-error', '%s: %s' % (type(e).__name__, e)
        import traceback
        detail += ''.join(traceback.format_exc()[-1500:])
    finally:
        try:
            try:
                rec.update(H.record(status))
            except BaseException as e:
                status, detail = 'engine-error', 'record: %s: %s' % (type(e).__name__, e)
                import traceback
                detail += ''.join(traceback.format_exc()[-1500:])
            rec['status'] = status
            if detail:
                rec['detail'] = detail
            rec.update(queries=ctx.queries, solver_s=round(ctx.solver_s, 4), decisions=ctx.decisions, sent=ctx.checks_sent,
                       concrete=ctx.checks_concrete, steps=ctx.steps - getattr(ctx, 'steps0', 0))
            if ctx.log_checks:
                rec['smt'] = ctx.log_checks
            forker.sh.add(0)
            forker.write(rec)
            if rec.get('violations'):
                forker.sh.add(1, len(rec['violations']))
                if forker.sh.get(1) >= forker.max_viol:
                    forker.sh.add(2)
        finally:
            if forker.own:
                try:
                    os.write(forker.wfd, b'T')
                except OSError:
                    pass
            os._exit(0)


def explore(cases, out_path, ncov, tier='quick', deadline=None, max_paths=200000, max_viol=12, tokens=TOKENS, log_checks=False):
    """cases: [(name, func, args)]; appends one JSON record per path to out_path"""
    libc = ctypes.CDLL(None, use_errno=True)
    libc.prctl(36, 1, 0, 0, 0)           # PR_SET_CHILD_SUBREAPER
    shared = Shared(ncov)
    rt.COV = shared.cov
    rfd, wfd = os.pipe()
    os.set_blocking(rfd, False)
    for _ in range(tokens):
        os.write(wfd, b'T')
    dr, dw = os.pipe()
    out = os.open(out_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND | os.O_TRUNC, 0o644)
    fk = Forker(shared, rfd, wfd, out, deadline or time.time() + 3600, max_paths, max_viol)
    gc.collect()
    gc.freeze()
    gc.disable()
    sys.stdout.flush()
    skipped = []

    def reap():
        try:
            while True:
                pid, st = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    break
                if st != 0:
                    fk.write({'case': '?', 'status': 'engine-error', 'detail': 'path process died: status %d' % st})
        except ChildProcessError:
            pass

    for name, func, args in cases:
        while not fk.token():
            reap()
            time.sleep(0.002)
        if shared.get(2) or time.time() > fk.deadline:
            os.write(wfd, b'T')
            skipped.append(name)
            continue
        pid = os.fork()
        if pid == 0:
            os.close(dr)
            fk.own = True
            # a case that runs away must not take the time of the others, nor the machine's memory
            fk.case_deadline = time.time() + CASE_SECONDS.get(tier, 300)
            resource.setrlimit(resource.RLIMIT_AS, (CASE_MEMORY, CASE_MEMORY))
            ctx = Ctx(fk)
            if log_checks:
                ctx.log_checks = []
            hsym.H.start(ctx, tier)
            run_case(ctx, fk, name, func, args, tier)
        reap()
    os.close(dw)
    # EOF on dr: no descendant is left
    os.set_blocking(dr, False)
    while True:
        try:
            if os.read(dr, 1) == b'':
                break
        except BlockingIOError:
            pass
        reap()
        time.sleep(0.005)
    reap()
    os.close(out)
    os.close(dr)
    os.close(rfd)
    os.close(wfd)
    recs = []
    with open(out_path) as f:
        for line in f:
            recs.append(json.loads(line))
    for n in skipped:
        recs.append({'case': n, 'status': 'budget', 'detail': 'not started', 'queries': 0, 'solver_s': 0.0, 'decisions': 0})
    cov = bytes(shared.cov)
    return recs, cov
