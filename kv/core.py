"""Common machinery of all checks: building /repo's generated files, importing the code under test
quietly, exhaustive enumeration over a process pool, violations / known findings / evidence files."""
from __future__ import annotations

import argparse
import concurrent.futures as futures
from concurrent.futures import process
import fcntl
import hashlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
PB = os.path.join(REPO, 'klayout_pex_protobuf')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
NPROC = max(1, min(8, os.cpu_count() or 1))


# ---------------------------------------------------------------------------------------- build

def _sources_sha():
    h = []
    for root in ('protos', 'cxx'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                h.append(os.path.join(d, f))
    h.append(os.path.join(REPO, 'CMakeLists.txt'))
    out = []
    for f in sorted(h):
        with open(f, 'rb') as fh:
            out.append(f"{hashlib.sha256(fh.read()).hexdigest()}  {f}")
    return sorted(out)


def _is_built():
    stamp = os.path.join(REPO, 'build', 'kpex_offline', 'sources.sha256')
    try:
        with open(stamp) as f:
            have = sorted(line.rstrip('\n') for line in f)
    except OSError:
        return False
    if have != _sources_sha():
        return False
    for t in ('sky130A', 'ihp_sg13g2'):
        if not os.path.isfile(os.path.join(PB, f'{t}_tech.pb.json')):
            return False
    for d, _, fs in os.walk(os.path.join(REPO, 'protos')):
        for f in fs:
            if f.endswith('.proto'):
                rel = os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'protos'))[:-6] + '_pb2.py'
                if not os.path.isfile(os.path.join(PB, rel)):
                    return False
    return True


def ensure_build():
    """Brings the generated part of /repo (protobuf modules, *_tech.pb.json; all git-ignored) up to date
    with the working tree, with the project's own offline build script."""
    with open('/tmp/.kv_build.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if _is_built():
            return
        r = subprocess.run(['bash', '/opt/vp/gen.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            print('ERROR: /repo does not build')
            sys.exit(2)


# ---------------------------------------------------------------------------------------- imports

def setup_imports():
    for v in ('KPEX_FASTCAP_EXE', 'KPEX_FASTERCAP_EXE', 'KPEX_KLAYOUT_EXE', 'KPEX_MAGIC_EXE', 'PDKPATH', 'PDK'):
        os.environ.pop(v, None)
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.path.insert(0, REPO)


def quiet():
    """Silences console logging of the code under test (levels are public API of klayout_pex.log)."""
    from klayout_pex.log import set_log_level, LogLevel
    set_log_level(LogLevel.CRITICAL if hasattr(LogLevel, 'CRITICAL') else LogLevel.ERROR)


class Scratch:
    def __init__(self, name='kv'):
        self.path = tempfile.mkdtemp(prefix=f'{name}_')

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------------------------------- findings

def known_findings(prop):
    """known_findings.jsonl: one object per line {property, key, status, what}. status 'known' suppresses
    exactly the violation whose key equals `key`; lines with status 'fixed' suppress nothing."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                o = json.loads(line)
                if o.get('property') == prop and o.get('status') == 'known':
                    out[o['key']] = o['what']
    return out


class Violation(Exception):
    """Raised by a check body. key identifies the failing input/call site (for known findings)."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(Violation):
    pass


class HarnessError(Exception):
    pass


def _hook(t, v, tb):
    traceback.print_exception(t, v, tb)
    print('ERROR: the check itself failed')
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(2)


sys.excepthook = _hook


def _alarm(signum, frame):
    raise Hang(f'no result after {CASE_TIMEOUT} s (such a case takes well below a second)')


CASE_TIMEOUT = 120
STALL = 200                # (no worker came back for so long: a call into a library does not return)


def _touches_repo(tb):
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith(REPO + '/'):
            return True
    return False


def _unreadable(e):
    """The readers of this machinery are total on well-formed output (the unchanged tree shows that on every
    case); if one of them stumbles over a value, the output is not well-formed. Errors that point at the binding
    to the code (missing attributes or modules, other signatures) or at the sandbox are not of that kind."""
    if isinstance(e, (ValueError, LookupError, ArithmeticError, StopIteration)):
        return True
    return isinstance(e, (TypeError, AttributeError)) and 'NoneType' in str(e)


# ---------------------------------------------------------------------------------------- runner

_BODY = None
_KNOWN = frozenset()


def _chunk(args):
    """Runs the body on a chunk of cases; returns (n, counters, outcomes, violations, samples)."""
    cases, wdir, keep = args
    n = 0
    cnt = Counter()
    outcomes = set()
    viol = []
    known = {}
    samples = []
    d = tempfile.mkdtemp(prefix='w_', dir=wdir)
    old = os.getcwd()
    os.chdir(d)
    try:
        for case in cases:
            n += 1
            try:
                signal.signal(signal.SIGALRM, _alarm)
                signal.alarm(CASE_TIMEOUT)
                try:
                    r = _BODY(case)
                finally:
                    signal.alarm(0)
            except Violation as e:
                if e.key is not None and e.key in _KNOWN:
                    known.setdefault(e.key, (case, str(e), e.key))     # (one of each is enough)
                    continue
                viol.append((case, str(e), e.key))
                if len(viol) >= keep:
                    break
                if isinstance(e, Hang):
                    viol.extend(viol[-1:] * (keep - len(viol)))      # (ends the stage)
                    break
                continue
            except (KeyboardInterrupt, HarnessError):
                raise
            except BaseException as e:
                tb = sys.exc_info()[2]
                if _touches_repo(tb) or isinstance(e, SystemExit):
                    viol.append((case, 'the code under test raised ' +
                                 ''.join(traceback.format_exception_only(type(e), e)).strip() + '\n' +
                                 ''.join(traceback.format_tb(tb)[-4:]), None))
                    if len(viol) >= keep:
                        break
                    continue
                if _unreadable(e):
                    viol.append((case, 'the output of the code under test cannot be interpreted: ' +
                                 ''.join(traceback.format_exception_only(type(e), e)).strip() + '\n' +
                                 ''.join(traceback.format_tb(tb)[-3:]), None))
                    if len(viol) >= keep:
                        break
                    continue
                raise
            if r is not None:
                c, outcome = r
                cnt.update(c)
                if outcome is not None:
                    outcomes.add(outcome)
                    if len(samples) < 1:
                        samples.append((case, repr(outcome)[:300]))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    return n, cnt, outcomes, viol + list(known.values()), samples


def _chunk_safe(a):
    try:
        return _chunk(a)
    except BaseException as e:
        return ('ERR', ''.join(traceback.format_exception(e)))


def _spread(chunks, nproc, absorb, enough):
    """Runs the chunks in nproc forked workers. Returns None, or the chunks that were under way when a worker died."""
    ex = futures.ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork'))
    todo = {}
    end = False
    try:
        while True:
            while not end and len(todo) < 3 * nproc:
                c = next(chunks, None)
                if c is None:
                    end = True
                else:
                    todo[ex.submit(_chunk_safe, c)] = c
            if not todo:
                return None
            t = time.time()
            done, _ = futures.wait(todo, timeout=STALL, return_when=futures.FIRST_COMPLETED)
            if os.environ.get('KV_STALL'):
                print('waited', round(time.time() - t, 1), flush=True)
            if not done:
                return STALL
            for f in done:
                r = f.result()
                del todo[f]
                absorb(r)
            if enough():
                return None
    except process.BrokenProcessPool:
        return list(todo.values())
    finally:
        for p in list((ex._processes or {}).values()):
            if not end or todo:
                p.kill()
        ex.shutdown(wait=True, cancel_futures=True)


def _forked(args, body=None):
    """runs a chunk in a process of its own; returns the signal that killed it, or 0"""
    global _BODY
    if body is not None:
        _BODY = body
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            _chunk_safe(args)
        finally:
            os._exit(0)
    st = os.waitpid(pid, 0)[1]
    return os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0


def _killer(chunks):
    """the case that kills the process running it, and the signal"""
    sig = 0
    for cases, wdir, keep in chunks:
        if not _forked((cases, wdir, keep)):
            continue
        for c in cases:
            sig = _forked(([c], wdir, keep))
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                return c, sig
    return None, sig


class Check:
    """One property check. Usage:

        chk = Check('C01', level='exploration', rule='...')
        chk.explore(cases, body)     # body(case) -> (Counter-like, outcome) | raises Violation
        chk.finish()
    """

    def __init__(self, prop, level='exploration', rule='', assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument('--replay', default=None)
        ap.add_argument('--thorough', action='store_true')
        ap.add_argument('--nproc', type=int, default=NPROC)
        a, _ = ap.parse_known_args()
        self.tier = 'thorough' if a.thorough else TIER
        self.thorough = self.tier == 'thorough'
        self.nproc = a.nproc
        self.replay = None
        if a.replay:
            with open(a.replay) as f:
                self.replay = json.load(f)
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.n = 0
        self.counters = Counter()
        self.outcomes = set()
        self.viol = []
        self.errors = 0
        self.samples = []
        self.extra = {}
        self.known = known_findings(prop)
        self.known_hit = {}
        self.wdir = tempfile.mkdtemp(prefix=f'kv_{prop}_')
        os.environ['TMPDIR'] = self.wdir
        tempfile.tempdir = self.wdir
        ensure_build()
        setup_imports()

    # -------------------------------------------------------------------------------------
    def explore(self, cases, body, stage='main', chunk=64, parallel=True, keep=3):
        """Runs body on every case of the (finite) iterable; nothing is sampled or skipped unless a
        violation was found (then the exploration of this stage stops)."""
        global _BODY, _KNOWN
        _KNOWN = frozenset(self.known)
        if self.replay is not None:
            if self.replay.get('stage') != stage:
                return
            cases = [_untuple(self.replay['case'])]
            parallel = False
            sig = _forked((cases, self.wdir, keep), body)
            if sig:
                self.add_violation(stage, cases[0], f"the process is killed by signal {sig} while it runs this case")
                return
        elif self.viol:
            return                # (the run has failed already)
        _BODY = body
        t = time.time()
        n0 = self.n
        sys.stdout.flush()

        def chunks():
            buf = []
            for c in cases:
                buf.append(c)
                if len(buf) >= chunk:
                    yield (buf, self.wdir, keep)
                    buf = []
            if buf:
                yield (buf, self.wdir, keep)

        def absorb(r):
            if r[0] == 'ERR':
                # (a worker stumbled; what the others find still counts, else the check gives no answer)
                print(r[1])
                self.errors += 1
                return
            n, cnt, outcomes, viol, samples = r
            self.n += n
            self.counters.update(cnt)
            self.outcomes.update((stage, o) for o in outcomes)
            if len(self.samples) < 12:
                self.samples.extend({'stage': stage, 'case': _jsonable(c), 'outcome': o} for c, o in samples[:1])
            for case, msg, key in viol:
                self.add_violation(stage, case, msg, key)

        if parallel and self.nproc > 1:
            dead = _spread(chunks(), self.nproc, absorb, lambda: len(self.viol) + self.errors >= keep)
            if dead is STALL and not self.viol:
                self.add_violation(stage, (), f"no case was finished in {STALL} s (one takes well below a second)")
            elif dead is not None and not self.viol:
                case, st = _killer(dead)
                if case is None:
                    print(f"a worker died ({st})")
                    self.errors += 1
                else:
                    self.add_violation(stage, case, f"the process is killed by signal {st} while it runs this case")
        else:
            for c in chunks():
                absorb(_chunk_safe(c))
                if len(self.viol) + self.errors >= keep:
                    break
        self.extra.setdefault('stages', {})[stage] = {'evaluations': self.n - n0,
                                                      'wall_s': round(time.time() - t, 2)}
        print(f"[{self.prop}] stage {stage}: {self.n - n0} cases, {round(time.time() - t, 1)} s", flush=True)

    def count(self, n=1, outcome=None, **cnt):
        self.n += n
        self.counters.update(cnt)
        if outcome is not None:
            self.outcomes.add(('direct', outcome))

    def add_violation(self, stage, case, msg, key=None):
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, (stage, case, msg))
            return
        self.viol.append((stage, case, msg))
        if os.environ.get('KV_FAST'):        # (for experiments: the first violation ends the run)
            print(f"  stage {stage}, case {repr(case)[:300]}\n  {msg[:600]}\nVIOLATION property={self.prop} (KV_FAST)",
                  flush=True)
            shutil.rmtree(self.wdir, ignore_errors=True)
            os.killpg(0, 9)

    # -------------------------------------------------------------------------------------
    def finish(self, nontrivial=None, states=None, transitions=None, traces=None, exhaustive=True):
        wall = round(time.time() - self.t0, 2)
        if self.replay is None:
            ev = os.path.join(VERIF, 'evidence')
            os.makedirs(ev, exist_ok=True)
            cov = {
                'evaluations': int(self.n),
                'distinct_nontrivial': int(len(self.outcomes) if nontrivial is None else nontrivial),
                'rule': self.rule,
                'samples': self.samples[:8] or ['(none)'],
                'exhaustive': bool(exhaustive and not self.viol and not self.errors),
                'counters': {k: int(v) for k, v in sorted(self.counters.items())},
            }
            if states is not None:
                cov['states'] = int(states)
                cov['transitions'] = int(transitions)
                cov['traces_validated_against_impl'] = int(traces)
            cov.update(self.extra)
            doc = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': self.level,
                   'coverage': cov, 'assumptions': self.assumptions, 'wall_s': wall,
                   'violations': len(self.viol)}
            with open(os.path.join(ev, f'{self.prop}.json'), 'w') as f:
                json.dump(doc, f, indent=1, default=str)
        shutil.rmtree(self.wdir, ignore_errors=True)
        if self.errors and not self.viol:
            raise HarnessError('harness error in a worker')
        for key, what in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {what}"
                  + ('' if key in self.known_hit else ' (not reached in this run)'))
        print(f"[{self.prop}] {self.tier}: {self.n} evaluations, {len(self.outcomes)} distinct outcomes, "
              f"{wall} s, {len(self.viol)} violation(s)")
        if os.environ.get('KV_ALL'):
            for v in self.viol:
                print('  *', v[0], repr(v[1])[:200], '\n     ', v[2][:int(os.environ['KV_ALL'])])
        if self.viol:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f'{self.prop}.json')
            stage, case, msg = min(self.viol, key=lambda v: len(repr(v[1])))
            if self.replay is None:
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'stage': stage, 'case': _jsonable(case), 'message': msg},
                              f, indent=1, default=str)
            print(f"  stage {stage}, case {repr(case)[:1500]}")
            print('  ' + msg[:3000].replace('\n', '\n  '))
            print(f"VIOLATION property={self.prop} replay={path}")
            sys.exit(1)
        if self.n == 0 and self.replay is None:
            print('ERROR: nothing was explored')
            sys.exit(2)
        sys.exit(0)


def _jsonable(x):
    if isinstance(x, (tuple, list)):
        return [_jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def _untuple(x):
    if isinstance(x, list):
        return tuple(_untuple(i) for i in x)
    if isinstance(x, dict):
        return {k: _untuple(v) for k, v in x.items()}
    return x


def close(a, b, rel=1e-9, ab=1e-12):
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))
