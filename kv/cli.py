"""Runs the real command line in a forked child (own cwd, environment, captured console), and reads its outputs."""
from __future__ import annotations

import os
import re
import signal
import sys
import traceback

from . import core

CRASH = 99      # the child raised an exception other than SystemExit


class Result:
    def __init__(self, status, out):
        self.status, self.out = status, out

    def __repr__(self):
        return f"exit status {self.status}: …{self.out[-1500:]}"


def preload():
    import klayout_pex.kpex_cli    # noqa: imported once, children are forked
    core.quiet()


def child(fn, cwd, env, out_path):
    """runs fn in a forked child; returns Result"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = CRASH
        try:
            signal.alarm(0)
            fd = os.open(out_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.chdir(cwd)
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            try:
                fn()
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    rc = os.waitstatus_to_exitcode(st)
    with open(out_path, errors='replace') as f:
        out = f.read()
    os.unlink(out_path)
    return Result(rc, out)


def kpex(argv, cwd='.', env=None, pre=None):
    """KpexCLI().main(['kpex', *argv]) in directory cwd; pre() is called in the child before"""
    preload()
    e = {'KPEX_KLAYOUT_EXE': '/bin/true', 'COLUMNS': '200'}
    e.update(env or {})

    def fn():
        import logging
        sys.argv = ['kpex', *argv]
        from klayout_pex.kpex_cli import KpexCLI
        if pre:
            pre()
        KpexCLI().main(['kpex', *argv])
        logging.shutdown()
    cwd = os.path.abspath(cwd)
    return child(fn, cwd, e, os.path.join(cwd, '.console'))


# ------------------------------------------------------------------------------------ readers

def read_csv(path):
    """-> list of (device, net1, net2, cap or None, res or None)"""
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    assert lines[-1] == '', 'no newline at the end'
    if lines[0] != 'Device;Net1;Net2;Capacitance [fF];Resistance [Ω]':
        raise core.Violation(f"unexpected CSV header {lines[0]!r}")
    out = []
    for l in lines[1:-1]:
        c = l.split(';')
        if len(c) == 4:
            c.append('')
        if len(c) != 5:
            raise core.Violation(f"CSV line with {len(c)} columns: {l!r}")
        out.append((c[0], c[1], c[2], float(c[3]) if c[3] else None, float(c[4]) if c[4] else None))
    return out


def _unescape(n):
    return re.sub(r'\\x([0-9a-fA-F]{2})', lambda m: chr(int(m[1], 16)), n).replace('\\', '')


_SUFFIX = {'f': 1e-15, 'p': 1e-12, 'n': 1e-9, 'u': 1e-6, 'm': 1e-3, 'k': 1e3, 'meg': 1e6, 'g': 1e9, 't': 1e12}


def _value(s):
    m = re.fullmatch(r'([-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?)([a-zA-Z]*)', s)
    if not m:
        raise core.Violation(f"SPICE value {s!r}")
    return float(m[1]) * (_SUFFIX[m[2].lower()] if m[2] else 1.0)


def read_spice(path):
    """-> {subckt: (pins, [(kind letter, name, nets, value or None, model or None, params)])}"""
    lines = []
    with open(path, encoding='utf-8') as f:
        for l in f.read().split('\n'):
            if l.startswith('+'):
                lines[-1] += ' ' + l[1:]
            elif l and not l.startswith('*'):
                lines.append(l)
    out, cur = {}, None
    for l in lines:
        w = l.split()
        k = w[0].lower()
        if k == '.subckt':
            cur = []
            out[w[1]] = ([_unescape(x) for x in w[2:]], cur)
        elif k.startswith('.end'):
            cur = None
        elif cur is None:
            raise core.Violation(f"SPICE line outside of .subckt: {l!r}")
        elif k[0] in 'cr':
            pos = [x for x in w[1:] if '=' not in x]
            iv = next((n for n in range(2, len(pos)) if re.match(r'[-+.0-9]', pos[n])), 2)
            nets = [_unescape(x) for x in pos[:iv]]
            val = pos[iv] if iv < len(pos) else None
            model = pos[iv + 1] if iv + 1 < len(pos) else None
            rest = w
            cur.append((k[0], w[0][1:], nets, None if val is None else _value(val), model,
                        [x for x in rest if '=' in x]))
        else:
            pos = [x for x in w[1:] if '=' not in x]
            cur.append((k[0], w[0][1:], [_unescape(x) for x in pos[:-1]], None, pos[-1], [x for x in w if '=' in x]))
    return out
