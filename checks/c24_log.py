"""C24: every message at or above the log level is shown and logged verbatim, whatever characters it contains; no message ends a run; no log
of an earlier run is lost or written to by another one."""
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
os.environ['COLUMNS'] = '3000'          # (read when the console is made)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, pylvs, rcx

chk = core.Check('C24', rule='every message over an alphabet of brackets, slashes, colons, percent signs … up to a length x function x log level x kind of console; every '
                 'special name in every place of a run x engine; every history of runs (good and failing) into one output directory')
T = chk.thorough
V = core.Violation
kdb = rcx.mods().kdb
cli.preload()
B = kdb.Box
SKY, IHP = pylvs.SKY, pylvs.IHP
ROOT = chk.wdir + '/c24'
os.makedirs(ROOT)
ANSI = re.compile(r'\x1b\][^\x1b\x07]*(?:\x1b\\|\x07)|\x1b\[[0-9;?]*[a-zA-Z]')
LEVEL = {'debug': 10, 'subproc': 12, 'info': 20, 'warning': 30, 'error': 40}
LEVELS = {'ALL': 0, 'DEBUG': 10, 'SUBPROCESS': 12, 'VERBOSE': 15, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}

# ------------------------------------------------------------------------------------------------ messages
CHILD = '''
import json, logging, sys
from klayout_pex import log
fn, level, msgs, plain, fmt = json.load(open(sys.argv[1]))
if level is not None:
    log.set_log_level(log.LogLevel[level])
    assert log.get_log_level() == log.LogLevel[level]
hs = []
for p, f in ((plain, None), (fmt, logging.Formatter('<%(levelname)s> %(message)s'))):
    h = logging.FileHandler(p, encoding='utf-8')
    h.setLevel(log.LogLevel.SUBPROCESS)
    if f:
        h.setFormatter(f)
    log.register_additional_handler(h)
    hs.append(h)
bad = []
for i, m in enumerate(msgs):
    sys.stdout.write('\\n@@%d@@\\n' % i)
    sys.stdout.flush()
    try:
        getattr(log, fn)(m)
    except BaseException as e:
        bad.append((m, repr(e)))
    sys.stdout.flush()
for h in hs:
    log.deregister_additional_handler(h)
getattr(log, fn)('after the end')
sys.stdout.write('\\n@@end@@\\n')
json.dump(bad, open(sys.argv[2], 'w'))
'''
ENVS = {'pipe': {}, 'colour': {'FORCE_COLOR': '1', 'TERM': 'xterm-256color'}, 'dumb': {'TERM': 'dumb'}, 'no colour': {'NO_COLOR': '1'},
        'latin-1': {'PYTHONIOENCODING': 'latin-1'}, 'ascii': {'PYTHONIOENCODING': 'ascii'}, 'C': {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}}


def squeeze(s):
    return re.sub(r'\s+', ' ', s)


def message_body(case):
    fn, level, env, msgs = case
    d = f"{ROOT}/m{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(f"{d}/in", 'w') as f:
        json.dump((fn, level, msgs, f"{d}/plain", f"{d}/fmt"), f)
    e = {k: v for k, v in os.environ.items() if k not in ('NO_COLOR', 'FORCE_COLOR', 'TERM', 'LC_ALL', 'LANG', 'PYTHONIOENCODING')}
    e.update({'PYTHONPATH': core.REPO, 'COLUMNS': '3000', 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', **ENVS[env]})
    r = subprocess.run([sys.executable, '-c', CHILD, f"{d}/in", f"{d}/out"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    what = f"{fn}, log level {level}, console {env}"
    if r.returncode != 0:
        raise V(f"{what}: the process ended with {r.returncode}: {r.stderr.decode('utf-8', 'replace')[-600:]}")
    bad = json.load(open(f"{d}/out"))
    if bad:
        raise V(f"{what}: the message {bad[0][0]!r} raised {bad[0][1]}")
    enc = {'latin-1': 'latin-1', 'ascii': 'ascii'}.get(env, 'utf-8')
    out = ANSI.sub('', r.stdout.decode(enc, 'replace'))
    shown = LEVEL[fn] >= LEVELS[level or 'SUBPROCESS']
    seg = re.split(r'\n@@(?:\d+|end)@@\n', out)
    if len(seg) != len(msgs) + 2:
        raise V(f"{what}: {len(seg)} parts of the output for {len(msgs)} messages")
    for m, s in zip(msgs, seg[1:]):
        if not shown:
            if s.strip():
                raise V(f"{what}: the message {m!r} is below the log level, but is shown: {squeeze(s)!r}")
            continue
        try:
            m.encode(enc)
            if env == 'C':
                m.encode('ascii')
        except UnicodeEncodeError:
            continue        # the console cannot show it
        pos, t = 0, s
        for line in m.split('\n'):
            if squeeze(line.strip()) not in squeeze(t):
                raise V(f"{what}: the message {m!r} is shown as {squeeze(s).strip()!r}")
        if '\n' not in m and len(m) > 2 and m[0] == m[-1] == 'Q' and squeeze(s).count(squeeze(m)) != 1:
            raise V(f"{what}: the message {m!r} is shown {squeeze(s).count(squeeze(m))} times: {squeeze(s)!r}")
        if m.startswith('a  ') and m not in s:
            raise V(f"{what}: blanks of the message {m!r} are lost: {s.strip()!r}")
    if env in ('pipe', 'ascii'):
        filed = shown and LEVEL[fn] >= 12
        for f, pre in (('plain', ''), ('fmt', f"<{ {'subproc': 'SUBPROCESS'}.get(fn, fn.upper())}> ")):
            have = open(f"{d}/{f}", encoding='utf-8', newline='').read()
            want = ''.join(f"{pre}{m}\n" for m in msgs) if filed else ''
            if have != want:
                k = next((i for i, (x, y) in enumerate(zip(have, want)) if x != y), min(len(have), len(want)))
                raise V(f"{what}: the log file ({f}) has {have[max(0, k - 40):k + 40]!r}, expected {want[max(0, k - 40):k + 40]!r}")
    shutil.rmtree(d)
    return {'messages': len(msgs)}, (fn, level, env)


ALPHA = '[/a]\\:%'
WORDS = ['', 'x', 'a  b', 'a  [b]  c', '[red]x[/red]', '[/]', '[link=http://a]b[/link]', '[bold', 'bold]', ':smile:', ':b:', '{0}', '{}', '%s %d', '100%', '%(x)s', '$x', '`', '"', "'", '<', '&amp;',
         'µ', 'Ω', 'ä', '世界', '😀', 'a' * 500, 'two\nlines', '[a]\n[/b]', '\\[b]', '\\\\[b]', '[@x]', '[#1]', '(\'a\', 1)', 'None', '/x/[y]/z', 'net[a](b)', 'TOP', '12:34:56', '0.1 fF', 'a\u00a0b', '  lead', 'trail  ', '\ttab', 'a\tb', ' ']


def messages():
    n = 5 if T else 4
    ms = [''.join(x) for k in range(1, n + 1) for x in itertools.product(ALPHA, repeat=k)]
    ms = [m for m in ms if m.strip()]
    batches = [ms[i:i + 400] for i in range(0, len(ms), 400)]
    quoted = [['Q' + m + 'Q' for m in b] for b in batches]
    for fn in ('subproc', 'info', 'warning', 'error'):
        for b in batches + quoted:
            yield (fn, None, 'pipe', b)
    words = [w for w in WORDS if w] + ['Q' + w + 'Q' for w in WORDS] + ms[:7 + 49]
    for fn in LEVEL:
        for env in ENVS:
            for level in [None, *LEVELS]:
                yield (fn, level, env, words)


if chk.replay is None or chk.replay.get('stage') == 'messages':
    chk.explore(messages(), message_body, stage='messages', chunk=2)

# ------------------------------------------------------------------------------------------------ names in runs
STUB = f'''#!{sys.executable} -IS
import os, re, sys
A = sys.argv[1:]
N = os.path.basename(sys.argv[0])
if os.environ.get('C24_FAIL'):
    print('tool failed')
    sys.exit(3)
if N in ('fastercap', 'fastcap'):
    lst = A[-1] if N == 'fastercap' else [a[2:] for a in A if a.startswith('-l')][-1]
    names = []
    for line in open(lst, encoding='utf-8'):
        w = line.split()
        if w and w[0] == 'C':
            for l in open(os.path.join(os.path.dirname(os.path.abspath(lst)), w[1]), encoding='utf-8'):
                if l.startswith('N '):
                    n = l.split(None, 2)[2].strip()
                    if n not in names:
                        names.append(n)
    k = len(names)
    row = lambda i: ' '.join('%g' % ((3.0 if i == j else -0.5) * (1e-15 if N == 'fastercap' else 1)) for j in range(k))
    print('[tool] says [/hi] :b: 100%')
    if N == 'fastercap':
        print('Running FasterCap\\nCapacitance matrix is:\\nDimension %d x %d' % (k, k))
        for i, n in enumerate(names):
            print('g%d_%s  %s ' % (i + 1, n, row(i)))
        print('\\nTotal time: 0.1s')
    else:
        print('CAPACITANCE MATRIX, picofarads\\n' + ' ' * 24 + ' '.join(str(i + 1) for i in range(k)))
        for i, n in enumerate(names):
            print('%s%%GROUP%d %d %s' % (n, i + 1, i + 1, row(i)))
        print('\\nTOTAL TIME: 0.01')
elif N == 'magic':
    s = open(A[-1], encoding='utf-8').read()
    d = os.path.dirname(os.path.abspath(A[-1]))
    c = re.search(r'__(.*)$', os.path.basename(os.path.dirname(d)))
    print('[tool] says [/hi] :b: 100%')
    for c in {{os.environ['C24_CELL']}}:
        open(d + '/%s.ext' % c, 'w').write('timestamp 0\\nversion 8.3\\ntech x\\nscale 1000 1 0.5\\nnode "x" 10 20 0 1 m1 0 0\\n')
        open(d + '/%s.pex.spice' % c, 'w').write('* Magic [/x]\\n.subckt %s x y\\nC0 x y 3fF\\n.ends\\n' % c)
elif N == 'klayout':
    o = dict(a.split('=', 1) for a in A if '=' in a)
    print('[tool] says [/hi] :b: 100%')
    open(o['report'], 'wb').write(open(os.environ['C24_DB'], 'rb').read())
sys.stdout.write('cut of[f]')
'''
for t_ in ('fastercap', 'fastcap', 'magic', 'klayout'):
    with open(f"{ROOT}/{t_}", 'w') as f_:
        f_.write(STUB)
    os.chmod(f"{ROOT}/{t_}", 0o755)
with open(f"{ROOT}/magicrc", 'w') as f_:
    f_.write('# rc\n')
ENV = {f"KPEX_{t.upper()}_EXE": f"{ROOT}/{t}" for t in ('fastercap', 'fastcap', 'magic', 'klayout')}
FLAG = {'2.5D': '--2.5D', 'fastercap': '--fastercap', 'fastcap': '--fastcap', 'magic': '--magic'}
SPECIAL = ['plain', 'a[b]', '[b]', 'a[/b]', '[/b]', '[/]', '[red]', ':b:', 'x:smile:y', '100%', '%s', '{0}', 'b[0]', '[0', ']', 'µ', '[link=x]', '[@a]', '[#a]', 'a[b/c]d', "it's"]


def loud():
    from klayout_pex.log import set_log_level, LogLevel
    set_log_level(LogLevel.SUBPROCESS)


def build(d, pdk, name, net, cell):
    """layout and LVS database below directory d"""
    os.makedirs(d, exist_ok=True)
    a, b = pylvs.LEVELS[pdk][1][0], pylvs.LEVELS[pdk][2][0]
    boxes = {a: [B(0, 0, 5000, 1000), B(0, 1500, 5000, 2500)], b: [B(1000, -500, 1800, 3500)]}
    pylvs.make(pdk, boxes, [(a, net, 100, 100), (a, 'y', 100, 2000), (b, 'z', 1200, 0)], cell=cell, path=f"{d}/{name}.lvsdb.gz")
    ly = kdb.Layout()
    c = ly.create_cell(cell)
    c.shapes(ly.layer(*((66, 20) if pdk == SKY else (8, 0)))).insert(B(0, 0, 100, 100))
    ly.write(f"{d}/{name}.gds")


def shown_all(con, path, what):
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    con = squeeze(con)
    for l in lines:
        if squeeze(l.strip()) not in con:
            raise V(f"{what}: the line {l!r} of {os.path.basename(path)} is not on the console")
    return len(lines)


def run_body(case):
    pdk, engine, mode, place, s = case
    d = f"{ROOT}/r{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    if place in ('gds dir', 'out dir') and s.startswith('/'):
        return {}, None
    sub = f"{d}/{s}" if place == 'gds dir' else f"{d}/in"
    name = s.replace('/', '_') if place == 'file' else 't'
    cell = s if place == 'cell' else 'TOP'
    net = s if place == 'net' else 'x'
    out = f"{d}/{s}" if place == 'out dir' else f"{d}/out"
    build(sub, pdk, name, net, cell)
    a = ['--pdk', pdk, '--out_dir', out, FLAG[engine]]
    if engine == '2.5D':
        a += ['--mode', 'RC']
    a += ['--gds', f"{sub}/{name}.gds", '--cache-lvs', 'false'] if mode == 'gds' else ['--lvsdb', f"{sub}/{name}.lvsdb.gz"]
    if engine == 'magic':
        a += ['--magicrc', f"{ROOT}/magicrc"]
    what = f"{pdk}, {engine}, {mode} input, {place} {s!r}"
    r = cli.kpex(a, d, {**ENV, 'C24_CELL': cell, 'C24_DB': f"{sub}/{name}.lvsdb.gz"}, pre=loud)
    if 'MarkupError' in r.out or 'UnicodeEncodeError' in r.out:
        raise V(f"{what}: {r}")
    if r.status != 0:
        raise V(f"{what}: {r}")
    logs = [os.path.join(p, f) for p, _, fs in os.walk(out) for f in fs if f == 'kpex_plain.log']
    if len(logs) != 1:
        raise V(f"{what}: log files {logs}")
    n = shown_all(r.out, logs[0], what)
    con = squeeze(r.out)
    if engine in ('2.5D', 'fastercap') and place == 'net' and mode == 'lvsdb':
        with open(logs[0], encoding='utf-8') as f:
            if f.read().count(s) < 2:
                raise V(f"{what}: the net is not named in the log")
    if place in ('gds dir', 'out dir', 'file') and cli_quote(a) not in con:
        raise V(f"{what}: the command line is not shown verbatim")
    if engine != '2.5D' or mode == 'gds':
        with open(logs[0], encoding='utf-8') as f:
            log = f.read()
        for l in ('[tool] says [/hi] :b: 100%', 'cut of[f]'):
            if l not in con or l + '\n' not in log:
                raise V(f"{what}: the line {l!r} of the output of the tool is not {'shown' if l not in con else 'logged'} verbatim")
    shutil.rmtree(d)
    return {'runs': 1, 'lines': n}, (engine, mode, place)


def cli_quote(a):
    import shlex
    return squeeze(' '.join(map(shlex.quote, ['kpex', *a])))


def runs():
    for pdk in (SKY, IHP):
        for engine in FLAG:
            for mode in ('gds', 'lvsdb'):
                if engine == 'magic' and mode == 'lvsdb':
                    continue
                for place in ('net', 'cell', 'gds dir', 'out dir', 'file'):
                    if pdk == IHP and not T and place not in ('net', 'gds dir'):
                        continue
                    for s in SPECIAL:
                        if place == 'cell' and ('/' in s or s in UNCELL):
                            continue
                        if place == 'net' and engine != '2.5D' and s in UNNET:
                            continue
                        yield (pdk, engine, mode, place, s)


def results_of(out):
    res = {}
    for p, _, fs in os.walk(out):
        for f in fs:
            if not f.endswith('.log') and not f.endswith(('.gds', '.gds.gz', '.oas', '.lvsdb.gz')):
                with open(os.path.join(p, f), 'rb') as fh:
                    res[os.path.relpath(os.path.join(p, f), out)] = fh.read().replace(out.encode(), b'<OUT>')
    return res


_ref = {}


def console_body(case):
    engine, net, env, level = case

    def run(env, d):
        shutil.rmtree(d, ignore_errors=True)
        build(f"{d}/in", SKY, 't', net, 'TOP')
        a = ['--pdk', SKY, '--out_dir', f"{d}/out", FLAG[engine], *(['--log_level', level] if level else [])]
        a += ['--gds', f"{d}/in/t.gds", '--magicrc', f"{ROOT}/magicrc"] if engine == 'magic' else ['--lvsdb', f"{d}/in/t.lvsdb.gz"]
        e = {k: v for k, v in os.environ.items() if k not in ('NO_COLOR', 'FORCE_COLOR', 'TERM', 'LC_ALL', 'LANG', 'PYTHONIOENCODING')}
        e.update({'PYTHONPATH': core.REPO, 'COLUMNS': '3000', 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'C24_CELL': 'TOP', 'C24_DB': f"{d}/in/t.lvsdb.gz", **ENV, **ENVS[env]})
        r = subprocess.run([sys.executable, '-m', 'klayout_pex', *a], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise V(f"{engine}, net {net!r}, console {env}, log level {level}: exit status {r.returncode}: …{r.stdout.decode('utf-8', 'replace')[-700:]}")
        with open(f"{d}/out/t__TOP/kpex_plain.log", encoding='utf-8') as f:
            log = re.sub(r'(after|over) [0-9.e-]+ ?s', 'after Ns', f.read().replace(d, '<D>'))
        return results_of(f"{d}/out"), log
    d = f"{ROOT}/c{os.getpid()}"
    if (engine, net, level) not in _ref:
        _ref[engine, net, level] = run('pipe', d)
    want, wlog = _ref[engine, net, level]
    have, log = run(env, d)
    what = f"{engine}, net {net!r}, console {env}, log level {level}"
    if set(have) != set(want):
        raise V(f"{what}: result files {sorted(set(have) ^ set(want))[:5]} differ")
    for f in want:
        if have[f] != want[f] and not (f.endswith('.tcl') or 'Output' in f or 'magic' in f or f.endswith('.rdb.gz')):
            raise V(f"{what}: the result file {f} differs from the one with a UTF-8 console")
    if log != wlog:
        k = next((i for i, (x, y) in enumerate(zip(log, wlog)) if x != y), min(len(log), len(wlog)))
        raise V(f"{what}: the log file differs: {log[max(0, k - 60):k + 60]!r} / {wlog[max(0, k - 60):k + 60]!r}")
    shutil.rmtree(d)
    return {'runs': 1}, (engine, env, level)


def consoles():
    nets = ('x', '\u00b5', '\u4e16[b]') if not T else ('x', '\u00b5', '\u00e4[b]', '\u4e16[b]', '[/b]', '\U0001f600')
    for c in itertools.product(FLAG, nets, ENVS, (None, 'error') if not T else (None, 'all', 'debug', 'info', 'error')):
        if c[2] != 'C' or c[1].isascii():       # (no file name outside of ASCII is possible then)
            yield c


chk.explore(consoles(),
            console_body, stage='consoles', chunk=2)
UNCELL = {'\u00b5'}        # (KLayout's case folding of circuit names outside of ASCII)
UNNET = set()
chk.explore(runs(), run_body, stage='runs', chunk=8)

# ------------------------------------------------------------------------------------------------ histories of log files
KINDS = ('good', 'tool fails', 'file missing', 'input missing', 'other file', 'no cell')


def argv_of(kind, i, d):
    m = f"mark{i}m"
    f = 'u' if kind == 'other file' else 't'
    build(f"{d}/in{i}", SKY, f, m, 'TOP')
    a = ['--pdk', SKY, '--out_dir', f"{d}/out", '--lvsdb', f"{d}/in{i}/{f}.lvsdb.gz"]
    if kind in ('good', 'other file'):
        return a + ['--2.5D']
    if kind == 'no cell':
        return a + ['--2.5D', '--cell', m]
    if kind == 'tool fails':
        return a + ['--fastercap']
    if kind == 'file missing':
        return a[:-2] + ['--gds', f"{d}/in{i}/t.gds", '--magic', '--magicrc', f"/none/{m}"]
    return a[:-1] + [f"{d}/{m}/none.lvsdb", '--2.5D']


def logs_of(d):
    res = {}
    for p, _, fs in os.walk(f"{d}/out"):
        for f in fs:
            if f.endswith('.log') and 'kpex' in f:
                with open(os.path.join(p, f), encoding='utf-8') as fh:
                    res[os.path.relpath(os.path.join(p, f), f"{d}/out")] = fh.read()
    return res


def history_body(case):
    kinds, how = case
    d = f"{ROOT}/h{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = {**ENV, 'C24_FAIL': '1'}
    argvs = [argv_of(k, i, d) for i, k in enumerate(kinds)]
    what = f"runs {kinds} ({how})"
    if how == 'one process':
        def fn():
            import logging
            from klayout_pex.kpex_cli import KpexCLI
            st, snaps = [], []
            for a in argvs:
                loud()
                sys.argv = ['kpex', *a]
                try:
                    KpexCLI().main(['kpex', *a])
                    st.append(0)
                except SystemExit as e:
                    st.append(e.code or 0)
                except Exception:
                    st.append(99)
                snaps.append(logs_of(d))
            with open(f"{d}/res", 'w') as f:
                json.dump((st, snaps), f)
            logging.shutdown()
        r = cli.child(fn, d, env, f"{d}/console")
        if r.status != 0:
            raise V(f"{what}: {r}")
        with open(f"{d}/res") as f:
            st, snaps = json.load(f)
    else:
        st, snaps = [], []
        for a in argvs:
            r = cli.kpex(a, d, env, pre=loud)
            st.append(r.status)
            snaps.append(logs_of(d))
    before = {}
    for i, (k, s, now) in enumerate(zip(kinds, st, snaps)):
        w = f"{what}, run {i + 1} ({k})"
        if (s == 0) != (k in ('good', 'other file')):
            raise V(f"{w}: exit status {s}")
        m = f"mark{i}m"
        for stem in ('kpex_plain', 'kpex'):
            mine = [f for f, t in now.items() if re.fullmatch(rf"(?:.*/)?{stem}(?:_\d{{4}}-.*)?\.log", f) and m in t]
            at = {'other file': 'u__TOP/', 'input missing': ''}.get(k, 't__TOP/') + stem + '.log'
            if mine != [at]:
                raise V(f"{w}: its messages are in {mine}, expected in {at}")
        # nothing of the earlier runs is lost or changed (the log of a run that has no output directory yet is continued by the next one)
        left = dict(now)
        for f, t in sorted(before.items(), key=lambda x: -len(x[1])):
            base = '/' not in f
            g = next((g for g, u in left.items() if u == t and g.rsplit('/', 1)[0] == f.rsplit('/', 1)[0]), None)
            if g is None and base:
                g = next((g for g, u in left.items() if u.startswith(t)), None)
            if g is None:
                raise V(f"{w}: the log {f} of an earlier run is gone or changed; there are {sorted(now)}")
            del left[g]
        before = now
    shutil.rmtree(d)
    return {'runs': len(kinds)}, (kinds, how)


def histories():
    for n in range(1, 4 if not T else 5):
        for h in itertools.product(KINDS, repeat=n):
            for how in ('one process', 'several processes'):
                yield (h, how)


chk.explore(histories(), history_body, stage='histories', chunk=4)
chk.finish()
