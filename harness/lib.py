"""Common machinery: running TLC, the tile codec, talking to the code under test, verdicts and evidence."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CORES = os.cpu_count() or 8
PARENT_PID = os.getpid()

CODE_ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYGAME_HIDE_SUPPORT_PROMPT='1', SDL_VIDEODRIVER='dummy',
                OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', LANG='C.UTF-8', PYTHONPATH=REPO, PYTHONWARNINGS='ignore')


class MachineryError(Exception):
    """The check itself failed (never a verdict about the code)."""


class Violation(Exception):
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what = what
        self.data = data


SCRATCH = None
_scratch_lock = threading.Lock()


def scratch():
    global SCRATCH
    with _scratch_lock:
        if SCRATCH is None:
            SCRATCH = tempfile.mkdtemp(prefix='verif-')
        return SCRATCH


def fresh_dir(name='d'):
    return tempfile.mkdtemp(prefix=name + '-', dir=scratch())


# --------------------------------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, out, states, distinct, depth, wall):
        self.out, self.states, self.distinct, self.depth, self.wall = out, states, distinct, depth, wall

    def tagged(self, tag):
        """Values printed by the specification with PrintT("@tag " \\o ToJson(value))."""
        pre = '"@%s ' % tag
        for line in self.out.splitlines():
            if line.startswith(pre):
                body = line[len(pre):-1]
                yield json.loads(body.replace('\\"', '"') if '\\"' in body else body)

    def seqs(self, tag):
        for v in self.tagged(tag):
            yield v

    jsons = seqs


class Stats:
    def __init__(self):
        self.lock = threading.Lock()
        self.states = 0
        self.distinct = 0
        self.runs = 0

    def add(self, r):
        with self.lock:
            self.states += r.states
            self.distinct += r.distinct
            self.runs += 1


STATS = Stats()


def run_tlc(module, cfg, env=None, workers=2, timeout=600, args=(), heap='2g', expect_ok=True):
    """Runs TLC on spec/<module>.tla with the configuration text or file name `cfg`."""
    work = fresh_dir('tlc')
    if '\n' in cfg:
        cfg_path = os.path.join(work, module + '.cfg')
        with open(cfg_path, 'w') as f:
            f.write(cfg)
    else:
        cfg_path = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + work, '-cp', TLA_CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', work, '-noGenerateSpecTE', '-config', cfg_path, *map(str, args), module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out: %s' % module)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out = p.stdout.decode('utf-8', 'replace')
    if expect_ok and p.returncode != 0:
        raise MachineryError('TLC failed on %s (rc %d):\n%s' % (module, p.returncode, out[-4000:]))
    m = ([None] + list(re.finditer(r'^(\d+) states generated.*?(\d+) distinct states found', out, re.M)))[-1]
    d = re.search(r'depth of the complete state graph search is (\d+)', out)
    m2 = ([None] + list(re.finditer(r'The number of states generated: (\d+)', out)))[-1]
    states, distinct = (int(m.group(1)), int(m.group(2))) if m else ((int(m2.group(1)),) * 2 if m2 else (0, 0))
    r = TLCResult(out, states, distinct, int(d.group(1)) if d else 0, time.time() - t0)
    r.rc = p.returncode
    STATS.add(r)
    return r


def write_json(data, name='in.json'):
    fd, path = tempfile.mkstemp(suffix='-' + name, dir=scratch())
    with os.fdopen(fd, 'w') as f:
        json.dump(data, f)
    return path


def parallel(jobs, n=None):
    """Runs thunks concurrently and returns their results in order."""
    with cf.ThreadPoolExecutor(n or max(2, CORES // 2)) as ex:
        fs = [ex.submit(j) for j in jobs]
        try:
            return [f.result() for f in fs]
        except BaseException:
            for f in fs:
                f.cancel()
            raise


_PMAP = None


class CodeError(Exception):
    """An exception raised by the code under test in a worker process."""


def _pmap_call(i):
    fn, items = _PMAP
    try:
        return ('ok', fn(items[i]))
    except Violation as v:
        return ('violation', (v.what, v.data))
    except BaseException as e:
        return ('code' if in_repo(e) else 'error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))


def pmap(fn, items, n=None):
    """fn over items in forked worker processes; results in order."""
    global _PMAP
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    _PMAP = (fn, items)
    with mp.get_context('fork').Pool(min(n or CORES, len(items))) as pool:
        res = pool.map(_pmap_call, range(len(items)), chunksize=1)
    out = []
    for kind, v in res:
        if kind == 'ok':
            out.append(v)
        elif kind == 'violation':
            raise Violation(*v)
        elif kind == 'code':
            raise Violation('the code under test raised %s' % v.splitlines()[0], {'traceback': v})
        else:
            raise MachineryError(v)
    return out


# --------------------------------------------------------------------------------------------------- tiles
EMPTY, BELT, UGIN, UGOUT, SPLIT = range(5)
NONE = 4


def _tiles():
    res = [(EMPTY, NONE, NONE, False)]
    for i in range(4):
        for k in (0, 1, 3):
            res.append((BELT, i, (i + k) % 4, False))
    res += [(UGIN, d, NONE, False) for d in range(4)]
    res += [(UGOUT, NONE, d, False) for d in range(4)]
    for d in range(4):
        for h in (False, True):
            res += [(SPLIT, d, d, h), (SPLIT, d, NONE, h), (SPLIT, NONE, d, h)]
    return res


TILES = _tiles()
TILE_ID = {t: i for i, t in enumerate(TILES)}
ALL_TILES = list(range(45))
NO_SPLIT = list(range(21))
SIMPLE = {0: '.', 13: 'l', 14: 'i', 15: 'j', 16: 'k', 17: 'L', 18: 'I', 19: 'J', 20: 'K'}


def tile_dir(t):
    k, i, o, h = TILES[t]
    return i if k != BELT and i != NONE else o


def cell_id(cell):
    """The tile id of an emitted JSON cell from its raw fields; None if the fields are inconsistent."""
    kinds = [cell['is_empty'], cell['is_belt'], cell['is_underground_in'], cell['is_underground_out'], cell['is_splitter']]
    if sum(map(bool, kinds)) != 1:
        return None
    k = kinds.index(True)
    i = NONE if cell['input_direction'] is None else cell['input_direction']
    o = NONE if cell['output_direction'] is None else cell['output_direction']
    return TILE_ID.get((k, i, o, bool(cell['is_splitter_head'])))


def tile_json(t):
    """The 'tile' field the id corresponds to."""
    k, i, o, h = TILES[t]
    if k == EMPTY:
        return {'type': 'empty'}
    if k == BELT:
        return {'type': 'belt', 'input_direction': i, 'output_direction': o}
    if k in (UGIN, UGOUT):
        return {'type': 'underground_belt', 'direction': tile_dir(t), 'is_input': k == UGIN}
    return {'type': 'splitter', 'direction': tile_dir(t), 'is_head': h}


GLYPH = {}


def show(layout, w):
    """A layout as readable text for reports."""
    arrows = '>^<v'
    rows = []
    for y in range(len(layout) // w):
        row = []
        for t in layout[y * w:(y + 1) * w]:
            k, i, o, h = TILES[t]
            if k == EMPTY:
                row.append('.  ')
            elif k == BELT:
                row.append('b' + arrows[i] + arrows[o])
            elif k in (UGIN, UGOUT):
                row.append(('n' if k == UGIN else 'x') + arrows[tile_dir(t)] + ' ')
            else:
                row.append(('S' if h else 's') + arrows[tile_dir(t)] + {(True, True): '=', (True, False): '-', (False, True): '+'}[(i != NONE, o != NONE)])
        rows.append(' '.join(row))
    return rows


# --------------------------------------------------------------------------------------------------- code under test
def code_import():
    for k, v in CODE_ENV.items():
        if k.startswith('PY') or k == 'OPENBLAS_NUM_THREADS':
            os.environ[k] = v
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


CLI = {'belt_balancer': 'belt_balancer', 'net_free': 'belt_balancer_net_free', 'pow2': 'belt_balancer_net_free_power_of_2', 'interchange': 'interchange',
       'make_block': 'make_block', 'network': 'network', 'rotate': 'rotate', 'stringifier': 'stringifier', 'blueprint': 'blueprint', 'blueprint_book': 'blueprint_book',
       'calculate_optimal': 'calculate_optimal'}


class CLIResult:
    def __init__(self, rc, out, err, timed_out, args):
        self.rc, self.out, self.err, self.timed_out, self.args = rc, out, err, timed_out, args


def run_cli(tool, args, stdin=None, timeout=300, cwd=None, env=None):
    """Runs a command of the code under test, as its console script does."""
    cmd = [PY, '-c', 'import sys; sys.argv[0] = %r; from factorio_sat.%s import main; sys.exit(main())' % (tool, CLI[tool]), *map(str, args)]
    e = dict(CODE_ENV)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, input=stdin.encode() if isinstance(stdin, str) else (stdin if stdin is not None else b''), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=cwd or scratch(), env=e)
    except subprocess.TimeoutExpired as x:
        return CLIResult(None, (x.stdout or b'').decode('utf-8', 'replace'), (x.stderr or b'').decode('utf-8', 'replace'), True, [tool, *map(str, args)])
    return CLIResult(p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), False, [tool, *map(str, args)])


def stream_cli(tool, args, lines, timeout=60, cwd=None):
    """The first `lines` lines a generator prints (fewer if it ends before); (lines, ended by itself with exit code 0)."""
    cmd = [PY, '-u', '-c', 'import sys; sys.argv[0] = %r; from factorio_sat.%s import main; sys.exit(main())' % (tool, CLI[tool]), *map(str, args)]
    err = tempfile.TemporaryFile(dir=scratch())
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err, cwd=cwd or scratch(), env=CODE_ENV)
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    out = []
    try:
        for line in p.stdout:
            out.append(line.decode('utf-8', 'replace'))
            if len(out) >= lines:
                break
        full = len(out) >= lines
        if full:
            p.kill()
        rc = p.wait()
    finally:
        timer.cancel()
        p.stdout.close()
    err.seek(0)
    return out, full, rc, err.read().decode('utf-8', 'replace')


def json_lines(text):
    return [json.loads(line) for line in text.splitlines() if line.startswith('[')]


# --------------------------------------------------------------------------------------------------- checks
class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.parts = {}

    @property
    def quick(self):
        return self.tier == 'quick'

    def count(self, n=1, part=None):
        with self.lock:
            self.validated += n
            if part:
                self.parts[part] = self.parts.get(part, 0) + n

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def violation(self, what, data=None):
        with self.lock:
            kf = self.match_known(what, data)
            if kf is not None:
                self.known.append(kf)
                return
            self.violations.append({'what': what, 'data': data})
            if len(self.violations) <= 5:
                print('  violated: %s' % what, flush=True)
        if len(self.violations) >= 25:
            raise Violation('too many violations')

    KNOWN = None

    def match_known(self, what, data):
        if Check.KNOWN is None:
            Check.KNOWN = []
            path = os.path.join(VERIF, 'known_findings.json')
            if os.path.exists(path):
                with open(path) as f:
                    Check.KNOWN = json.load(f).get('findings', [])
        for kf in Check.KNOWN:
            if kf['property'] == self.pid and isinstance(data, dict) and data.get('finding_key') == kf['key']:
                return kf
        return None

    def section(self, name):
        print('[%6.1fs] %s' % (time.time() - self.t0, name), flush=True)

    def finish(self):
        cov = {'states': STATS.distinct, 'transitions': STATS.states, 'traces_validated_against_impl': self.validated,
               'tlc_runs': STATS.runs, 'samples': self.samples or ['(none)'], 'parts': self.parts}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': SEED, 'level': self.level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations), 'assumptions': self.assumptions}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for kf in {k['key']: k for k in self.known}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what']))
        if self.violations:
            path = os.path.join(VERIF, 'evidence', 'replay-%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'tier': self.tier, 'seed': SEED, 'violations': self.violations[:25]}, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
            return 1
        print('OK property=%s validated=%d states=%d wall=%.1fs' % (self.pid, self.validated, STATS.distinct, time.time() - self.t0), flush=True)
        return 0


def in_repo(exc):
    """Did the exception pass through the code under test?"""
    while exc is not None:
        for frame, _ in traceback.walk_tb(exc.__traceback__):
            if os.path.abspath(frame.f_code.co_filename).startswith(os.path.join(REPO, 'factorio_sat')):
                return True
        exc = exc.__cause__
    return False


class CodeTimeout(Exception):
    pass


def main(pid, body, level='model_checking', limit=780):
    check = Check(pid, level)
    if not check.quick:
        limit = 6 * 3600

    def on_alarm(*_):
        raise CodeTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    rc = 2
    try:
        try:
            body(check)
        except Violation as v:
            if not check.violations:
                check.violation(v.what, v.data)
        except MachineryError:
            if not check.violations:
                raise
        except CodeTimeout:
            if not check.violations:
                raise MachineryError('out of time')
        except Exception as e:
            if not in_repo(e):
                if not check.violations:
                    raise
            else:
                check.violation('the code under test raised %s: %s' % (type(e).__name__, e), {'traceback': traceback.format_exc()[-3000:]})
        signal.alarm(0)
        rc = check.finish()
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        if SCRATCH is not None:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def call_main(tool, args, stdin=''):
    """Runs a command of the code under test inside this (worker) process.  Returns (ok, stdout, error)."""
    import contextlib
    import importlib
    import io
    mod = importlib.import_module('factorio_sat.' + CLI[tool])
    saved = sys.argv, sys.stdin
    out, err = io.StringIO(), io.StringIO()
    sys.argv = [tool, *map(str, args)]
    sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            mod.main()
        return True, out.getvalue(), ''
    except SystemExit as e:
        return not e.code, out.getvalue(), err.getvalue()
    except CodeTimeout:
        raise
    except Exception as e:
        return False, out.getvalue(), '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv, sys.stdin = saved
