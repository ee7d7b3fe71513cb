"""Driving the real search for optimal balancers: a scripted solver, scripted completion orders, observed and failing file operations."""
import builtins
import io
import re as _re
from lib import *
from grids import grid_json

code_import()

LEVEL_PREFIX = {'normal': '', 'fast': 'fast-', 'express': 'express-'}
BELTS = [1 + 3 * d for d in range(4)]        # straight belts

# nodes: splitters, rows at least, widths up to
STOCK = {
    '1-2': [[0, -1, 1, 1]], '2-1': [[0, 0, 1, -1]], '2-2': [[0, 0, 1, 1]], '2-3': [[0, 0, 1, 2], [1, -1, 3, 4], [2, -1, 3, -1]],
    '4-4': [[0, 0, 1, 1], [0, 0, 1, 1], [1, 1, 2, 2], [1, 1, 2, 2]], '1-4': [[0, -1, 1, 1], [1, -1, 2, 2], [1, -1, 2, 2]], '2-4': [[0, 0, 1, 1], [1, -1, 2, 2], [1, -1, 2, 2]],
    '3-1': [[0, 0, 1, -1], [1, 0, 2, -1]], 'loop': [[0, 1, 1, 2]],
    '6-6': [[0, 0, 1, 1]] * 3, '8-8': [[0, 0, 1, 1]] * 4,
}
del STOCK['2-3'], STOCK['loop']


def ends(nodes):
    bal = {}
    for a, b, c, d in nodes:
        for x in (a, b):
            bal[x] = bal.get(x, 0) - 1
        for x in (c, d):
            bal[x] = bal.get(x, 0) + 1
    bal.pop(-1, None)
    return -min(bal.values()), max(bal.values())


def net(stock, name, box):
    nodes = STOCK[stock]
    return {'name': name, 'nodes': nodes, 'splitters': len(nodes), 'height': max(ends(nodes)), 'box': box}


def order_keys(nets):
    """Names like 2x3 or 2-3 come first, by their numbers and what follows; others last, by name."""
    m = {n['name']: _re.match(r'(\d+)[x-](\d+)(.*)', n['name']) for n in nets}
    rest = {n: (x.group(3) if x else n) for n, x in m.items()}
    rank = {r: k for k, r in enumerate(sorted(set(rest.values())))}
    for n in nets:
        x = m[n['name']]
        n['key'] = [int(x.group(1)), int(x.group(2)), rank[rest[n['name']]]] if x else [10 ** 6, 10 ** 6, rank[rest[n['name']]]]


def fake_layout(name, size):
    """A layout unlike any other network's or size's: straight belts only."""
    import zlib
    u, w, h = size
    bits = zlib.crc32(('%s/%s' % (name, tuple(size))).encode()) * 2654435761 + u * 7 + w * 13 + h * 31
    g = []
    for k in range(w * h):
        g.append(BELTS[(bits >> (2 * (k % 24))) & 3])
    return grid_json(w, h, g)


def entities(layout, level):
    res = []
    for y, row in enumerate(layout):
        for x, c in enumerate(row):
            d = c['tile']['output_direction']
            res.append((LEVEL_PREFIX[level] + 'transport-belt', x, y, ((1 - d) % 4) * 2))
    return sorted(res)


def leq(a, b):
    return all(x <= y for x, y in zip(a, b))


def exists(truth, s):
    return any(leq(m, s) for m in truth)


class World:
    """A directory with networks and a database, and the truth about them."""

    def __init__(self, nets, truth, start, us):
        self.nets, self.truth, self.us = nets, truth, us
        order_keys(nets)
        self.dir = fresh_dir('opt')
        os.mkdir(os.path.join(self.dir, 'networks'))
        for n in nets:
            with open(os.path.join(self.dir, 'networks', n['name']), 'w') as f:
                f.write(''.join(' '.join(map(str, x)) + '\n' for x in n['nodes']))
        self.db = os.path.join(self.dir, 'db.json')
        self.events_path = os.path.join(self.dir, 'events')
        self.index = {n['name']: k for k, n in enumerate(nets)}
        self.start = start
        if start is not None:
            data = {}
            for k, n in enumerate(nets):
                facts = [tuple(f[0]) for f in start[k]['facts']]
                yes = [s for s in facts if exists(truth[k], s)]
                data[n['name']] = {'exist': {','.join(map(str, s)): exists(truth[k], s) for s in facts}, 'solutions': {','.join(map(str, s)): fake_layout(n['name'], s) for s in yes}}
            with open(self.db, 'w') as f:
                json.dump(data, f)
        self.events = []
        self.last = self.raw()

    def raw(self):
        try:
            with open(self.db, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def file_event(self, raw):
        if raw is None:
            return {'e': 'file', 'absent': True}
        try:
            data = json.loads(raw.decode())
            db = []
            for n in self.nets:
                x = data.get(n['name'], {})
                facts = [[list(map(int, k.split(','))), v] for k, v in x.get('exist', {}).items()]
                sols = [[list(map(int, k.split(','))), v == fake_layout(n['name'], tuple(map(int, k.split(','))))] for k, v in x.get('solutions', {}).items()]
                if not all(isinstance(v, bool) for _, v in facts) or not all(len(s) == 3 for s, _ in facts + sols):
                    raise ValueError
                db.append({'facts': facts, 'sols': sols})
            return {'e': 'file', 'db': db}
        except (ValueError, AttributeError, TypeError, UnicodeDecodeError):
            return {'e': 'file', 'broken': True}

    def identify(self, nodes):
        flat = []
        for x in nodes:         # nodes may come in two halves
            y = []
            for v in x:
                y += list(v) if isinstance(v, (tuple, list)) else [v]
            flat.append(tuple(-1 if v is None else v for v in y))
        nodes = flat
        want = sorted(nodes)
        for k, n in enumerate(self.nets):
            if sorted(tuple(x) for x in n['nodes']) == want:
                return k
        # some other writing of the network
        for k, n in enumerate(self.nets):
            if len(n['nodes']) == len(nodes) and ends(n['nodes']) == ends(nodes):
                return k
        raise MachineryError('a solve was asked for an unknown network %r' % (nodes,))

    # ---- the child process
    def search(self, obj, u, threads=None, order=(), fault=None, fail=None, kill_after=None, timeout=60):
        """Runs `calculate_optimal compute`; returns how it ended: 'ok', 'error', 'died', 'hang', 'runaway'."""
        self.events.append({'e': 'start', 'obj': obj, 'u': u})
        with open(self.events_path, 'w'):
            pass
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _child(self, obj, u, threads, list(order), fault, fail, kill_after)
            finally:
                os._exit(70)
        t0 = time.time()
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                status = None
                break
            time.sleep(.002)
        with open(self.events_path) as f:
            ev = [json.loads(line) for line in f if line.endswith('\n')]
        self.ticks = sum(e['e'] == 'tick' for e in ev)
        self.error = next((e['text'] for e in ev if e['e'] == 'error'), None)
        self.asks = sum(e['e'] == 'ask' for e in ev)
        self.events += [e for e in ev if e['e'] not in ('tick', 'error')]
        raw = self.raw()
        if raw != self.last or raw is None:
            self.events.append(self.file_event(raw))
        self.last = raw
        if status is None:
            return 'hang'
        rc = os.waitstatus_to_exitcode(status)
        kind = {0: 'ok', 71: 'error', 72: 'died', 73: 'runaway'}.get(rc)
        if kind is None:
            raise MachineryError('the driver of the search failed (%s): %s' % (rc, self.error))
        if kind == 'ok':
            self.events.append({'e': 'end'})
        return kind

    def trace(self):
        n = [{'splitters': x['splitters'], 'height': x['height'], 'box': x['box'], 'key': x['key']} for x in self.nets]
        start = [{'facts': [[list(f[0]), f[1]] for f in s['facts']], 'sols': [[list(x), True] for x in s['sols']]} for s in self.start] if self.start is not None else [{'facts': [], 'sols': []} for _ in n]
        return {'nets': n, 'obj': 'length', 'u': self.us[0], 'us': list(self.us), 'truth': [[list(s) for s in t] for t in self.truth], 'start': start, 'events': self.events}

    # ---- queries
    def call(self, args):
        old = os.getcwd()
        os.chdir(self.dir)
        try:
            return call_main('calculate_optimal', ['--database', self.db, *args])
        finally:
            os.chdir(old)

    def query(self, obj, u, imperfect, blueprints):
        before = self.raw()
        ok, out, err = self.call(['query', u, obj] + (['--allow-imperfect'] if imperfect else []) + (['--export-blueprints'] if blueprints else []))
        if self.raw() != before:
            raise Violation('a query changes the database')
        if not ok:
            raise Violation('query fails on a database the search wrote', {'error': err})
        raw = before
        data = json.loads(raw) if raw is not None else {}
        rows = []
        for line in out.splitlines():
            found = None
            if blueprints:
                import base64
                import zlib
                try:
                    bp = json.loads(zlib.decompress(base64.b64decode(line[1:])))['blueprint']
                    es = bp.get('entities', [])
                    mx, my = min(e['position']['x'] for e in es), min(e['position']['y'] for e in es)
                    got = sorted((e['name'], int(e['position']['x'] - mx), int(e['position']['y'] - my), e.get('direction', 0)) for e in es)
                except Exception:
                    raise Violation('query prints something that is no blueprint', {'line': line[:500]})
                for name, x in data.items():
                    for k, lay in x['solutions'].items():
                        for level in LEVEL_PREFIX:
                            if name in self.index and bp.get('label') == ' to '.join(name.split('x')) and got == entities(lay, level):
                                found = [self.index[name] + 1, list(map(int, k.split(','))), level]
            else:
                try:
                    got = json.loads(line)
                except ValueError:
                    raise Violation('query prints something that is no layout', {'line': line[:500]})
                for name, x in data.items():
                    for k, lay in x['solutions'].items():
                        if name in self.index and got == lay:
                            found = [self.index[name] + 1, list(map(int, k.split(','))), 'none']
            if found is None:
                raise Violation('query reports something that is not in the database', {'line': line[:500]})
            rows.append(found)
        self.events.append({'e': 'query', 'obj': obj, 'u': u, 'imperfect': imperfect, 'rows': rows})

    MARKS = {'\U0001f7e8': 'normal', '\U0001f7e5': 'fast', '\U0001f7e6': 'express', '\u274c': 'no', '\u2754': 'unknown'}

    def table(self):
        path = os.path.join(self.dir, 'table.md')
        pre = 'about\n\n## something\n| a |\n'
        with open(path, 'w') as f:
            f.write(pre + '# Balancers\nold\n')
        ok, out, err = self.call(['export-crosstable', path])
        if not ok:
            raise Violation('export-crosstable fails', {'error': err})
        text = open(path).read()
        if not text.startswith(pre + '# Balancers\n'):
            raise Violation('export-crosstable does not keep what precedes the table', {'file': text[:500]})
        rows, name = [], None
        for line in text[len(pre):].splitlines():
            if line.startswith('## '):
                name, head = line[3:], None
            elif line.startswith('|') and name is not None:
                cells = [c.strip() for c in line.strip().strip('|').split('|')]
                if head is None:
                    head = cells
                elif not set(line) <= set('|-'):
                    for wd, c in zip(head[1:], cells[1:]):
                        if name not in self.index or c not in self.MARKS:
                            raise Violation('export-crosstable writes an unknown mark or network', {'line': line})
                        rows.append([self.index[name] + 1, int(wd) + 2, int(cells[0]), self.MARKS[c]])
        self.events.append({'e': 'table', 'rows': rows})


# ------------------------------------------------------------------------------------------- inside the child
def _child(world, obj, u, threads, order, fault, fail, kill_after):
    import concurrent.futures as futures
    import contextlib
    log_fd = os.open(world.events_path, os.O_WRONLY | os.O_APPEND)
    real_write, real_open, real_read, real_close, real_os_open = os.write, builtins.open, os.read, os.close, os.open
    lock = threading.RLock()
    state = {'ticks': 0, 'last': world.last, 'asks': 0, 'answers': 0, 'dead': False}

    def log(**e):
        real_write(log_fd, (json.dumps(e) + '\n').encode())

    def look():
        """Records the database file if it changed."""
        try:
            fd = real_os_open(world.db, os.O_RDONLY)
        except FileNotFoundError:
            raw = None
        else:
            parts = []
            while True:
                b = real_read(fd, 1 << 20)
                if not b:
                    break
                parts.append(b)
            real_close(fd)
            raw = b''.join(parts)
        if raw != state['last']:
            state['last'] = raw
            log(**world.file_event(raw))

    def tick(half=None):
        """A file operation is about to happen; half() does part of it."""
        with lock:
            state['ticks'] += 1
            log(e='tick')
            if fault and state['ticks'] == fault['at']:
                if half is not None and fault.get('half'):
                    half()
                look()
                if fault['kind'] == 'crash':
                    os._exit(72)
                if fault['kind'] == 'oserror':
                    raise OSError(28, 'No space left on device')
                if fault['kind'] == 'interrupt':
                    raise KeyboardInterrupt()

    inside = lambda p: isinstance(p, int) or os.path.abspath(os.fsdecode(p)).startswith(world.dir + os.sep)

    class Raw(io.FileIO):
        def write(self, b):
            b = bytes(b)
            tick(lambda: real_write(self.fileno(), b[:len(b) // 2]))
            n = len(b)
            while b:
                b = b[real_write(self.fileno(), b):]
            look()
            return n

        def truncate(self, *a):
            tick()
            r = super().truncate(*a)
            look()
            return r

    def my_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not (set(mode) & set('wax+')) or not inside(file):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        tick()
        raw = Raw(file, mode.replace('b', '').replace('t', ''), closefd, opener)
        look()
        if 'b' in mode:
            return raw
        return io.TextIOWrapper(raw, encoding or 'utf-8', errors, newline, write_through=True)

    def wrapped(f, first_path=True):
        def g(*a, **k):
            if first_path and a and not inside(a[0]):
                return f(*a, **k)
            tick()
            r = f(*a, **k)
            look()
            return r
        return g

    builtins.open = io.open = my_open
    for name in ('replace', 'rename', 'remove', 'unlink', 'truncate', 'link', 'symlink'):
        setattr(os, name, wrapped(getattr(os, name)))

    def os_write(fd, b):
        if fd <= 2 or fd == log_fd:
            return real_write(fd, b)
        tick(lambda: real_write(fd, b[:len(b) // 2]))
        r = real_write(fd, b)
        look()
        return r
    os.write = os_write

    def os_open(path, flags, *a, **k):
        if flags & (os.O_WRONLY | os.O_RDWR) and inside(path):
            tick()
            r = real_os_open(path, flags, *a, **k)
            look()
            return r
        return real_os_open(path, flags, *a, **k)
    os.open = os_open

    from factorio_sat import calculate_optimal
    in_submit = threading.local()

    def solve(*a, **k):
        network = k['network'] if 'network' in k else a[0]
        size = tuple(int(x) for x in (k['size'] if 'size' in k else a[1]))
        try:
            n = world.identify(network)
        except Exception as e:
            log(e='error', text='driver: %r' % e)
            os._exit(74)
        with lock:
            state['asks'] += 1
            num = state['asks']
            look()
            log(e='ask', n=n + 1, s=size)
        if num > 300:
            os._exit(73)
        def answer():
            with lock:
                if fail is not None and num == fail:
                    log(e='fail', n=n + 1, s=size)
                    raise RuntimeError('the solver failed')
                yes = exists(world.truth[n], size)
                log(e='answer', n=n + 1, s=size, yes=yes)
                state['answers'] += 1
                if kill_after is not None and state['answers'] > kill_after:
                    os._exit(72)
            return fake_layout(world.nets[n]['name'], size) if yes else None
        if getattr(in_submit, 'on', False):
            return n, answer
        return answer()

    class Pool(futures.Executor):
        def __init__(self, max_workers=None, *a, **k):
            self.max = max_workers or 64
            self.queue = []
            self.moved = time.monotonic()
            self.cv = threading.Condition()
            self.open = True
            self.thread = threading.Thread(target=self.deliver, daemon=True)
            self.thread.start()

        def submit(self, fn, *a, **k):
            in_submit.on = True
            try:
                r = fn(*a, **k)
            finally:
                in_submit.on = False
            f = futures.Future()
            with self.cv:
                if isinstance(r, tuple) and len(r) == 2 and callable(r[1]):
                    self.queue.append((f, r[0], r[1]))
                else:
                    self.queue.append((f, None, lambda: r))
                self.moved = time.monotonic()
                self.cv.notify_all()
            return f

        def deliver(self):
            while True:
                with self.cv:
                    while self.open and not self.queue:
                        self.cv.wait()
                    if not self.queue:
                        return
                    # until nothing moves any more
                    rest = self.moved + .0015 - time.monotonic()
                    if rest > 0:
                        self.cv.wait(rest)
                        continue
                    running = self.queue[:self.max]
                    pick = running[0]
                    if order:
                        want = order.pop(0)
                        pick = next((x for x in running if x[1] == want), running[want % len(running)])
                    self.queue.remove(pick)
                    self.moved = time.monotonic()
                f, n, answer = pick
                if not f.set_running_or_notify_cancel():
                    continue
                try:
                    f.set_result(answer())
                except Exception as e:
                    f.set_exception(e)

        def shutdown(self, wait=True, cancel_futures=False):
            with self.cv:
                self.open = False
                self.cv.notify_all()

    calculate_optimal.solve_balancer = solve
    futures.ProcessPoolExecutor = Pool
    if hasattr(calculate_optimal, 'ProcessPoolExecutor'):
        calculate_optimal.ProcessPoolExecutor = Pool
    os.chdir(world.dir)
    sys.argv = ['calculate_optimal', '--database', world.db, 'compute', str(u), obj] + (['--threads', str(threads)] if threads else [])
    code = 71
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            calculate_optimal.main()
        code = 0
    except SystemExit as e:
        code = 0 if not e.code else 71
    except BaseException as e:
        log(e='error', text='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    look()
    os._exit(code)


# ------------------------------------------------------------------------------------------- TLC
def validate(check, traces, what, part, shards=4):
    """TLC runs every trace against Optimal.tla; reports the first event it does not allow."""
    per = [list(range(k, len(traces), shards)) for k in range(shards)]

    def job(ix):
        return lambda: (ix, run_tlc('Optimal', 'INIT TInit\nNEXT TNext\nINVARIANT TEmit\nCHECK_DEADLOCK FALSE\n', {'TRACES': write_json([traces[i] for i in ix]), 'CFG': '/dev/null'}, workers=2, timeout=600, heap='3g'))
    ends_ = [None] * len(traces)
    for ix, r in parallel([job(ix) for ix in per if ix], shards):
        for t, pos, n in r.jsons('A'):
            ends_[ix[t - 1]] = (pos, n)
    for t, e in zip(traces, ends_):
        if e is None:
            raise MachineryError('TLC gave no verdict on a trace')
        if e[0] < e[1]:
            ev = t['events'][e[0]]
            check.violation('%s: %s' % (what, explain(ev)), {'event': ev, 'before': t['events'][:e[0]][-12:], 'trace': {k: v for k, v in t.items() if k != 'events'}})
        else:
            check.count(1, part)


def explain(ev):
    return {'ask': 'a size is asked for that is decided already, is not the smallest candidate left, or before earlier results are saved', 'answer': 'an answer is out of place',
            'file': 'the database is unreadable, lost results or holds wrong ones', 'end': 'the search ends without a proven optimum on file', 'query': 'the query does not report the best known balancers',
            'table': 'the cross table shows something else than what is known', 'fail': 'a failure is out of place'}.get(ev['e'], ev['e'])


def scenarios(nets, us, minima, facts, crashes, num, seed, objectives=('length', 'area')):
    """Truths, databases, completion orders and restarts: behaviours TLC's simulator draws from Optimal.tla."""
    model = {'nets': [{k: n[k] for k in ('splitters', 'height', 'box')} for n in nets], 'objectives': list(objectives), 'us': list(us), 'minima': minima, 'facts': facts, 'crashes': crashes}
    r = run_tlc('Optimal', 'INIT MInit\nNEXT MNext\nINVARIANT Emit\nINVARIANT OptimalWhenStopped\nINVARIANT NeverDecided\nCHECK_DEADLOCK FALSE\n', {'CFG': write_json(model)}, workers=1, timeout=600, heap='3g',
                args=['-simulate', 'num=%d' % num, '-depth', 400, '-seed', seed])
    seen, res = set(), []
    for truth, log in r.jsons('S'):
        key = json.dumps([truth, log])
        if key in seen:
            continue
        seen.add(key)
        phases = []
        for x in log:
            if x[0] == 0:
                phases.append([x[1], x[2], []])
            else:
                phases[-1][2].append(x[0] - 1)
        res.append((truth, log[0][3], phases))
    return res


def model_check(check, models, liveness=False):
    def job(m):
        prop = 'SPECIFICATION MSpec\nPROPERTY Terminates\n' if liveness else 'INIT MInit\nNEXT MNext\nVIEW View\n'
        return lambda: run_tlc('Optimal', prop + 'INVARIANT Sound\nINVARIANT NeverDecided\nINVARIANT Durable\nINVARIANT OptimalWhenStopped\nINVARIANT Progress\nCHECK_DEADLOCK FALSE\n', {'CFG': write_json(m)}, workers=2, timeout=3000, heap='4g')
    for m, r in zip(models, parallel([job(m) for m in models], 4)):
        check.sample({'model': {k: v for k, v in m.items()}, 'states': r.distinct})
