"""C20: the drawing of a network shows exactly its splitters and belts.

TLC enumerates every small network with one kind of input and one of output (Drawing.tla); `network render` draws each of them, the shipped
ones, created ones and random larger ones; TLC judges what the drawings say.  Some are drawn by the real dot, to every kind of file name."""
import glob
import io
import re
from grids import *

NET_CFG = 'INIT NInit\nNEXT NNext\nINVARIANT NEmit\nINVARIANT Sayable\nCHECK_DEADLOCK FALSE\n'
JUDGE_CFG = 'INIT JInit\nNEXT JNext\nINVARIANT JEmit\nCHECK_DEADLOCK FALSE\n'
TOKEN = re.compile(r'\s*("(?:[^"\\]|\\[\s\S])*"|->|[\[\]{};,=]|[^\s\[\]{};,="]+)')


def tokens(text):
    i, res = 0, []
    text = text.rstrip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Violation('the drawing is not a graph', {'source': text})
        res.append(m.group(1))
        i = m.end()
    return res


def name(t):
    return t[1:-1].replace('\\\n', '').replace('\\"', '"') if t.startswith('"') else t


def read_dot(text):
    """Nodes {name: attributes} and edges [(from, to, attributes)] of a graph without nested graphs, in the order written."""
    ts = tokens(text)
    if not ts or ts[0] not in ('digraph', 'strict') or '{' not in ts:
        raise Violation('the drawing is not a directed graph', {'source': text})
    i = ts.index('{') + 1
    nodes, edges = {}, []
    defaults = {}

    def attributes(i):
        res = {}
        while i < len(ts) and ts[i] == '[':
            i += 1
            while ts[i] != ']':
                if ts[i] in (',', ';'):
                    i += 1
                    continue
                if ts[i + 1] == '=':
                    res[name(ts[i])] = name(ts[i + 2])
                    i += 3
                else:
                    res[name(ts[i])] = 'true'
                    i += 1
            i += 1
        return res, i
    while i < len(ts) and ts[i] != '}':
        if ts[i] in (';', ','):
            i += 1
        elif i + 1 < len(ts) and ts[i + 1] == '=':
            i += 3
        elif ts[i] in ('graph', 'node', 'edge') and i + 1 < len(ts) and ts[i + 1] == '[':
            a, i2 = attributes(i + 1)
            if ts[i] != 'graph':
                defaults.setdefault(ts[i], {}).update(a)
            i = i2
        else:
            chain = [name(ts[i])]
            i += 1
            while i < len(ts) and ts[i] == '->':
                chain.append(name(ts[i + 1]))
                i += 2
            a, i = attributes(i)
            chain = [c.split(':')[0] for c in chain]
            for c in chain:
                nodes.setdefault(c, dict(defaults.get('node', {})))
            if len(chain) == 1:
                nodes[chain[0]].update(a)
            for x, y in zip(chain, chain[1:]):
                edges.append((x, y, dict(defaults.get('edge', {}), **a)))
    return nodes, edges


def number(s):
    try:
        return int(s)
    except ValueError:
        return -9


def graph(nodes, edges):
    order = list(nodes)
    kinds = []
    for n in order:
        a = nodes[n]
        label = a.get('label', n).replace('\\N', n)
        kinds.append(-1 if 'invis' in a.get('style', '') else -2 if label.strip() == '' else number(label))
    es = []
    for x, y, a in edges:
        if 'invis' in a.get('style', ''):
            continue
        if a.get('dir') in ('back', 'none'):
            x, y = (y, x) if a['dir'] == 'back' else (x, y)
        es.append([order.index(x) + 1, order.index(y) + 1, number(a['label']) if a.get('label', '').strip() else -1])
    ints = [n for n, k in zip(order, kinds) if k == -2]
    if sorted(map(number, ints)) == list(range(len(ints))):
        where = {n: number(n) + 1 for n in ints}
    else:
        where = {n: k + 1 for k, n in enumerate(ints)}
    return {'kinds': kinds, 'edges': es}, [where.get(n, 0) for n in order]


def text_of(net):
    return ''.join('%d %d %d %d\n' % tuple(n) for n in net)


def nodes_of(text):
    return [list(map(int, l.split())) for l in text.splitlines() if l.strip() and not l.strip().startswith('#')]


def drawings(nets):
    """The graphs `network render FILE picture.png` hands to graphviz."""
    import contextlib
    import graphviz
    from factorio_sat import network
    got = []

    def keep(self, *a, **k):
        got.append(self.source)
        return 'picture'
    saved = [(o, m, getattr(o, m)) for o in (graphviz.Digraph, graphviz.Source) for m in ('render', 'view')] + [(sys, 'argv', sys.argv)]
    res = []
    try:
        for o, m, _ in saved[:-1]:
            setattr(o, m, keep)
        d = fresh_dir('n')
        for k, net in enumerate(nets):
            path = os.path.join(d, 'net')
            with open(path, 'w') as f:
                f.write(text_of(net))
            del got[:]
            sys.argv = ['network', 'render', path, os.path.join(d, 'picture.png')]
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    network.main()
            except (Exception, SystemExit) as e:
                if isinstance(e, SystemExit) and not e.code:
                    pass
                else:
                    res.append(('failed', repr(e)))
                    continue
            res.append(('drawn', got[0]) if len(got) == 1 else ('failed', '%d pictures' % len(got)))
    finally:
        for o, m, v in saved:
            setattr(o, m, v)
    return res


def random_network(rnd):
    """A network with one input and one output colour, grown by splitting, merging and feeding back."""
    n = rnd.choice([3, 3, 4, 4, 5, 6, 8])
    colours = rnd.choice([2, 3, 4, 5, n + 2])
    while True:
        net = [sorted(rnd.choice([-1] + list(range(colours)) * 2) for _ in range(2)) + sorted(rnd.choice([-1] + list(range(colours)) * 2) for _ in range(2)) for _ in range(n)]
        count = {}
        for a, b, c, d in net:
            for x, s in ((a, 1), (b, 1), (c, -1), (d, -1)):
                if x >= 0:
                    count[x] = count.get(x, 0) + s
        if sum(v > 0 for v in count.values()) == 1 and sum(v < 0 for v in count.values()) == 1:
            # numbers need not be consecutive
            if rnd.random() < .3:
                m = dict(zip(range(colours), rnd.sample(range(0, 40), colours)))
                net = [[m.get(x, -1) for x in nd] for nd in net]
            return net


def judge_drawings(check, items, part):
    """items: (name, net, dot nodes, dot edges)."""
    cases = []
    for n, net, nodes, edges in items:
        g, pos = graph(nodes, edges)
        cases.append({'net': net, 'graph': g, 'pos': pos})
    per = [list(range(k, len(cases), CORES)) for k in range(CORES)]

    def job(ix):
        return lambda: (ix, run_tlc('Drawing', JUDGE_CFG, {'CASES': write_json([cases[i] for i in ix])}, workers=1, timeout=700))
    seen = 0
    for ix, r in parallel([job(ix) for ix in per if ix], CORES):
        for at, v in r.jsons('V'):
            i = ix[at - 1]
            seen += 1
            if v:
                check.violation('%s is drawn wrongly: %s' % (items[i][0], ', '.join(sorted(v))), {'network': items[i][1], 'nodes': items[i][2], 'edges': items[i][3]})
            check.count(1, part)
    if seen != len(cases):
        raise MachineryError('TLC judged %d of %d drawings' % (seen, len(cases)))


def body(check):
    code_import()
    check.section('TLC enumerates the small networks')
    nets = []
    for conf in ([{'nodes': 2, 'colours': 3}] if check.quick else [{'nodes': 2, 'colours': 4}, {'nodes': 3, 'colours': 2}]):
        r = run_tlc('Drawing', NET_CFG, {'CASES': write_json(conf)}, workers=4, timeout=3000)
        nets += r.jsons('N')
    nets = sorted(map(list, nets))
    rnd = random.Random(SEED)
    check.extra['small_networks'] = len(nets)
    named = [('the network %s' % ' / '.join(' '.join(map(str, n)) for n in net), net) for net in nets]
    named += [('the network %s' % ' / '.join(' '.join(map(str, n)) for n in net), net) for net in (random_network(rnd) for _ in range(400 if check.quick else 5000))]
    shipped = []
    for p in sorted(glob.glob(os.path.join(REPO, 'networks', '**', '*'), recursive=True)):
        if os.path.isfile(p):
            try:
                shipped.append(('the shipped network %s' % os.path.basename(p), nodes_of(open(p).read())))
            except ValueError:
                pass
    check.section('drawing %d networks' % (len(named) + len(shipped)))
    todo = named + shipped
    shards = [todo[k::CORES] for k in range(CORES)]
    items = []
    for part, outs in zip(shards, pmap(drawings, [[n for _, n in p] for p in shards])):
        for (nm, net), (kind, got) in zip(part, outs):
            if kind == 'failed':
                check.violation('%s is not drawn: %s' % (nm, got), {'network': net})
                continue
            nodes, edges = read_dot(got)
            items.append((nm, net, nodes, edges))
    check.section('TLC judges %d drawings' % len(items))
    judge_drawings(check, items, 'drawings')
    # with the real dot, to files of several kinds
    if not shutil.which('dot') or subprocess.run(['dot', '-Tdot'], input=b'digraph { a -> b }', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        check.extra['dot'] = 'not installed: only what is handed to graphviz was judged'
        return
    check.section('the command with the real dot')
    d = fresh_dir('r')
    some = rnd.sample(shipped, min(len(shipped), 16 if check.quick else len(shipped))) + rnd.sample(named, 8)

    def real(k):
        nm, net = some[k]
        path = os.path.join(d, 'n%d' % k)
        with open(path, 'w') as f:
            f.write('# a comment\n\n' + text_of(net))
        out = os.path.join(fresh_dir('o'), ['x.dot', 'a picture.gv', 'x.y.xdot', os.path.join('sub', 'x.dot')][k % 4])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        args = ['render', path, out] + (['--engine', 'neato'] if k % 5 == 4 else [])
        x = run_cli('network', args, timeout=120)
        left = sorted(os.path.relpath(os.path.join(a, f), os.path.dirname(out)) for a, _, fs in os.walk(os.path.dirname(out)) for f in fs)
        return x, out, left
    items = []
    for (nm, net), (x, out, left) in zip(some, pmap(real, range(len(some)))):
        if x.rc != 0 or left != [os.path.basename(out)]:
            check.violation('%s: network render does not write exactly the picture asked for' % nm, {'files': left, 'stderr': x.err[-1500:], 'output': out})
            continue
        nodes, edges = read_dot(open(out).read())
        items.append((nm, net, nodes, edges))
    judge_drawings(check, items, 'files')
    check.assumptions += ['graphviz draws the graph it is given', 'networks of at most %s exhaustively, larger ones by sample' % ('2 splitters and 3 colours' if check.quick else '2 splitters and 4 colours or 3 and 2')]


if __name__ == '__main__':
    main('C20', body)
