"""C13: network files.

Network.tla enumerates the wirings of a network (all of them for small ones, drawn ones for the others) and judges each wired network:
every splitter shares evenly, so every input must reach all outputs equally, and backwards too.  The flows are computed here and checked by
TLC.  Network files are enumerated line by line and read by the real command."""
import glob
from fractions import Fraction as F
from math import gcd
from rules import *
import rules


def flows(nodes, belts):
    """(unit, flow) as Network.tla wants them; None when the flows are not determined."""
    into, frm = {}, {}
    for k, (p, q) in enumerate(belts):
        into.setdefault(q[0], []).append(k)
        frm.setdefault(p[0], []).append(k)
    # what leaves each node on one belt, as a combination of inputs ('i', j) and of other nodes ('n', m)
    src = [('i', p[1]) if p[0] == 0 else ('n', p[0]) for p, q in belts]
    eq = {}
    for n in frm:
        if n:
            e = {}
            for m in into.get(n, []):
                e[src[m]] = e.get(src[m], 0) + F(1, len(frm[n]))
            eq[n] = e
    order = sorted(eq, key=lambda n: -n)
    for n in order:
        # eliminate node n
        e = eq[n]
        own = e.pop(('n', n), 0)
        if own:
            if own == 1:
                return None
            e = {k: v / (1 - own) for k, v in e.items()}
        eq[n] = e
        for m in eq:
            if m != n and ('n', n) in eq[m]:
                f = eq[m].pop(('n', n))
                for k, v in e.items():
                    eq[m][k] = eq[m].get(k, 0) + f * v
    ins = sorted(p[1] for p, q in belts if p[0] == 0)
    val = [eq[p[0]] if p[0] else {('i', p[1]): F(1)} for p, q in belts]
    unit = 1
    for v in val:
        for x in v.values():
            unit = unit * F(x).denominator // gcd(unit, F(x).denominator)
    return unit, [[int(v.get(('i', j), 0) * unit) for v in val] for j in ins]


def flip(nodes):
    return [[c, d, a, b] for a, b, c, d in reversed(nodes)]


def _flows(job):
    return flows(*job)


def judge_networks(check, named, per, small=400, label='network'):
    """named: (name, nodes, a, b).  Every wiring of small networks, `per` drawn ones of the others, forwards and backwards."""
    items = []
    for name, nodes, a, b in named:
        items.append((name, nodes, a, b))
        items.append((name + ' backwards', flip(nodes), b, a))
    counts = run_tlc('Network', 'INIT CI\nNEXT CN\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json([{'nodes': n} for _, n, _, _ in items]), 'FLOWS': write_json([])}, workers=1)
    ok = set()
    for k, shaped, a, b in counts.jsons('N'):
        name, nodes, wa, wb = items[k - 1]
        if not shaped:
            check.violation('%s %s does not have one input and one output colour and connected nodes' % (label, name), {'nodes': nodes})
        elif (a, b) != (wa, wb):
            check.violation('%s %s has %d inputs and %d outputs' % (label, name, a, b), {'nodes': nodes})
        else:
            ok.add(k - 1)
    items = [x for k, x in enumerate(items) if k in ok]

    def ways(nodes):
        """number of wirings Network.tla explores, at most"""
        n = 1
        for col in {c for nd in nodes for c in nd if c != -1}:
            p = sum(nd[k] == col for nd in nodes for k in (2, 3))
            q = sum(nd[k] == col for nd in nodes for k in (0, 1))
            for x in range(2, max(p, q) + 1):
                n *= x
                if n > 10 ** 9:
                    return n
        return n
    few = [k for k, x in enumerate(items) if ways(x[1]) <= small * 50]
    many = [k for k, x in enumerate(items) if ways(x[1]) > small * 50]
    rnd = random.Random(SEED)
    wired = []

    def run(ix, extra, part):
        def f():
            r = run_tlc('Network', 'INIT WI\nNEXT WN\nINVARIANT WEmit\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json([{'nodes': items[k][1]} for k in ix]), 'FLOWS': write_json([])}, workers=2,
                        timeout=600, args=extra)
            return [(ix[i - 1], b) for i, b in r.jsons('W')]
        return f
    jobs = [run(few[k::2], [], 0) for k in range(2) if few[k::2]]
    for n in range(3):
        ix = many[n::3]
        if ix:
            depth = 1 + max(sum(c != -1 for nd in items[k][1] for c in nd[2:]) + items[k][2] for k in ix)
            jobs.append(run(ix, ['-simulate', 'num=%d' % (3 * per * len(ix)), '-depth', depth, '-seed', SEED * 100 + n], 1))
    seen = {}
    for part in parallel(jobs, CORES):
        for k, b in part:
            seen.setdefault(k, {})[json.dumps(b)] = b
    for k, d in seen.items():
        bs = list(d.values())
        if len(bs) > small:
            bs = rnd.sample(bs, small)
        if k in many:
            bs = rnd.sample(bs, min(per, len(bs)))
        wired += [(k, b) for b in bs]
    missing = set(few) - set(seen)
    if missing or len(seen) < len(items) * .8:
        raise MachineryError('TLC found no wiring of %s' % [items[k][0] for k in missing])
    check.section('%d networks, %d wirings (all wirings of %d networks)' % (len(items), len(wired), len(few)))
    fl = pmap(_flows, [(items[k][1], b) for k, b in wired])
    judged, which, huge = [], [], 0
    for (k, b), f in zip(wired, fl):
        if f is None:
            check.violation('the flows of %s %s are not determined for some wiring' % (label, items[k][0]), {'nodes': items[k][1], 'wiring': b})
            continue
        if f[0] > 2 ** 27:
            huge += 1
            # TLC's integers are too small: compare the outputs here
            outs = [n for n, (p, q) in enumerate(b) if q[0] == 0]
            if any(len({row[n] for n in outs}) != 1 for row in f[1]):
                check.violation('%s %s does not balance' % (label, items[k][0]), {'nodes': items[k][1], 'wiring': b})
            continue
        judged.append({'nodes': items[k][1], 'belts': b, 'unit': f[0], 'flow': f[1]})
        which.append(k)
    shards = 4

    def jjob(ix):
        return lambda: (ix, run_tlc('Network', 'INIT JI\nNEXT JN\nINVARIANT JEmit\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json([]), 'FLOWS': write_json([judged[k] for k in ix])}, workers=2, timeout=600))
    for ix, r in parallel([jjob(list(range(k, len(judged), shards))) for k in range(shards) if judged[k::shards]], shards):
        got = dict(r.jsons('V'))
        for n, k in enumerate(ix):
            v = got[n + 1]
            if 'illegal' in v or 'flow' in v:
                raise MachineryError('certificate rejected for %s: %s' % (items[which[k]][0], v))
            if v:
                check.violation('%s %s does not balance (%s)' % (label, items[which[k]][0], ', '.join(v)), {'nodes': items[which[k]][1], 'wiring': judged[k]['belts'], 'flow': judged[k]['flow'], 'unit': judged[k]['unit']})
    check.count(len(wired), label)
    check.extra['flows_too_fine_for_TLC'] = check.extra.get('flows_too_fine_for_TLC', 0) + huge


def read_nodes(text):
    return [[int(c) for c in line.split()] for line in text.splitlines() if line.strip() and not line.strip().startswith('#')]


def _flip_file(job):
    """What `network flip` makes of each file text: nodes or None when it refuses."""
    res = []
    d = fresh_dir('flip')
    for n, text in enumerate(job):
        a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
        with open(a, 'w') as f:
            f.write(text)
        if os.path.exists(b):
            os.unlink(b)
        ok, out, err = call_main('network', ['flip', a, b])
        res.append((open(b).read() if ok else None, err))
    return res


def body(check):
    scratch()
    code_import()
    import factorio_sat.network
    check.section('shipped networks')
    named = []
    for path in sorted(glob.glob(os.path.join(REPO, 'networks', '*'))):
        name = os.path.basename(path)
        a, b = map(int, name.split('x')[:2])
        named.append((name, read_nodes(open(path).read()), a, b))
    judge_networks(check, named, 5 if check.quick else 30, 150 if check.quick else 2000, 'shipped network')

    check.section('created networks')
    created = []
    d = fresh_dir('create')
    sizes = list(range(2, 17)) + ([24, 32] if check.quick else list(range(17, 49)) + [64])

    def create(n):
        def f():
            path = os.path.join(d, str(n))
            r = run_cli('network', ['create', path, n])
            if r.rc != 0:
                check.violation('network create %d fails' % n, {'stderr': r.err[-1500:]})
                return None
            try:
                nodes = read_nodes(open(path).read())
                assert all(len(x) == 4 for x in nodes)
            except Exception:
                check.violation('network create %d writes something that is no network' % n, {'file': open(path).read()[:2000]})
                return None
            return ('%d' % n, nodes, n, n)
        return f
    created = [x for x in parallel([create(n) for n in sizes], CORES) if x]
    judge_networks(check, created, 4 if check.quick else 20, 100 if check.quick else 2000, 'created network')
    for n in (1, 0, -3):
        r = run_cli('network', ['create', os.path.join(d, 'bad'), '--', n] if n < 0 else ['create', os.path.join(d, 'bad'), n])
        if r.rc == 0:
            check.violation('network create %d succeeds' % n)
        check.count(1, 'refused sizes')

    check.section('network files, line by line')
    stock = [[0, 0, 1, 2], [-1, 1, 2, 2], [10, 2, -1, 37]]
    skips = [['', '\t'], ['   ', ' \t '], ['# a comment', '#', '#1 2 3 4', '##'], ['   # 1 2 3 4\t', '\t#', ' # ', '  #x #y']]
    bads = ['1 2 3', '1 2 3 4 5', '1 2 x 4', '1, 2, 3, 4', '0']
    most = 3 if check.quick else 4
    r = run_tlc('Network', 'INIT FInit\nNEXT FNext\nINVARIANT FEmit\nINVARIANT FlipTwice\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json([{'nodes': stock, 'most': most}]), 'FLOWS': write_json([])}, workers=4)
    rnd = random.Random(SEED)
    files = []
    for f, ok, want in r.jsons('F'):
        lines = []
        for kind, k in f:
            if kind == 'node':
                pre, sep, post = rnd.choice([('', ' ', ''), ('', ' ', ' '), ('  ', '\t', ''), ('', '   ', '\t')])
                lines.append(pre + sep.join(map(str, stock[k - 1])) + post)
            else:
                lines.append(rnd.choice(skips[k - 1]) if kind == 'skip' else bads[k - 1])
        files.append(('\n'.join(lines) + ('\n' if rnd.random() < .7 else ''), ok, want))
    if check.quick:
        files = [x for x in files if len(x[0]) < 4] + rnd.sample(files, min(len(files), 1500))
    shards = [files[k::CORES] for k in range(CORES)]
    for part, outs in zip(shards, pmap(_flip_file, [[x[0] for x in p] for p in shards])):
        for (text, ok, want), (got, err) in zip(part, outs):
            if ok and (got is None or read_nodes(got) != want):
                check.violation('a network file is not read and flipped correctly', {'file': text, 'expected': want, 'got': got, 'error': err})
            if not ok and got is not None:
                check.violation('a malformed network file is accepted', {'file': text, 'got': got})
            check.count(1, 'files')
    # the commands themselves, once each on real files
    for name, nodes, a, b in rnd.sample(named, 6):
        p, q = os.path.join(d, 'f1'), os.path.join(d, 'f2')
        r1 = run_cli('network', ['flip', os.path.join(REPO, 'networks', name), p])
        r2 = run_cli('network', ['flip', p, q]) if r1.rc == 0 else r1
        if r2.rc != 0 or read_nodes(open(p).read()) != flip(nodes) or read_nodes(open(q).read()) != nodes:
            check.violation('flipping the network %s twice does not return it' % name, {'stderr': r2.err[-1000:]})
        check.count(1, 'flip twice')
    check.sample('e.g. file %r' % files[-1][0])
    check.assumptions += ['a splitter shares what enters it evenly between its connected outputs; belts never saturate (each input is followed on its own)']


if __name__ == '__main__':
    main('C13', body)
