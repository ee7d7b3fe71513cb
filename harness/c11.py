"""C11: blueprint export and import.

Blueprint.tla gives the entities every layout is exported to and the layout every map of entities stands for (belts bent as the game bends
them); both directions are replayed through `blueprint encode` and `blueprint decode`, for all maps around a belt and for varied layouts,
moved over the map, in any entity order, at every belt level."""
import base64
import zlib
from grids import *

LEVELS = {'normal': '', 'fast': 'fast-', 'express': 'express-'}
INSERTERS = ('burner-inserter', 'inserter', 'fast-inserter', 'filter-inserter', 'stack-inserter', 'stack-filter-inserter')
MACHINES = ('assembling-machine-1', 'assembling-machine-2', 'assembling-machine-3')


def pack(data):
    return '0' + base64.b64encode(zlib.compress(json.dumps(data).encode())).decode()


def unpack(text):
    if not text.startswith('0'):
        raise Violation('a blueprint string does not start with the format version', {'string': text})
    return json.loads(zlib.decompress(base64.b64decode(text[1:])))


def entity(e, number, rnd, level=None):
    """A blueprint entity for the specification's <<kind, x, y, direction>> (doubled coordinates)."""
    kind, x, y, d = e
    pre = LEVELS[level or rnd.choice(list(LEVELS))]
    name = {'belt': pre + 'transport-belt', 'in': pre + 'underground-belt', 'out': pre + 'underground-belt', 'splitter': pre + 'splitter', 'chest': 'wooden-chest',
            'inserter': rnd.choice(INSERTERS), 'long': 'long-handed-inserter', 'machine': rnd.choice(MACHINES)}[kind]
    r = {'entity_number': number, 'name': name, 'position': {'x': x / 2 if x % 2 or rnd.random() < .5 else x // 2, 'y': y / 2}}
    if d or rnd.random() < .3:
        r['direction'] = d
    if kind in ('in', 'out'):
        r['type'] = 'input' if kind == 'in' else 'output'
    return r


def of_entity(e, level):
    """The specification's view of an exported entity."""
    pre = LEVELS[level]
    kinds = {pre + 'transport-belt': 'belt', pre + 'splitter': 'splitter', 'inserter': 'inserter', 'long-handed-inserter': 'long'}
    kind = kinds.get(e['name'])
    if e['name'] == pre + 'underground-belt':
        kind = {'input': 'in', 'output': 'out'}.get(e.get('type'))
    x, y = e['position']['x'] * 2, e['position']['y'] * 2
    return (kind, int(x) if x == int(x) else x, int(y) if y == int(y) else y, e.get('direction', 0))


def blueprint(entities, rnd):
    return {'blueprint': {'icons': [], 'item': 'blueprint', 'version': 281474976710656, 'entities': entities}}


def decode_all(lines, shards=CORES):
    """What `blueprint decode` prints for each string."""
    def job(part):
        def run():
            r = feed('blueprint', ['decode'], part)
            outs = [json.loads(x) for x in r.out.splitlines() if x.startswith('[')]
            if len(outs) != len(part):
                raise Violation('blueprint decode failed on a blueprint', {'blueprint': unpack(part[min(len(outs), len(part) - 1)]), 'stderr': r.err[-1500:]})
            return outs
        return run
    shards = max(1, min(shards, len(lines) // 50))
    res = [None] * len(lines)
    for k, outs in enumerate(parallel([job(lines[k::shards]) for k in range(shards)], shards)):
        res[k::shards] = outs
    return res


def layouts(check, rnd):
    res = [(1, 1, [t]) for t in list(range(1, 21)) + list(range(46, 54))]
    for d in range(4):
        pair = [21 + 6 * d + 3, 21 + 6 * d]
        for s in (pair, pair[::-1]):
            for w, h in ((2, 1), (1, 2)):
                # only the ones whose halves are complete survive in the specification
                res.append((w, h, s))
    n = 60 if check.quick else 400
    for _ in range(n):
        w, h = rnd.randint(2, 7), rnd.randint(2, 7)
        res.append((w, h, with_splitters(w, h, rnd, NOT_SPLIT, rnd.randint(0, 4))))
        res.append((w, h, with_splitters(w, h, rnd, NOT_SPLIT + [0] * 60 + [FILLER] + list(range(46, 54)), rnd.randint(0, 2))))
    valid = valid_layouts([(3, 3), (5, 4), (4, 6)], 80 if check.quick else 500, SEED + 3)
    res += [(w, h, list(g)) for w, h, g in rnd.sample(valid, min(len(valid), 60 if check.quick else 300))]
    return res


def whole(w, h, s):
    vec = ((1, 0), (0, -1), (-1, 0), (0, 1))
    for n, t in enumerate(s):
        if 21 <= t <= 44:
            d, head = tile_dir(t), TILES[t][3]
            dx, dy = vec[(d + (1 if head else 3)) % 4]
            x, y = n % w + dx, n // w + dy
            if not (0 <= x < w and 0 <= y < h):
                return False
            u = s[y * w + x]
            if not (21 <= u <= 44 and tile_dir(u) == d and TILES[u][3] != head):
                return False
    return any(t not in (0, FILLER) for t in s)


def random_map(rnd):
    """Entities that do not overlap, somewhere on the map."""
    used, res = set(), []
    w, h = rnd.randint(2, 8), rnd.randint(2, 8)
    for _ in range(rnd.randint(2, 30)):
        kind = rnd.choice(['belt'] * 8 + ['in', 'out', 'splitter', 'splitter', 'inserter', 'long', 'chest', 'machine'])
        d = rnd.choice([0, 2, 4, 6])
        if kind in ('chest', 'machine'):
            d = 0
        x, y = rnd.randrange(w), rnd.randrange(h)
        cells = [(x, y)]
        px, py = 2 * x + 1, 2 * y + 1
        if kind == 'splitter':
            if d in (0, 4):
                cells.append((x + 1, y))
                px += 1
            else:
                cells.append((x, y + 1))
                py += 1
        if kind == 'machine':
            cells = [(x + i, y + j) for i in (-1, 0, 1) for j in (-1, 0, 1)]
        if not used.isdisjoint(cells):
            continue
        used.update(cells)
        res.append([kind, px, py, d])
    return res


def body(check):
    rnd = random.Random(SEED * 13)
    ls = [x for x in layouts(check, rnd) if whole(*x)]
    maps = [random_map(rnd) for _ in range(300 if check.quick else 3000)]
    shift = lambda: rnd.choice([(0, 0), (-3, 5), (7, -2), (-100, -41), (1000, 3), (-1, -1), (0, -6)])
    cases = []
    for w, h, s in ls:
        dx, dy = shift()
        cases.append({'w': w, 'h': h, 's': s, 'dx': dx, 'dy': dy})
    for e in maps:
        dx, dy = shift()
        cases.append({'e': e, 'dx': dx, 'dy': dy})
    check.section('TLC: %d layouts and maps; all maps around a belt' % len(cases))
    parts = [cases[k::3] for k in range(3)]
    jobs = [lambda p=p: run_tlc('Blueprint', 'INIT InitB\nNEXT NextB\nINVARIANT Emit\nINVARIANT RoundTrip\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json(p)}, workers=2, timeout=600) for p in parts]
    jobs.append(lambda: run_tlc('Blueprint', 'INIT MapInit\nNEXT MapNext\nINVARIANT MapEmit\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json([])}, workers=4, timeout=600))
    rs = parallel(jobs, 4)
    want = {}
    for k, r in enumerate(rs[:3]):
        for n, es, w, h, s in r.seqs('B'):
            want[k + 3 * (n - 1)] = ([tuple(e) for e in es], (w, h, list(s)))

    check.section('exporting %d layouts at every level' % len(ls))
    exported = {}
    labels = {'normal': None, 'fast': 'A "label" — ünïcode', 'express': ''}

    def export(level):
        def run():
            args = ['encode', '--level', level] + (['--label', labels[level]] if labels[level] is not None else [])
            r = feed('blueprint', args, [json.dumps(grid_json(*x)) for x in ls])
            outs = r.out.split()
            if len(outs) != len(ls):
                raise Violation('blueprint encode failed on a layout', {'layout': grid_json(*ls[min(len(outs), len(ls) - 1)]), 'stderr': r.err[-1500:]})
            return outs
        return run
    for level, outs in zip(LEVELS, parallel([export(level) for level in LEVELS], 3)):
        exported[level] = outs
        for i, text in enumerate(outs):
            data = unpack(text)
            es = data['blueprint']['entities']
            got = [of_entity(e, level) for e in es]
            bad = None
            if sorted(map(str, got)) != sorted(map(str, want[i][0])):
                bad = 'exports the wrong entities'
            elif [e['entity_number'] for e in es] != list(range(1, len(es) + 1)):
                bad = 'does not number the entities consecutively'
            elif data['blueprint'].get('label') != labels[level]:
                bad = 'carries the wrong label'
            elif data['blueprint'].get('item') != 'blueprint':
                bad = 'is not marked as a blueprint'
            if bad:
                check.violation('the exported blueprint (%s) %s' % (level, bad), {'layout': ls[i], 'expected': want[i][0], 'got': es})
            check.count(1, 'exported')
    default = feed('blueprint', ['encode'], [json.dumps(grid_json(*x)) for x in ls[:20]]).out.split()
    if [unpack(x) for x in default] != [unpack(x) for x in exported['normal'][:20]]:
        check.violation('blueprint encode without a level is not the normal level')

    check.section('importing them again, and %d maps, anywhere' % len(maps))
    lines, expect = [], []
    for i in range(len(ls)):
        level = rnd.choice(list(LEVELS))
        lines.append(exported[level][i])
        expect.append(i)
    for i, c in enumerate(cases):
        es = [(k, x + 2 * c['dx'], y + 2 * c['dy'], d) for k, x, y, d in want[i][0]]
        rnd.shuffle(es)
        lines.append(pack(blueprint([entity(e, n + 1, rnd) for n, e in enumerate(es)], rnd)))
        expect.append(i)
    for line, i, out in zip(lines, expect, decode_all(lines)):
        got = grid_ids(out)
        if tuple(got) != want[i][1]:
            check.violation('importing a blueprint gives the wrong layout', {'blueprint': unpack(line), 'expected': grid_json(*want[i][1]), 'got': out})
        check.count(1, 'imported')

    check.section('importing every map around a belt')
    ms = [(es, (w, h, list(s))) for es, w, h, s in rs[3].seqs('M')]
    lines = []
    for es, _ in ms:
        lines.append(pack(blueprint([entity(e, n + 1, rnd, 'normal') for n, e in enumerate(es)], rnd)))
    for line, (es, w), out in zip(lines, ms, decode_all(lines)):
        if tuple(grid_ids(out)) != w:
            check.violation('importing a small map gives the wrong layout', {'blueprint': unpack(line), 'expected': grid_json(*w), 'got': out})
    check.count(len(ms), 'small maps')
    check.sample('map %s -> %s' % (ms[len(ms) // 2][0], ms[len(ms) // 2][1]))

    check.section('nothing to import; not a blueprint')
    r = feed('blueprint', ['decode'], [pack(blueprint([], rnd))])
    if r.out.strip() != '[]':
        check.violation('importing a blueprint without entities fails', {'out': r.out, 'stderr': r.err[-1000:]})
    good = lines[0]
    for bad in ('1' + good[1:], '0' + good[5:], good[1:], pack(blueprint([{'entity_number': 1, 'name': 'pipe', 'position': {'x': .5, 'y': .5}}], rnd))):
        r = feed('blueprint', ['decode'], [bad])
        if r.rc == 0 or r.out.strip():
            check.violation('something that is no supported blueprint was imported', {'string': bad, 'out': r.out})
        check.count(1, 'rejected')
    code_import()
    from factorio_sat.blueprint import convert_to_tiles, write_tile
    for i in rnd.sample(range(len(ls)), 30):
        a = [[write_tile(t) for t in row] for row in convert_to_tiles(exported['normal'][i])]
        b = [[write_tile(t) for t in row] for row in convert_to_tiles(json.dumps(grid_json(*ls[i])))]
        if tuple(grid_ids(a)) != want[i][1] or grid_ids(b)[2] != [canon(t) for t in ls[i][2]]:
            check.violation('reading a layout given as blueprint or JSON is wrong', {'layout': ls[i], 'as blueprint': a, 'as JSON': b})
        check.count(1, 'either form')
    # several exports in one program: none of them changes another
    from factorio_sat.blueprint import TransportBeltLevel, make_blueprint
    picked = rnd.sample(range(len(ls)), 40)
    level_of = {i: rnd.choice(list(LEVELS)) for i in picked}
    label_of = {i: rnd.choice([None, None, 'a label', 'another']) for i in picked}
    made = {i: make_blueprint(convert_to_tiles(json.dumps(grid_json(*ls[i]))), label_of[i], TransportBeltLevel[level_of[i].upper()]) for i in picked}
    for i, data in made.items():
        data = data['blueprint']
        if sorted(str(of_entity(e, level_of[i])) for e in data['entities']) != sorted(map(str, want[i][0])) or data.get('label') != label_of[i]:
            check.violation('a blueprint exported among others in one program is wrong', {'layout': ls[i], 'label': label_of[i], 'got': data})
        check.count(1, 'exported together')
    check.assumptions += ['entities do not overlap', 'legacy raw-field JSON without a tile description is not covered']


if __name__ == '__main__':
    main('C11', body)
