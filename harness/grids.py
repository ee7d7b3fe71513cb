"""Layouts for the conversion tools: the codec for all tiles and layouts to start from."""
import random
from lib import *

FILLER = 45


def xtile_json(t):
    if t <= 44:
        return tile_json(t)
    if t == FILLER:
        return {'type': 'filler'}
    if t <= 53:
        return {'type': 'inserter', 'direction': (t - 46) // 2, 'insert_type': (t - 46) % 2}
    return {'type': 'assembling_machine', 'x': (t - 54) % 3, 'y': (t - 54) // 3}


XID = {}
for _t in range(62, -1, -1):
    XID[json.dumps(xtile_json(_t), sort_keys=True)] = _t
for _d in range(4):
    for _h in (0, 1):
        XID[json.dumps(xtile_json(21 + 6 * _d + 3 * _h), sort_keys=True)] = 21 + 6 * _d + 3 * _h


def xid(tile):
    """The id of a 'tile' description; None if it is none."""
    return XID.get(json.dumps(tile, sort_keys=True))


def canon(t):
    return 21 + (t - 21) // 3 * 3 if 21 <= t <= 44 else t


def grid_json(w, h, s):
    return [[{'tile': xtile_json(s[y * w + x])} for x in range(w)] for y in range(h)]


def grid_ids(data):
    """(w, h, ids) of a printed layout, from its tile descriptions."""
    h = len(data)
    w = len(data[0]) if h else 0
    return w, h, [xid(c['tile']) for row in data for c in row]


def valid_layouts(sizes, n, seed, timeout=120):
    """Layouts obeying the belt rules, drawn by TLC's simulator from Enumerate.tla.  sizes: (w, h)."""
    ok = {'wx': False, 'wy': False, 'L': 4, 'ub': [False] * 4, 'bb': [False] * 4}
    res = {}
    for k, (w, h) in enumerate(sizes):
        conf = dict(ok, w=w, h=h, allowed=[list(range(45))])
        r = run_tlc('Enumerate', 'INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', {'CFG': write_json([conf])}, workers=1, timeout=timeout,
                    args=['-simulate', 'num=%d' % n, '-depth', w * h + 1, '-seed', seed * 1000 + k])
        for _, g in r.seqs('L'):
            res[w, h, tuple(g)] = True
    return list(res)


def soup(w, h, rnd, tiles):
    return [rnd.choice(tiles) for _ in range(w * h)]


def with_splitters(w, h, rnd, tiles, count=3):
    """Random tiles with complete splitters."""
    s = [rnd.choice(tiles) for _ in range(w * h)]
    used = set()
    vec = ((1, 0), (0, -1), (-1, 0), (0, 1))
    for _ in range(count * 4):
        d, x, y = rnd.randrange(4), rnd.randrange(w), rnd.randrange(h)
        dx, dy = vec[(d + 1) % 4]
        a, b = (x, y), (x + dx, y + dy)
        if not (0 <= b[0] < w and 0 <= b[1] < h) or a in used or b in used or count <= 0:
            continue
        count -= 1
        used |= {a, b}
        s[y * w + x] = 21 + 6 * d + 3
        s[b[1] * w + b[0]] = 21 + 6 * d
    return s


NOT_SPLIT = list(range(21))


def feed(tool, args, lines, timeout=240):
    """One output per input line of a tool that reads lines until its input ends; (outputs, stderr)."""
    r = run_cli(tool, args, stdin=''.join(line + '\n' for line in lines), timeout=timeout)
    if r.timed_out:
        raise Violation('%s does not end' % ' '.join(r.args))
    return r
