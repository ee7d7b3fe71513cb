"""C19: the viewer shows, steps through and saves exactly the layouts it is given.

Viewer.tla (what keys do, what is read, shown and saved when) and Picture.tla (what the picture of a layout consists of) are checked by TLC; the real
viewer runs on layouts and key presses with recording stand-ins for the window, OpenGL, the sprite sheets and ffmpeg, and TLC checks the recordings
step by step and every distinct picture piece by piece."""
import base64
import math
import zlib
from grids import *

MODEL_CFG = 'SPECIFICATION MSpec\nCONSTANTS Lengths <- %s\nBatch = %s\nPresslimit = %d\nINVARIANTS InRange OverMeansAll Complete Own BackAndForth InOrder\nPROPERTIES Everything SavedInTheEnd\nCHECK_DEADLOCK FALSE\n'
TRACE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TEmit\nCONSTANTS Lengths <- L1\nBatch = FALSE\nPresslimit = 4\nCHECK_DEADLOCK FALSE\n'
PIC_CFG = 'INIT JInit\nNEXT JNext\nINVARIANT JEmit\nCHECK_DEADLOCK FALSE\n'
SELF_CFG = 'INIT SInit\nNEXT SNext\nINVARIANTS Distinct AllRows Frames Halves\nCHECK_DEADLOCK FALSE\n'
NAMES = {'hr-transport-belt': 1, 'hr-underground-belt-structure': 2, 'hr-splitter-east': 3, 'hr-splitter-east-top_patch': 4, 'hr-splitter-west': 5, 'hr-splitter-west-top_patch': 6, 'hr-splitter-north': 7,
         'hr-splitter-south': 8, 'hr-inserter-platform': 9, 'hr-long-handed-inserter-platform': 10, 'hr-assembling-machine-1': 11, 'hr-inserter-hand-base': 12, 'hr-long-handed-inserter-hand-base': 13,
         'hr-inserter-hand-open': 14, 'hr-long-handed-inserter-hand-open': 15, 'hr-inserter-hand-closed': 16, 'hr-long-handed-inserter-hand-closed': 17}
MIDDLE = set(range(5, 12)) | set(range(21, 28))


def code(t):
    """Tile ids of the conversion tools -> those of Picture.tla."""
    if t <= 44:
        return t
    if t == FILLER:
        return 0
    if t <= 53:
        return 100 + 4 * ((t - 46) % 2) + (t - 46) // 2
    return 200 + t - 54


def layout(rnd, w, h, style):
    """Cells as the generators print them, with colours and undergrounds; ids."""
    tiles = {'belts': list(range(21)) + [0] * 4, 'all': list(range(21)) + [FILLER] + list(range(46, 63)), 'export': list(range(21)) + list(range(46, 54)), 'splitters': list(range(21)) + [0] * 4}[style]
    g = with_splitters(w, h, rnd, tiles, rnd.choice([1, 2, 3])) if style == 'splitters' or style in ('all', 'export') and rnd.random() < .5 else soup(w, h, rnd, tiles)
    n = rnd.choice([1, 2, 3, 4, 6])
    form = rnd.choice(['int', 'int', 'list', 'none', 'missing'])
    cells = []
    for y in range(h):
        row = []
        for x in range(w):
            c = {'tile': xtile_json(g[y * w + x])}
            if form != 'missing':
                for k in ('colour', 'colour_ux', 'colour_uy'):
                    v = rnd.randrange(n)
                    c[k] = None if rnd.random() < (.5 if form == 'none' else .2) else [v] if form == 'list' else v
                c['underground'] = [rnd.random() < .3 for _ in range(4)]
                if form == 'int':
                    c['is_splitter'] = c['tile']['type'] == 'splitter'
            row.append(c)
        cells.append(row)
    return cells


def colour_of(c, key):
    v = c.get(key, 0)
    if isinstance(v, list):
        v = v[0]
    return -1 if v is None else v


def shown_text(c, name):
    import numpy as np
    v = c
    for part in name.split('.'):
        v = v[int(part)] if part.isdigit() else v.get(part)
    return str(np.array(v)).split('\n')


def pieces(pic, w, h, pad, anim):
    """A recorded picture in the terms of Picture.tla."""
    sprites, hands, lines, texts = [], [], [], {}
    tints = {(1., 1., 1.): 0, (.5, .5, .5): 1}
    bases = []

    def cell(v):
        return (v[0] + 1) / 2 * (w + 2 * pad) - pad, (1 - v[1]) / 2 * (h + 2 * pad) - pad

    def tint(c):
        c = tuple(round(float(x), 6) for x in c)
        return tints.setdefault(c, len(tints))
    for n, img, vs, colour in pic:
        pts = [cell(v) for v in vs]
        if n == 2:
            if colour != (1., 0., 0.):
                a, b = sorted((round(256 * x), round(256 * y)) for x, y in pts)
                lines.append([*a, *b, tint(colour)])
        elif img is None:
            sprites.append([0] * 9 + [tint(colour)])
        elif img[0] == 'text':
            x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
            texts.setdefault((math.floor(x0 + 1e-6), math.floor(y0 + 1e-6)), []).append((y0, img[1], tint(colour)))
        else:
            _, name, flipped, W, H = img
            sheet = NAMES[name[:-4]]
            if sheet >= 12:
                mid = lambda i, j: ((pts[i][0] + pts[j][0]) / 2, (pts[i][1] + pts[j][1]) / 2)
                # the ends of the hand: where it is fixed and its tip, by the part of the sheet shown there
                low = [i for i in range(4) if vs[i][2][1] < .5]
                high = [i for i in range(4) if vs[i][2][1] >= .5]
                if len(low) != 2 or len(high) != 2:
                    hands.append([sheet, -1, -1, -1])
                    continue
                a, b = mid(*low), mid(*high)
                if sheet in (12, 13):
                    bases.append((sheet, a, b))
                    hands.append([sheet, math.floor(a[0]), math.floor(a[1]), -1])
                else:
                    hands.append([sheet, a, b])
                continue
            src = [(W * v[2][0], H * (1 - v[2][1]) if flipped else H * v[2][1]) for v in vs]
            x0, y0 = min(p[0] for p in src), min(p[1] for p in src)
            x1, y1 = max(p[0] for p in src), max(p[1] for p in src)
            X0, Y0 = min(p[0] for p in pts), min(p[1] for p in pts)
            X1, Y1 = max(p[0] for p in pts), max(p[1] for p in pts)
            # shown upright: every corner of the part lies at the same corner of the place
            upright = all((abs(p[0] - x0) < 1e-3) == (abs(q[0] - X0) < 1e-6) and (abs(p[1] - y0) < 1e-3) == (abs(q[1] - Y0) < 1e-6) for p, q in zip(src, pts))
            sprites.append([sheet if upright else -sheet] + [round(4 * v) for v in (x0, y0, x1, y1)] + [round(256 * v) for v in (X0, Y0, X1, Y1)] + [tint(colour)])
    done = []
    for hd in hands:
        if len(hd) == 4:
            done.append(hd)
            continue
        sheet, a, b = hd
        # it hangs at the end of the arm of one of the inserters
        at = [p for _, p, q in bases if math.dist((p[0] + (q[0] - p[0]) * 29 / 32, p[1] + (q[1] - p[1]) * 29 / 32), a) < .06]
        if not at:
            done.append([sheet, -1, -1, -1])
            continue
        c = math.floor(at[0][0]), math.floor(at[0][1])
        dx, dy = b[0] - (c[0] + .5), b[1] - (c[1] + .5)
        side = -1 if anim in MIDDLE else (0 if dx > 0 else 2) if abs(dx) > abs(dy) else (3 if dy > 0 else 1)
        done.append([sheet, *c, side])
    shown = [[t for _, t, _ in sorted(texts.get((n % w, n // w), []), key=lambda z: z[0])] for n in range(w * h)]
    if sum(map(len, shown)) != sum(map(len, texts.values())):
        shown = [['outside']]
    return {'sprites': sprites, 'hands': sorted(done), 'lines': lines, 'texts': shown}


def decoded(line):
    return json.loads(zlib.decompress(base64.b64decode(line[1:])))


def run(job):
    """One run of the viewer; what was recorded in the terms of Viewer.tla, and its pictures."""
    os.environ['PYGAME_HIDE_SUPPORT_PROMPT'] = '1'
    from glstub import view
    steps, pics, end, out = view([json.dumps(l) for l in job['layouts']], job['args'], job['script'])
    return steps, pics, end, out


def blueprints(layouts):
    ok, out, err = call_main('blueprint', ['encode'], ''.join(json.dumps(l) + '\n' for l in layouts))
    return [decoded(x) for x in out.splitlines()]       # (it reads until the end of its input, which it reports as an error)


def body(check):
    code_import()
    check.section('TLC checks the viewer and the pictures themselves')
    jobs = [lambda l=l, b=b: run_tlc('Viewer', MODEL_CFG % (l, b, 4 if check.quick else 7), {'CASES': write_json([])}, workers=2, timeout=600) for l in ('L1', 'L2', 'L3') for b in ('FALSE', 'TRUE')]
    jobs.append(lambda: run_tlc('Picture', SELF_CFG, {'CASES': write_json([])}, workers=1, timeout=600))
    parallel(jobs, 4)
    check.section('running the viewer')
    rnd = random.Random(SEED)
    todo = []
    for k in range(70 if check.quick else 600):
        n = rnd.choice([1, 2, 2, 3])
        keys = k % 3 != 0
        style = ['belts', 'splitters', 'export', 'all', 'all'][k % 5]
        fixed = rnd.random() < .3
        layouts = [layout(rnd, rnd.choice([1, 2, 3, 4]), rnd.choice([1, 2, 3]), style) for _ in range(n)]
        cs, pad = rnd.choice([(32, 0), (16, 0), (7, 0.5), (20, 1), (33, 0.25)])
        args = [] if cs == 32 and rnd.random() < .5 else ['--cell-size', str(cs)]
        args += ['--padding', str(pad)] if pad else []
        hide, lined, fmt = rnd.random() < .2, rnd.random() < .6, rnd.choice(['gif', 'video', None])
        args += ['--hide-colour'] * hide + ['--show-underground'] * lined + (['--export-format', fmt] if fmt else []) + (['--colour-count', '6'] if fixed else [])
        names = rnd.choice([[], [], ['colour'], ['tile.type'], ['underground', 'colour_ux'], ['tile'], ['underground.%d' % rnd.randrange(4)], ['underground.3', 'colour']])
        if any('underground.' in x for x in names) and not all('underground' in c for l in layouts for r in l for c in r):
            names = []
        for x in names:
            args += ['--show-raw', x]
        if keys:
            script = []
            for _ in range(rnd.choice([20, 60, 90, 150])):
                some = [rnd.choice(['next', 'next', 'prev', 'save', 'other', 'up'] + ['export'] * (style != 'all')) for _ in range(rnd.choice([1, 1, 2, 3]))]
                script.append(some if rnd.random() < rnd.choice([.02, .1]) else [])
            if k % 2:
                script[0] = ['save']
                script += [[] for _ in range(64)]
        else:
            script = None
            args.append('--export-all')
        todo.append({'layouts': layouts, 'args': args, 'script': script, 'pad': pad, 'cs': cs, 'hide': hide, 'lined': lined, 'names': names, 'fmt': 'gif' if fmt == 'gif' else 'mp4', 'export': style != 'all'})
    import hashlib
    results = pmap(run, todo)
    exports = pmap(blueprints, [j['layouts'] if j['export'] else [] for j in todo])
    cases = []
    for j, (steps, pics, end, out), bps in zip(todo, results, exports):
        rep = {'layouts': j['layouts'], 'args': j['args'], 'keys': j['script']}
        what = 'render %s' % ' '.join(j['args'])
        if end != 'ok':
            check.violation('%s: the viewer fails: %s' % (what, end.strip().splitlines()[-1]), dict(rep, end=end))
            cases.append(None)
            continue
        rec = []
        for st in steps:
            ex = []
            for line in st['text'].splitlines():
                if line.startswith('0'):
                    try:
                        d = decoded(line)
                    except Exception:
                        d = None
                    ex.append(bps.index(d) if bps and d in bps else -1)
            rec.append({'keys': st['keys'], 'exports': ex, 'pic': st['pic'] + 1 if st['pic'] is not None else 0, 'size': st['size'], 'title': -1 if st['title'] is None else st['title'],
                        'saved': [{'name': s['name'], 'pics': [p + 1 for p in s['pics']], 'size': s['size']} for s in st['saved']], 'read': st['read'], 'over': st['over']})
        extra = round(2 * j['pad'] * j['cs'])
        cases.append({'lens': [32 if any(c['tile']['type'] == 'splitter' for r in l for c in r) else 16 for l in j['layouts']],
                      'sizes': [[len(l[0]) * j['cs'] + extra, len(l) * j['cs'] + extra] for l in j['layouts']],
                      'names': ['%d.%s' % (i, j['fmt']) for i in range(len(j['layouts']))], 'batch': j['script'] is None, 'steps': rec})
    check.section('TLC checks the recordings')
    live = [i for i, c in enumerate(cases) if c is not None]
    shards = [live[k::4] for k in range(4)]
    pairs, answered = set(), 0

    def job(ix):
        return lambda: (ix, run_tlc('Viewer', TRACE_CFG, {'CASES': write_json([cases[i] for i in ix])}, workers=2, timeout=700))
    for ix, r in parallel([job(ix) for ix in shards if ix], 4):
        for at, ps in r.jsons('P'):
            pairs.update((ix[at - 1], *p) for p in ps)
        for at in r.jsons('A'):
            answered += 1
            check.count(len(cases[ix[at - 1]]['steps']), 'steps')
        for at, step, why in r.jsons('R'):
            answered += 1
            i = ix[at - 1]
            check.violation('render %s: the viewer %s (picture %d)' % (' '.join(todo[i]['args']), why, step),
                            {'layouts': todo[i]['layouts'], 'args': todo[i]['args'], 'keys': todo[i]['script'], 'recorded': cases[i]['steps'][max(0, step - 2):step]})
    if answered != len(live):
        raise MachineryError('TLC answered %d of %d recordings' % (answered, len(live)))
    check.section('TLC judges %d pictures' % len(pairs))
    judged, seen = [], {}
    for i, p, l, f in sorted(pairs):
        if p < 1:
            check.violation('render %s: a picture that was never drawn is shown or saved' % ' '.join(todo[i]['args']), {'layouts': todo[i]['layouts'], 'args': todo[i]['args'], 'keys': todo[i]['script'], 'layout': l, 'frame': f})
            continue
        j = todo[i]
        cells = [c for r in j['layouts'][l] for c in r]
        w, h = len(j['layouts'][l][0]), len(j['layouts'][l])
        c = {'w': w, 'h': h, 'tiles': [code(xid(c['tile'])) for c in cells], 'colours': [colour_of(c, 'colour') for c in cells], 'anim': f, 'tinted': not j['hide'],
             'ux': [any(c.get('underground', [])[0::2]) for c in cells], 'uy': [any(c.get('underground', [])[1::2]) for c in cells], 'cux': [colour_of(c, 'colour_ux') for c in cells], 'cuy': [colour_of(c, 'colour_uy') for c in cells],
             'lined': j['lined'], 'shown': [[t for x in j['names'] for t in shown_text(c, x)] for c in cells]}
        c.update(pieces(results[i][1][p - 1], w, h, j['pad'], f))
        key = json.dumps(c, sort_keys=True)
        if key not in seen:
            seen[key] = True
            judged.append((i, l, f, c))
    per = [judged[k::CORES] for k in range(CORES)]

    def look(part):
        return lambda: (part, run_tlc('Picture', PIC_CFG, {'CASES': write_json([c for _, _, _, c in part])}, workers=1, timeout=700))
    n = 0
    for part, r in parallel([look(p) for p in per if p], CORES):
        for at, v in r.jsons('V'):
            n += 1
            i, l, f, c = part[at - 1]
            if v:
                check.violation('render %s: frame %d of a layout is drawn wrongly: %s' % (' '.join(todo[i]['args']), f, ', '.join(sorted(v))), {'layout': todo[i]['layouts'][l], 'args': todo[i]['args'], 'frame': f, 'drawn': {k: c[k] for k in ('sprites', 'hands', 'lines', 'texts')}})
            check.count(1, 'pictures')
    if n != len(judged):
        raise MachineryError('TLC judged %d of %d pictures' % (n, len(judged)))
    check.assumptions += ['OpenGL, the window, ffmpeg and the sprite sheets (not part of the repository) are stand-ins that record what they are given', 'the speed of the animation is not judged beyond two pictures per frame']


if __name__ == '__main__':
    main('C19', body)
