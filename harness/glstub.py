"""Stand-ins for OpenGL, pygame's window, the sprite sheets and ffmpeg: they record what the viewer draws, shows, prints and saves."""
import io
import json
import math
import os
import re
import sys

# the game's sprite sheets: width and height of one sprite, columns, rows
SHEETS = {
    'hr-transport-belt.png': (128, 128, 16, 20), 'hr-underground-belt-structure.png': (192, 192, 4, 4),
    'hr-splitter-east.png': (90, 84, 8, 4), 'hr-splitter-east-top_patch.png': (90, 104, 8, 4), 'hr-splitter-west.png': (90, 86, 8, 4),
    'hr-splitter-west-top_patch.png': (90, 96, 8, 4), 'hr-splitter-north.png': (160, 70, 8, 4), 'hr-splitter-south.png': (164, 64, 8, 4),
    'hr-inserter-platform.png': (105, 79, 4, 1), 'hr-long-handed-inserter-platform.png': (105, 79, 4, 1),
    'hr-inserter-hand-base.png': (32, 136, 1, 1), 'hr-inserter-hand-open.png': (72, 164, 1, 1), 'hr-inserter-hand-closed.png': (72, 164, 1, 1),
    'hr-long-handed-inserter-hand-base.png': (32, 136, 1, 1), 'hr-long-handed-inserter-hand-open.png': (72, 164, 1, 1), 'hr-long-handed-inserter-hand-closed.png': (72, 164, 1, 1),
    'hr-assembling-machine-1.png': (214, 226, 8, 4),
}


class TooLong(BaseException):
    pass


class Sheet:
    """What PIL would load; remembers whether it was turned upside down."""
    def __init__(self, name, flipped=False):
        self.name, self.flipped = name, flipped
        w, h, cols, rows = SHEETS[name]
        self.size = self.width, self.height = w * cols, h * rows

    def transpose(self, how):
        from PIL import Image
        if how != Image.FLIP_TOP_BOTTOM:
            raise RuntimeError('unexpected operation')
        return Sheet(self.name, not self.flipped)

    def convert(self, mode=None):
        return self

    def tobytes(self, *a):
        return ('%s|%d' % (self.name, self.flipped)).encode()


def mul(a, b):
    """Affine maps (a b c d x y): p -> (a px + b py + x, c px + d py + y); the map b, then a."""
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[0] * b[4] + a[1] * b[5] + a[4], a[2] * b[4] + a[3] * b[5] + a[5])


ID = (1., 0., 0., 1., 0., 0.)


class GL:
    """As much of OpenGL as is needed, with pictures as lists of what was drawn."""
    def __init__(self, G):
        self.G = G
        self.next = 1
        self.textures = {}
        self.fbs = {0: {'pic': (), 'tex': None}}
        self.draw = self.read = 0
        self.texture = 0
        self.enabled = False
        self.mode = G.GL_MODELVIEW
        self.stacks = {G.GL_MODELVIEW: [ID], G.GL_PROJECTION: [ID], G.GL_TEXTURE: [ID]}
        self.colour = (1., 1., 1.)
        self.viewport = (0, 0, 1, 1)
        self.begun = None
        self.pics = []          # all distinct pictures
        self.index = {}
        self.shown = None

    def fresh(self):
        self.next += 1
        return self.next

    # matrices
    def top(self):
        return self.stacks[self.mode]

    def glMatrixMode(self, m):
        self.mode = m

    def glLoadIdentity(self):
        self.top()[-1] = ID

    def glPushMatrix(self):
        self.top().append(self.top()[-1])

    def glPopMatrix(self):
        self.top().pop()
        if not self.top():
            raise RuntimeError('stack underflow')

    def apply(self, m):
        self.top()[-1] = mul(self.top()[-1], m)

    def glTranslatef(self, x, y, z):
        self.apply((1., 0., 0., 1., float(x), float(y)))

    glTranslated = glTranslatef

    def glScalef(self, x, y, z):
        self.apply((float(x), 0., 0., float(y), 0., 0.))

    glScaled = glScalef

    def glRotatef(self, a, x, y, z):
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a)) * (1 if z > 0 else -1)
        self.apply((c, -s, s, c, 0., 0.))

    glRotated = glRotatef

    def gluOrtho2D(self, l, r, b, t):
        self.apply((2. / (r - l), 0., 0., 2. / (t - b), -(r + l) / (r - l), -(t + b) / (t - b)))

    def glOrtho(self, l, r, b, t, n=0, f=0):
        self.gluOrtho2D(l, r, b, t)

    # drawing
    def glColor3f(self, r, g, b):
        self.colour = (float(r), float(g), float(b))

    glColor3d = glColor3f

    def glColor3fv(self, v):
        self.glColor3f(*v)

    glColor3dv = glColor3fv

    def glColor4f(self, r, g, b, a):
        self.glColor3f(r, g, b)

    def glEnable(self, c):
        if c == self.G.GL_TEXTURE_2D:
            self.enabled = True

    def glDisable(self, c):
        if c == self.G.GL_TEXTURE_2D:
            self.enabled = False

    def glBegin(self, what):
        self.begun = what
        self.verts = []
        self.coord = (0., 0.)

    def glTexCoord2f(self, s, t):
        self.coord = (float(s), float(t))

    glTexCoord = glTexCoord2d = glTexCoord2i = glTexCoord2f

    def glTexCoord2fv(self, v):
        self.glTexCoord2f(*v)

    glTexCoord2dv = glTexCoord2fv

    def glVertex2f(self, x, y):
        m = mul(self.stacks[self.G.GL_PROJECTION][-1], self.stacks[self.G.GL_MODELVIEW][-1])
        self.verts.append((m[0] * x + m[1] * y + m[4], m[2] * x + m[3] * y + m[5], self.coord, self.colour))

    glVertex2d = glVertex2i = glVertex2f

    def glVertex2fv(self, v):
        self.glVertex2f(*v)

    glVertex2dv = glVertex2fv

    def glVertex3f(self, x, y, z):
        self.glVertex2f(x, y)

    def glEnd(self):
        G = self.G
        n = {G.GL_QUADS: 4, G.GL_LINES: 2}.get(self.begun)
        if n is None:
            raise RuntimeError('unexpected primitive')
        new = []
        for i in range(0, len(self.verts) - n + 1, n):
            vs = self.verts[i:i + n]
            img = self.textures.get(self.texture, {}).get('image') if self.enabled and n == 4 else None
            new.append((n, img, tuple((round(v[0], 9), round(v[1], 9), v[2]) for v in vs), vs[0][3]))
        fb = self.fbs[self.draw]
        fb['pic'] = fb['pic'] + tuple(new)
        self.begun = None

    def glClear(self, mask):
        self.fbs[self.draw]['pic'] = ()

    # textures
    def glGenTextures(self, n):
        t = self.fresh()
        self.textures[t] = {}
        return t

    def glBindTexture(self, kind, t):
        self.texture = int(t)

    def glDeleteTextures(self, *a):
        pass

    def glTexParameteri(self, *a):
        pass

    def glTexImage2D(self, target, level, internal, w, h, border, fmt, kind, data):
        img = None
        if isinstance(data, bytes):
            name, flipped = data.decode().split('|')
            img = ('sheet', name, flipped == '1', w, h)
        elif data is not None:
            n = int(data[0, 0, 3])
            img = ('text', bytes(data[0, 1:1 + n, 3].tolist()).decode('ascii', 'replace'))
        self.textures[self.texture] = {'image': img, 'size': (w, h)}

    def glGetTexLevelParameteriv(self, target, level, what):
        return self.textures[self.texture]['size'][0 if what == self.G.GL_TEXTURE_WIDTH else 1]

    def glGetTexImage(self, target, level, fmt, kind, *a):
        import numpy as np
        w, h = self.textures[self.texture]['size']
        fb = [f for f in self.fbs.values() if f['tex'] == self.texture]
        data = np.zeros((h, w, 3), np.uint8)
        k = self.pic(fb[-1]['pic']) if fb else 65535
        data[0, 0] = k & 255, k >> 8, 99        # row 0 is the lowest
        return data.tobytes()

    # framebuffers
    def glGenFramebuffers(self, n):
        f = self.fresh()
        self.fbs[f] = {'pic': (), 'tex': None}
        return f

    def glBindFramebuffer(self, target, f):
        f = int(f)
        if target in (self.G.GL_FRAMEBUFFER, self.G.GL_DRAW_FRAMEBUFFER):
            self.draw = f
        if target in (self.G.GL_FRAMEBUFFER, self.G.GL_READ_FRAMEBUFFER):
            self.read = f
        self.fbs[f]

    def glDeleteFramebuffers(self, n, fs):
        for f in list(fs)[:n]:
            self.fbs.pop(int(f), None)

    def glFramebufferTexture2D(self, target, attachment, kind, texture, level):
        self.fbs[self.draw]['tex'] = int(texture)

    def glBlitFramebuffer(self, *a):
        self.fbs[self.draw]['pic'] = self.fbs[self.read]['pic']
        if self.draw == 0:
            self.shown = self.pic(self.fbs[0]['pic'])

    def glGenRenderbuffers(self, n):
        return self.fresh()

    def glGetIntegerv(self, what):
        return self.viewport

    def glViewport(self, *a):
        self.viewport = tuple(a)

    def pic(self, prims):
        if prims not in self.index:
            self.index[prims] = len(self.pics)
            self.pics.append(prims)
        return self.index[prims]


class Font:
    """Writes text into the pixels: the first row holds its length and its bytes."""
    def __init__(self, *a, **k):
        pass

    def size(self, text):
        return (max(len(text), 1) * 5 + 2, 10)

    def render(self, text, *a, **k):
        import numpy as np
        import pygame
        w, h = self.size(text)
        s = pygame.Surface((w, h), 0, 32)
        px = np.zeros((w, h, 3), np.uint8)
        b = text.encode('ascii', 'replace')
        px[0, 0, 0] = len(b)
        for i, c in enumerate(b):
            px[i + 1, 0, 0] = c
        pygame.surfarray.blit_array(s, px)
        return s


class Stdin(io.StringIO):
    """Counts the lines taken and notices that the end was seen."""
    def __init__(self, lines):
        super().__init__()
        self.lines, self.read, self.over = list(lines), 0, False

    def readline(self, *a):
        if self.read >= len(self.lines):
            self.over = True
            return ''
        self.read += 1
        return self.lines[self.read - 1] + '\n'

    def __iter__(self):
        return iter(self.readline, '')


def view(lines, args, script, most=4000):
    """Runs the viewer on the given lines of input; script[i] is the keys waiting before picture i (the window is closed at its end).
    Returns (steps, pictures, sizes of the window, exit)."""
    import contextlib
    import pygame
    import OpenGL.GL as G
    import OpenGL.GLU
    from factorio_sat import render, tilemaps
    import ffmpeg
    gl = GL(G)
    KEYS = {'next': pygame.K_i, 'prev': pygame.K_k, 'save': pygame.K_s, 'export': pygame.K_e, 'other': pygame.K_x}
    steps = []
    state = {'size': None, 'title': None, 'saved': [], 'keys': [], 'n': 0}
    out = io.StringIO()
    stdin = Stdin(lines)
    saved = []

    def put(obj, name, value):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def set_mode(size, *a, **k):
        state['size'] = [int(x) for x in size]
        if state['n'] == 0 and not steps and state.get('first', True):
            gl.viewport = (0, 0, *state['size'])
            state['first'] = False

    def caption(text, *a):
        m = re.search(r'- (\d+):', text)
        if m:
            state['title'] = int(m.group(1))

    def events(*a, **k):
        if state['n'] > most:
            raise TooLong()
        keys = script[state['n']] if script is not None and state['n'] < len(script) else (['quit'] if script is not None else [])
        state['keys'] = list(keys)
        state['n'] += 1
        state['out'] = len(out.getvalue())
        return [pygame.event.Event(pygame.QUIT) if k == 'quit' else pygame.event.Event(pygame.KEYUP, key=pygame.K_i) if k == 'up' else pygame.event.Event(pygame.KEYDOWN, key=KEYS[k]) for k in keys]

    def flip(*a):
        steps.append({'keys': [k for k in state['keys'] if k not in ('other', 'up')], 'pic': gl.shown, 'size': state['shownsize'], 'title': state['title'], 'saved': state['saved'],
                      'text': out.getvalue()[state['out']:], 'read': stdin.read, 'over': stdin.over})
        state['saved'] = []

    class Clock:
        def tick(self, *a):
            return 16

        def get_fps(self):
            return 60.0

    class Video:
        def __init__(self):
            self.data, self.stdin, self.name = [], self, None

        def output(self, name, *a, **k):
            self.name = name
            return self

        def overwrite_output(self, *a):
            return self

        def run_async(self, *a, **k):
            return self

        def write(self, b):
            self.data.append(bytes(b))

        def close(self):
            pass

        def wait(self):
            w, h = self.frame
            pics = []
            for b in (b''.join(self.data)[i:i + w * h * 3] for i in range(0, sum(map(len, self.data)), w * h * 3)):
                px = b[(h - 1) * w * 3:(h - 1) * w * 3 + 3]
                pics.append(px[0] + 256 * px[1] if len(b) == w * h * 3 and px[2] == 99 else -1)
            state['saved'].append({'name': self.name, 'pics': pics, 'size': [w, h]})

    def ffin(name, *a, s=None, **k):
        v = Video()
        v.frame = tuple(map(int, s.split('x')))
        return v
    gl_blit = gl.glBlitFramebuffer

    def blit(*a):
        gl_blit(*a)
        if gl.draw == 0:
            state['shownsize'] = list(gl.viewport[2:]) if list(gl.viewport) == [0, 0, *state['size']] else [-1, -1]
    gl.glBlitFramebuffer = blit
    for mod in (render, tilemaps):
        for n in dir(mod):
            if re.match(r'glu?[A-Z]', n) and callable(getattr(mod, n)):
                put(mod, n, getattr(gl, n, lambda *a, **k: None))
    put(tilemaps.Image, 'open', lambda path, *a, **k: Sheet(os.path.basename(str(path))))
    put(pygame.display, 'init', lambda: None)
    put(pygame.display, 'set_mode', set_mode)
    put(pygame.display, 'set_caption', caption)
    put(pygame.display, 'flip', flip)
    put(pygame.event, 'get', events)
    put(pygame.font, 'init', lambda: None)
    put(pygame.font, 'Font', Font)
    put(pygame.time, 'Clock', Clock)
    put(pygame, 'quit', lambda: None)
    put(ffmpeg, 'input', ffin)
    put(sys, 'argv', ['render', *args])
    put(sys, 'stdin', stdin)
    import builtins

    def read(prompt=''):
        line = sys.stdin.readline()
        if line == '':
            raise EOFError
        return line.rstrip('\n')
    put(builtins, 'input', read)
    end = 'ok'
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                render.main()
            except SystemExit as e:
                end = 'exit %r' % e.code if e.code else 'ok'
            except TooLong:
                end = 'does not end'
            except Exception as e:
                import traceback
                end = traceback.format_exc()[-1500:]
    finally:
        for obj, name, value in reversed(saved):
            setattr(obj, name, value)
    return steps, gl.pics, end, out.getvalue()
