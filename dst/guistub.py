"""Stand-ins for tkinter and PIL: a window with buttons, canvases, variables and an event queue driven by the plan, and an image library
with a trivial file format that is read and written through the simulated disk.

Calls on widgets from another thread are carried out by the event loop, as in Tkinter: the caller waits until the loop gets to it.
"""
import hashlib
import os
import sys
import traceback
import types
import weakref

import numpy as np

from . import simthreads, torchshim
from .core import Hang, Violation

class Quiet:
    """No window: pictures only."""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a: None


UI = Quiet()


class TclError(Exception):
    pass


def content(a):
    a = np.ascontiguousarray(a)
    return '%sx%s:%s' % (a.shape[1], a.shape[0], hashlib.sha256(a.tobytes()).hexdigest()[:16])


# ------------------------------------------------------------------------------------------------ images

class UnidentifiedImageError(OSError):
    pass


MAGIC = b'SIMG'
MODES = {'L': 1, 'RGB': 3, 'RGBA': 4}
EXTS = {'.png', '.jpg', '.jpeg', '.bmp', '.tiff', '.tif', '.webp'}


def encode(mode, a):
    h, w = a.shape[:2]
    return MAGIC + mode.ljust(4).encode() + int(w).to_bytes(4, 'little') + int(h).to_bytes(4, 'little') + np.ascontiguousarray(a).tobytes()


def decode(data):
    """(mode, array) or None when it is not a whole image."""
    if len(data) < 16 or data[:4] != MAGIC:
        return None
    m = data[4:8].decode('ascii', 'replace').strip()
    if m not in MODES:
        return None
    w, h = int.from_bytes(data[8:12], 'little'), int.from_bytes(data[12:16], 'little')
    n = w * h * MODES[m]
    if len(data) - 16 < n:
        return None
    a = np.frombuffer(data[16:16 + n], np.uint8).reshape((h, w) if m == 'L' else (h, w, MODES[m]))
    return m, a


class Resampling:
    NEAREST, LANCZOS, BILINEAR, BICUBIC, BOX, HAMMING = 0, 1, 2, 3, 4, 5


def scale_to(a, w, h, how):
    """Any fixed function of (pixels, size, method)."""
    H, W = a.shape[:2]
    out = a.astype(np.float64)
    for ax, (n, s) in enumerate(((H, h), (W, w))):
        pos = np.clip((np.arange(s) + .5) * n / s - .5, 0, n - 1)
        if how == 0:
            out = np.take(out, np.rint(pos).astype(int), axis=ax)
            continue
        lo = np.floor(pos).astype(int)
        hi = np.minimum(lo + 1, n - 1)
        sh = [1] * out.ndim
        sh[ax] = s
        fr = (pos - lo)
        if how == 3:
            fr = fr * fr * (3 - 2 * fr)
        elif how == 1:
            fr = .5 - .5 * np.cos(np.pi * fr)
        fr = fr.reshape(sh)
        out = np.take(out, lo, axis=ax) * (1 - fr) + np.take(out, hi, axis=ax) * fr
    return np.rint(out).astype(np.uint8)


class Image:
    def __init__(self, mode, a, root=None, lazy=None):
        self.mode = mode
        self._a = a
        self._lazy = lazy
        self._root = root
        self.info = {}
        self.format = None

    def _get(self):
        self.load()
        return self._a

    def load(self):
        if self._a is None:
            f, self._lazy = self._lazy, None
            if f is None:
                raise ValueError('Operation on closed image')
            try:
                n = self._size[0] * self._size[1] * MODES[self.mode]
                data = f.read(n)
            finally:
                f.close()
            if len(data) < n:
                UI.failed('damaged')
                raise OSError('image file is truncated (%d bytes not processed)' % len(data))
            w, h = self._size
            self._a = np.frombuffer(data, np.uint8).reshape((h, w) if self.mode == 'L' else (h, w, MODES[self.mode]))
        return self

    @property
    def size(self):
        return self._size if self._a is None else (self._a.shape[1], self._a.shape[0])

    width = property(lambda s: s.size[0])
    height = property(lambda s: s.size[1])

    def close(self):
        if self._lazy is not None:
            self._lazy.close()
            self._lazy = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    @property
    def root(self):
        return self._root or content(self._get())

    def copy(self):
        return Image(self.mode, self._get().copy(), self.root)

    def convert(self, mode=None):
        a = self._get()
        if mode is None or mode == self.mode:
            return self.copy()
        if self.mode == 'L':
            rgb = np.stack([a] * 3, -1)
        else:
            rgb = a[..., :3]
        if mode == 'RGB':
            return Image('RGB', np.ascontiguousarray(rgb))
        if mode == 'RGBA':
            return Image('RGBA', np.concatenate([rgb, np.full(rgb.shape[:2] + (1,), 255, np.uint8)], -1))
        if mode == 'L':
            return Image('L', np.rint(rgb.mean(-1)).astype(np.uint8))
        raise ValueError('conversion from %s to %s not supported' % (self.mode, mode))

    def resize(self, size, resample=3, box=None, reducing_gap=None):
        w, h = (int(x) for x in size)
        if w < 1 or h < 1:
            raise ValueError('height and width must be > 0')
        return Image(self.mode, scale_to(self._get(), w, h, int(resample)), self.root)

    def thumbnail(self, size, resample=3, reducing_gap=2.0):
        root = self.root
        w, h = self.size
        x, y = int(size[0]), int(size[1])
        if x >= w and y >= h:
            return
        k = min(x / w, y / h)
        self._a = scale_to(self._get(), max(1, int(w * k)), max(1, int(h * k)), int(resample))
        self._root = root

    def crop(self, box):
        l, t, r, b = (int(v) for v in box)
        return Image(self.mode, self._get()[t:b, l:r].copy())

    def paste(self, im, box=(0, 0), mask=None):
        a = np.array(self._get())
        x, y = box[0], box[1]
        a[y:y + im.height, x:x + im.width] = im._get()
        self._a, self._root = a, None

    def getbands(self):
        return tuple(self.mode)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        torchshim.gap('PIL.Image.Image.' + n)

    def tobytes(self, *a):
        return np.ascontiguousarray(self._get()).tobytes()

    def __array__(self, dtype=None, copy=None):
        a = self._get()
        return np.array(a, dtype=dtype) if dtype is not None else np.array(a)

    def getexif(self):
        return {}

    def save(self, fp, format=None, **params):
        if hasattr(fp, 'write'):
            fp.write(encode(self.mode, self._get()))
            return
        path = os.fspath(fp)
        ext = os.path.splitext(path)[1].lower()
        if format is None and ext not in EXTS:
            UI.failed('extension')
            raise ValueError('unknown file extension: ' + ext)
        if ext in ('.jpg', '.jpeg') and self.mode == 'RGBA':
            UI.failed('mode')
            raise OSError('cannot write mode RGBA as JPEG')
        data = encode(self.mode, self._get())
        created = not os.path.exists(path)
        try:
            f = open(path, 'w+b')
        except OSError:
            UI.failed('write')
            raise
        UI.saving(path)
        try:
            k = max(64, len(data) // 3)
            for i in range(0, len(data), k):
                f.write(data[i:i + k])
                UI.step()
            f.close()
        except Exception:
            try:
                f.close()
            except OSError:
                pass
            if created:
                try:
                    os.remove(path)
                except OSError:
                    pass
            raise
        UI.saved(path, content(self._get()))


def image_open(fp, mode='r', formats=None):
    try:
        f = open(fp, 'rb') if not hasattr(fp, 'read') else fp
    except OSError:
        UI.failed('open')
        raise
    head = f.read(16)
    UI.step()
    m = head[4:8].decode('ascii', 'replace').strip() if len(head) == 16 else ''
    if head[:4] != MAGIC or m not in MODES:
        f.close()
        UI.failed('damaged')
        raise UnidentifiedImageError('cannot identify image file %r' % (fp,))
    im = Image(m, None, lazy=f)
    im._size = int.from_bytes(head[8:12], 'little'), int.from_bytes(head[12:16], 'little')
    im.format = 'PNG'
    return im


def image_new(mode, size, color=0):
    a = np.zeros((int(size[1]), int(size[0])) + (() if mode == 'L' else (MODES[mode],)), np.uint8)
    a[...] = np.array(color if color is not None else 0, np.uint8)
    return Image(mode, a)


def contain(image, size, method=3):
    r, d = image.width / image.height, size[0] / size[1]
    if r > d:
        size = (size[0], max(1, round(image.height / image.width * size[0])))
    elif r < d:
        size = (max(1, round(image.width / image.height * size[1])), size[1])
    return image.resize(size, resample=method)


def pad(image, size, method=3, color=None, centering=(.5, .5)):
    im = contain(image, size, method)
    if im.size == tuple(size):
        return im
    out = image_new(image.mode, size, color)
    if im.width != size[0]:
        out.paste(im, (round((size[0] - im.width) * max(0, min(centering[0], 1))), 0))
    else:
        out.paste(im, (0, round((size[1] - im.height) * max(0, min(centering[1], 1)))))
    return out


def expand(image, border=0, fill=0):
    l, t, r, b = (border,) * 4 if isinstance(border, int) else tuple(border) * 2 if len(border) == 2 else border
    out = image_new(image.mode, (image.width + l + r, image.height + t + b), fill)
    out.paste(image, (l, t))
    return out


def fromarray(obj, mode=None):
    a = np.array(obj)
    if a.dtype != np.uint8 or not (a.ndim == 2 or a.ndim == 3 and a.shape[2] in (3, 4)):
        raise TypeError('Cannot handle this data type: %s, %s' % (a.shape, a.dtype))
    m = 'L' if a.ndim == 2 else 'RGB' if a.shape[2] == 3 else 'RGBA'
    return Image(m, a)


class Draw:
    """Nothing is painted: the pictures stay comparable."""

    def __init__(self, im):
        self.im = im
        im._get()

    def textbbox(self, xy, text, font=None, **k):
        return (xy[0], xy[1], xy[0] + 7 * len(text), xy[1] + 11)

    def textlength(self, text, font=None, **k):
        return 7.0 * len(text)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def truetype(*a, **k):
    raise OSError('cannot open resource')


# ------------------------------------------------------------------------------------------------ window

class PhotoImage:
    def __init__(self, image=None, **k):
        self.image = UI.call(lambda: (image.root, image.size, content(image._get())))
        self._w, self._h = image.size

    def width(self):
        return self._w

    def height(self):
        return self._h


class Var:
    def __init__(self, master=None, value='', name=None):
        self._v = value
        UI.vars.append(self)

    def set(self, v):
        UI.call(lambda: self._set(v))

    def _set(self, v):
        self._v = v
        UI.text(v)

    def get(self):
        return UI.call(lambda: self._v)

    def trace_add(self, *a):
        return 'trace'


class Event:
    def __init__(self, widget, w, h):
        self.widget, self.width, self.height, self.x, self.y = widget, w, h, 0, 0


class Widget:
    def __init__(self, master=None, **kw):
        UI.call(lambda: self._init(master, kw))

    def _init(self, master, kw):
        self.master = master
        self.kw = dict(kw)
        self.children = {}
        self.binds = {}
        self.alive = True
        self.content = ''
        self.items = {}
        self.nitem = 0
        self.size = (1, 1)
        UI.widgets.append(self)
        if kw.get('text') and type(self).__name__ == 'Label':
            UI.text(kw['text'])

    def config(self, cnf=None, **kw):
        def do():
            self.kw.update(kw)
            if 'text' in kw:
                UI.text(kw['text'])
        UI.call(do)
    configure = config

    def __setitem__(self, k, v):
        self.config(**{k: v})

    def __getitem__(self, k):
        return UI.call(lambda: self.kw.get(k))

    def cget(self, k):
        return UI.call(lambda: self.kw.get(k))

    def bind(self, seq, fn=None, add=None):
        UI.call(lambda: self.binds.__setitem__(seq, fn))
        return 'bind'

    def after(self, ms, fn=None, *args):
        return UI.call(lambda: UI.add_after(ms, fn, args))

    def after_idle(self, fn, *args):
        return UI.call(lambda: UI.add_after(0, fn, args))

    def after_cancel(self, aid):
        UI.call(lambda: UI.cancel(aid))

    def update_idletasks(self):
        UI.call(lambda: None)

    def update(self):
        UI.call(UI.drain)

    def winfo_width(self):
        return UI.call(lambda: self.size[0])

    def winfo_height(self):
        return UI.call(lambda: self.size[1])

    winfo_reqwidth, winfo_reqheight = winfo_width, winfo_height

    def winfo_exists(self):
        return UI.call(lambda: int(self.alive))

    def destroy(self):
        UI.call(lambda: setattr(self, 'alive', False))

    def __getattr__(self, n):
        if n.startswith('_') or n in ('items', 'binds', 'kw', 'size', 'children', 'master'):
            raise AttributeError(n)
        return lambda *a, **k: UI.call(lambda: None)


class Tk(Widget):
    def mainloop(self, n=0):
        UI.mainloop()

    def quit(self):
        UI.call(lambda: setattr(UI, 'quit', True))

    def destroy(self):
        UI.call(lambda: setattr(UI, 'quit', True))


class Button(Widget):
    def invoke(self):
        return UI.call(lambda: self.kw['command']())


class Canvas(Widget):
    def delete(self, *tags):
        def do():
            for t in tags:
                if t == 'all':
                    self.items.clear()
                else:
                    for k in [k for k, v in self.items.items() if k == t or t in v.get('tags', ())]:
                        del self.items[k]
        UI.call(do)

    def create_image(self, *a, **kw):
        def do():
            self.nitem += 1
            xy = a[0] if len(a) == 1 else a
            tags = kw.get('tags', ())
            self.items[self.nitem] = {'xy': xy, 'image': weakref.ref(kw['image']) if kw.get('image') is not None else None,
                                      'anchor': kw.get('anchor', 'center'), 'tags': (tags,) if isinstance(tags, str) else tuple(tags)}
            return self.nitem
        return UI.call(do)

    def create_text(self, *a, **kw):
        def do():
            self.nitem += 1
            tags = kw.get('tags', ())
            self.items[self.nitem] = {'xy': a, 'image': None, 'text': kw.get('text'), 'tags': (tags,) if isinstance(tags, str) else tuple(tags)}
            return self.nitem
        return UI.call(do)

    create_rectangle = create_line = create_text

    def itemconfig(self, item, **kw):
        def do():
            for k, v in self.items.items():
                if k == item or item in v.get('tags', ()):
                    if 'image' in kw:
                        v['image'] = weakref.ref(kw['image']) if kw['image'] is not None and kw['image'] != '' else None
        UI.call(do)
    itemconfigure = itemconfig

    def find_all(self):
        return UI.call(lambda: tuple(self.items))

    def coords(self, item, *xy):
        def do():
            if xy and item in self.items:
                self.items[item]['xy'] = xy
            return list(self.items[item]['xy']) if item in self.items else []
        return UI.call(do)

    def shown(self):
        """Root contents of the pictures that can be seen."""
        out = []
        for v in self.items.values():
            p = v['image']() if v.get('image') is not None else None
            if p is not None:
                out.append(p.image)
        return out


class Text(Widget):
    def insert(self, where, text, *tags):
        def do():
            self.content += str(text)
        UI.call(do)

    def delete(self, *a):
        def do():
            self.content = ''
        UI.call(do)

    def get(self, *a):
        return UI.call(lambda: self.content)


class Frame(Widget):
    pass


class LabelFrame(Widget):
    pass


class Label(Widget):
    pass


class Toplevel(Widget):
    pass


class Scrollbar(Widget):
    pass


class Separator(Widget):
    pass


class Style(Widget):
    pass


class Progressbar(Widget):
    pass


class Entry(Widget):
    pass


class Req:
    __slots__ = ('fn', 'done', 'val', 'exc', 'event')


class Gui:
    """State of the simulated window system of one run."""

    def __init__(self, world, events, order=(), dwell=()):
        self.world = world
        self.events = list(events)
        self.order = list(order) or [0]
        self.norder = 0
        self.dwell = list(dwell) or [0]
        self.ndwell = 0
        self.vars, self.widgets = [], []
        self.reqs, self.afters = [], []
        self.nafter = 0
        self.quit = False
        self.in_loop = 0
        self.texts = []          # everything shown as text, in order
        self.boxes = []
        self.dialogs = []
        self.files = []          # (path, content) written completely
        self.opened = []
        self.failures = []       # (task id, event, kind)
        self.callback_errors = []
        self.cur_event = None
        self.next_at = 0
        self.on_frame = lambda: None
        self.on_event = lambda e, phase: None
        self.on_text = lambda t: None
        self.ended = False
        self.iterations = 0
        self.calm = 0            # timer callbacks in a row that changed nothing

    # -- from anywhere
    def step(self):
        """A slow system call: others may run meanwhile."""
        w = self.world
        if w.me() is not None and simthreads.WORLD is w:
            w.point(sys._getframe(1))

    def key(self):
        t = self.world.me()
        if t is None or t is self.world.main:
            return ('gui', self.cur_event)
        return ('task', t.id)

    def failed(self, kind):
        self.failures.append((self.key(), kind))

    def saving(self, path):
        self.opened.append(os.path.abspath(path))

    def saved(self, path, c):
        self.files.append((os.path.abspath(path), c, self.key()))

    def text(self, v):
        self.calm = 0
        self.texts.append(str(v))
        self.on_text(str(v))

    def call(self, fn):
        w = self.world
        me = w.me()
        if me is None or me is w.main or simthreads.WORLD is not w:
            return fn()
        if self.ended:
            raise RuntimeError('main thread is not in main loop')
        r = Req()
        r.fn, r.done, r.val, r.exc, r.event = fn, False, None, None, me.event
        self.reqs.append(r)
        w.block(lambda: r.done)
        if r.exc is not None:
            raise r.exc
        return r.val

    def add_after(self, ms, fn, args):
        if fn is None:
            self.world.sleep(ms / 1000)
            return None
        if isinstance(ms, str):
            ms = 0
        if ms <= 0:
            self.calm = 0
        self.nafter += 1
        aid = 'after#%d' % self.nafter
        me = self.world.me()
        self.afters.append((self.world.clock.t + max(0, ms) / 1000, self.nafter, fn, args, self.cur_event, aid))
        return aid

    def cancel(self, aid):
        self.afters = [a for a in self.afters if a[5] != aid]

    # -- the loop
    def due(self):
        t = self.world.clock.t
        return [a for a in self.afters if a[0] <= t]

    def no_afters(self):
        """No timer is pending, or only ones that keep finding nothing to do."""
        return not self.afters or self.calm >= 8 and not self.due()

    def event_ready(self):
        if not self.events:
            return False
        e = self.events[0]
        if e.get('wait') == 'idle':
            return self.world.idle and not self.reqs and self.no_afters()
        return self.world.count >= self.next_at or self.world.idle and not self.reqs and not self.due()

    def safe(self, fn, args=(), event=None):
        old = self.cur_event
        self.cur_event = event
        try:
            fn(*args)
        except (Hang, Violation, simthreads.Deadlock, simthreads.NoProgress):
            raise
        except SystemExit:
            self.quit = True
        except Exception as e:
            self.callback_errors.append((event, e))
            self.failures.append((('gui', event), 'callback'))
            traceback.print_exc()
        finally:
            self.cur_event = old

    def one(self, events=True):
        """Process one thing; False when there is none."""
        cats = []
        if self.reqs:
            cats.append('req')
        due = self.due()
        if due:
            cats.append('after')
        if events and self.event_ready():
            cats.append('event')
        if not cats:
            return False
        self.iterations += 1
        c = cats[self.order[self.norder % len(self.order)] % len(cats)]
        self.norder += 1
        if c != 'after':
            self.calm = 0
        if c == 'req':
            r = self.reqs.pop(0)
            old = self.cur_event
            self.cur_event = r.event
            try:
                r.val = r.fn()
            except Exception as e:
                r.exc = e
            finally:
                self.cur_event = old
            r.done = True
        elif c == 'after':
            a = min(due, key=lambda a: a[:2])
            self.afters.remove(a)
            self.calm += self.world.idle and not self.world.others_live()
            self.safe(a[2], a[3], a[4])
        else:
            e = self.events.pop(0)
            self.next_at = self.world.count + (int(self.events[0].get('gap', 0)) if self.events else 0)
            self.world.event = e['n']
            self.on_event(e, 'start')
            self.safe(self.deliver, (e,), e['n'])
            self.on_event(e, 'end')
            self.world.event = None
        self.on_frame()
        return True

    def drain(self):
        for _ in range(200):
            if not self.one(events=False):
                break

    def wait(self, more, events):
        """Let other threads run until there is something to do or more() holds."""
        self.world.block(lambda: bool(self.reqs) or bool(self.due()) or events and self.event_ready() or more())

    def pending_time(self):
        return min((a[0] for a in self.afters), default=None)

    def mainloop(self):
        self.in_loop += 1
        self.next_at = self.world.count + (int(self.events[0].get('gap', 0)) if self.events else 0)
        w = self.world
        while not self.quit:
            finished = lambda: not self.events and w.idle and not w.others_live() and not self.reqs and self.no_afters()
            t = self.pending_time()
            m = lambda: finished()
            if t is not None:
                w.block(lambda: bool(self.reqs) or bool(self.due()) or self.event_ready() or m(), max(0.0, t - w.clock.t))
            else:
                self.wait(m, True)
            if not self.one():
                w.runnable()
                if finished():
                    break
        self.in_loop -= 1
        self.ended = True

    def nested(self):
        """A dialog is open for a while."""
        n = self.dwell[self.ndwell % len(self.dwell)]
        self.ndwell += 1
        w = self.world
        end = w.count + n
        while True:
            self.wait(lambda: w.count >= end or w.idle, False)
            if w.count >= end or not self.one(events=False):
                if w.count >= end or w.idle:
                    break

    def deliver(self, e):
        do = e['do']
        if do == 'edit':
            return
        if do == 'resize':
            for c in [c for c in self.widgets if isinstance(c, Canvas) and c.alive]:
                if e.get('which') in (None, self.side(c)):
                    c.size = tuple(e['size'])
                    fn = c.binds.get('<Configure>')
                    if fn is not None:
                        fn(Event(c, *c.size))
            return
        label = {'open': 'open', 'batch': 'batch', 'save': 'save', 'profile': 'profile', 'compare': 'comparison'}[do]
        bs = [b for b in self.widgets if isinstance(b, Button) and label in str(b.kw.get('text', '')).lower()]
        if not bs:
            raise Violation('no_button', 'the window has no button for %r' % label, label)
        bs[0].kw['command']()

    def side(self, c):
        m = c.master
        t = str(m.kw.get('text', '')).lower() if m is not None else ''
        return 'orig' if 'original' in t else 'sr' if 'super' in t else None

    def canvas(self, side):
        for c in self.widgets:
            if isinstance(c, Canvas) and self.side(c) == side:
                return c
        raise Violation('no_canvas', 'the window has no canvas %r' % side, side)

    # -- dialogs
    def ask(self, kind, kw):
        e = self.asking
        self.dialogs.append((kind, kw, self.cur_event))
        self.nested()
        v = e(kind, kw)
        return v

    def box(self, kind, title, msg):
        self.boxes.append((kind, str(title), str(msg)))
        self.on_text('%s: %s' % (title, msg) if kind == 'showinfo' else 'error %s: %s' % (title, msg))
        self.nested()
        return 'ok'


def askfn(kind):
    return lambda **kw: UI.call(lambda: UI.ask(kind, kw))


def boxfn(kind):
    return lambda title=None, message=None, **kw: UI.call(lambda: UI.box(kind, title, message))


def install():
    tk = types.ModuleType('tkinter')
    ttk = types.ModuleType('tkinter.ttk')
    fd = types.ModuleType('tkinter.filedialog')
    mb = types.ModuleType('tkinter.messagebox')
    for c in (Tk, Widget, Button, Canvas, Text, Frame, LabelFrame, Label, Toplevel, Scrollbar, Entry):
        setattr(tk, c.__name__, c)
    for c in (Button, Frame, LabelFrame, Label, Scrollbar, Separator, Style, Progressbar, Entry):
        setattr(ttk, c.__name__, c)
    tk.StringVar = tk.IntVar = tk.DoubleVar = tk.BooleanVar = tk.Variable = Var
    tk.TclError = TclError
    for n, v in dict(TOP='top', LEFT='left', RIGHT='right', BOTTOM='bottom', X='x', Y='y', BOTH='both', VERTICAL='vertical', HORIZONTAL='horizontal',
                     NW='nw', N='n', S='s', E='e', W='w', NE='ne', SW='sw', SE='se', CENTER='center', END='end', NONE='none', WORD='word',
                     DISABLED='disabled', NORMAL='normal', INSERT='insert', YES=True, NO=False, ALL='all').items():
        setattr(tk, n, v)
    for n in ('askopenfilename', 'askdirectory', 'asksaveasfilename', 'askopenfilenames'):
        setattr(fd, n, askfn(n))
    for n in ('showinfo', 'showerror', 'showwarning', 'askyesno', 'askokcancel'):
        setattr(mb, n, boxfn(n))
    tk.ttk, tk.filedialog, tk.messagebox = ttk, fd, mb
    tk.__path__ = []
    pil = types.ModuleType('PIL')
    pil.__path__ = []
    im = types.ModuleType('PIL.Image')
    im.Image, im.open, im.fromarray, im.Resampling, im.UnidentifiedImageError = Image, image_open, fromarray, Resampling, UnidentifiedImageError
    im.new = image_new
    for n in ('NEAREST', 'LANCZOS', 'BILINEAR', 'BICUBIC', 'BOX', 'HAMMING'):
        setattr(im, n, getattr(Resampling, n))
    im.ANTIALIAS = Resampling.LANCZOS
    itk = types.ModuleType('PIL.ImageTk')
    itk.PhotoImage = PhotoImage
    idr = types.ModuleType('PIL.ImageDraw')
    idr.Draw = idr.ImageDraw = Draw
    ifo = types.ModuleType('PIL.ImageFont')
    ifo.truetype = truetype
    ifo.load_default = lambda *a, **k: object()
    iop = types.ModuleType('PIL.ImageOps')
    iop.contain, iop.pad, iop.expand = contain, pad, expand
    pil.ImageOps = sys.modules['PIL.ImageOps'] = iop
    for mod in (tk, ttk, fd, mb, im, itk, ifo, iop):
        mod.__getattr__ = torchshim.missing(mod.__name__)
    pil.Image, pil.ImageTk, pil.ImageDraw, pil.ImageFont, pil.UnidentifiedImageError = im, itk, idr, ifo, UnidentifiedImageError
    for n, m in (('tkinter', tk), ('tkinter.ttk', ttk), ('tkinter.filedialog', fd), ('tkinter.messagebox', mb), ('PIL', pil), ('PIL.Image', im),
                 ('PIL.ImageTk', itk), ('PIL.ImageDraw', idr), ('PIL.ImageFont', ifo)):
        sys.modules[n] = m
