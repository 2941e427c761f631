"""Stand-in for OpenCV: the functions the detection evaluation calls, over the trivial picture format of guistub, through the simulated disk."""
import builtins
import os
import sys
import types

import numpy as np

from . import guistub, torchshim


class error(Exception):
    pass


EXTS = {'.png', '.jpg', '.jpeg', '.bmp', '.tiff', '.tif', '.webp'}
DRAWN = []          # what was painted since the last picture was written
READ = []           # pictures read


def imread(path, flags=1):
    READ.append(os.fspath(path))
    try:
        with builtins.open(path, 'rb') as f:
            data = f.read()
    except OSError:
        return None
    r = guistub.decode(data)
    if r is None:
        return None
    m, a = r
    a = np.stack([a] * 3, -1) if m == 'L' else a[..., :3]
    return np.ascontiguousarray(a[..., ::-1])


def imwrite(path, img, params=None):
    if os.path.splitext(path)[1].lower() not in EXTS:
        raise error('could not find a writer for the specified extension')
    if not isinstance(img, np.ndarray) or img.dtype != np.uint8 or img.ndim != 3 or img.shape[2] != 3 or not img.size:
        raise error('unsupported picture')
    try:
        with builtins.open(path, 'wb') as f:
            f.write(guistub.encode('RGB', img[..., ::-1]))
    except OSError:
        return False
    return True


def resize(img, dsize, dst=None, fx=0, fy=0, interpolation=1):
    w, h = (int(v) for v in dsize)
    if w <= 0 or h <= 0 or not img.size:
        raise error('inv_scale_x > 0')
    return guistub.scale_to(img, w, h, 2)


def copyMakeBorder(img, top, bottom, left, right, kind, value=(0, 0, 0)):
    if min(top, bottom, left, right) < 0:
        raise error('top >= 0 && bottom >= 0 && left >= 0 && right >= 0')
    out = np.empty((img.shape[0] + top + bottom, img.shape[1] + left + right, 3), img.dtype)
    out[...] = np.array(value, img.dtype)
    out[top:top + img.shape[0], left:left + img.shape[1]] = img
    return out


def fill(img, x1, y1, x2, y2, color):
    h, w = img.shape[:2]
    x1, x2 = sorted((int(x1), int(x2)))
    y1, y2 = sorted((int(y1), int(y2)))
    img[max(0, y1):max(0, y2 + 1), max(0, x1):max(0, x2 + 1)] = np.array(color, np.uint8)


def rectangle(img, p, q, color, thickness=1, lineType=8, shift=0):
    if thickness < 0:
        fill(img, p[0], p[1], q[0], q[1], color)
    else:
        DRAWN.append(('box', tuple(int(v) for v in p + q)))
        for a, b in (((p[0], p[1]), (q[0], p[1])), ((p[0], q[1]), (q[0], q[1])), ((p[0], p[1]), (p[0], q[1])), ((q[0], p[1]), (q[0], q[1]))):
            fill(img, a[0], a[1], b[0], b[1], color)
    return img


def line(img, p, q, color, thickness=1, lineType=8, shift=0):
    fill(img, p[0], p[1], q[0], q[1], color)
    return img


def getTextSize(text, font, scale, thickness):
    return (int(round(len(text) * 10 * scale)), int(round(14 * scale))), 3


def putText(img, text, org, font, scale, color, thickness=1, lineType=8, bottomLeftOrigin=False):
    DRAWN.append(('text', text))
    x, y = (int(v) for v in org)
    for i, ch in enumerate(text.encode('utf-8')):
        if ch % 2:
            fill(img, x + i, y - ch % 5, x + i, y, color)
    return img


def install():
    m = types.ModuleType('cv2')
    for k in ('error', 'imread', 'imwrite', 'resize', 'copyMakeBorder', 'rectangle', 'line', 'getTextSize', 'putText'):
        setattr(m, k, globals()[k])
    m.BORDER_CONSTANT, m.FONT_HERSHEY_SIMPLEX, m.LINE_AA, m.IMREAD_COLOR = 0, 0, 16, 1
    m.INTER_NEAREST, m.INTER_LINEAR, m.INTER_CUBIC, m.INTER_AREA = 0, 1, 2, 3

    def gap(name):
        if name.startswith('__'):
            raise AttributeError(name)
        torchshim.gap('cv2.' + name)
    m.__getattr__ = gap
    sys.modules['cv2'] = m
    return m
