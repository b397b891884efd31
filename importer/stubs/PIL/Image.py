"""Stand-in for PIL.Image: image files hold JSON {w, h, m, px, f}; m is the mode, f lists the filters of resamplings."""
import builtins, enum, json
NEAREST, LANCZOS, ANTIALIAS, BILINEAR, LINEAR, BICUBIC, CUBIC, BOX, HAMMING = 0, 1, 1, 2, 2, 3, 3, 4, 5


class Resampling(enum.IntEnum):
    NEAREST = 0
    LANCZOS = 1
    BILINEAR = 2
    BICUBIC = 3
    BOX = 4
    HAMMING = 5


class UnidentifiedImageError(OSError):
    pass


class Image(object):
    format = "JPEG"

    def __init__(self, w, h, px, f, mode="RGB"):
        self.width, self.height, self._px, self._f, self.mode = w, h, px, f, mode

    @property
    def size(self):
        return (self.width, self.height)

    def crop(self, box=None):
        if box is None:
            return self.copy()
        l, t, r, b = [int(round(v)) for v in box]
        if r < l or b < t:
            raise ValueError("Coordinate 'right' is less than 'left'")
        at = lambda x, y: self._px[y * self.width + x] if 0 <= x < self.width and 0 <= y < self.height else 0
        return Image(r - l, b - t, [at(x, y) for y in range(t, b) for x in range(l, r)], list(self._f), self.mode)

    def resize(self, size, resample=None, box=None, reducing_gap=None):
        im = self if box is None else self.crop(box)
        w, h = [int(v) for v in size]
        if w <= 0 or h <= 0:
            raise ValueError("height and width must be > 0")
        px = [im._px[(y * im.height // h) * im.width + x * im.width // w] + 100000 for y in range(h) for x in range(w)]
        return Image(w, h, px, im._f + [3 if resample is None else int(resample)], self.mode)

    def copy(self):
        return Image(self.width, self.height, list(self._px), list(self._f), self.mode)

    def convert(self, mode=None, *a, **k):
        if mode in (None, self.mode):
            return self.copy()
        return Image(self.width, self.height, [p + 1000000 for p in self._px], list(self._f), mode)

    def transpose(self, method):
        return Image(self.width, self.height, [p + 2000000 for p in self._px], list(self._f), self.mode)

    def load(self):
        pass

    def close(self):
        pass

    def save(self, fp, format=None, **params):
        s = json.dumps({"w": self.width, "h": self.height, "m": self.mode, "px": self._px, "f": self._f})
        if hasattr(fp, "write"):
            fp.write(s.encode())
        else:
            with builtins.open(fp, "w") as o:
                o.write(s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def open(fp, mode="r", formats=None):
    if mode != "r":
        raise ValueError("bad mode %r" % mode)
    if hasattr(fp, "read"):
        s = fp.read()
    else:
        with builtins.open(fp, "rb") as f:
            s = f.read()
    try:
        d = json.loads(s)
    except ValueError:
        raise UnidentifiedImageError("cannot identify image file %r" % (fp,))
    return Image(d["w"], d["h"], d["px"], d["f"], d["m"])
