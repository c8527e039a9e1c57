# The binding of python against models. Every call must end with a result or with an exception of python.
import gc
import itertools
import os
import vp
import penguinV as p

thorough = vp.thorough()
counters = [0, 0, 0]


def flush():
    vp.count(*counters)
    counters[:] = [0, 0, 0]


def expect(ok, what):
    counters[1] += 1
    if not ok:
        vp.fail(what)


class Model:
    def __init__(self, w=0, h=0, c=1, al=1):
        self.w, self.h, self.c, self.al = 0, 0, c or 1, al or 1
        self.data = None  # bytes; None: not known
        self.resize(w, h)

    def row(self):
        return (self.w * self.c + self.al - 1) // self.al * self.al

    def clear(self):
        self.w = self.h = 0
        self.data = None

    def resize(self, w, h):
        if w and h and (w, h) != (self.w, self.h):
            self.w, self.h = w, h
            self.data = [None] * (self.row() * h)

    def same(self, other):
        m = Model()
        m.w, m.h, m.c, m.al = other.w, other.h, other.c, other.al
        m.data = None if other.data is None else list(other.data)
        return m

    def become(self, other):
        self.w, self.h, self.c, self.al, self.data = other.w, other.h, other.c, other.al, other.data

    def put(self, data):
        self.data = list(data)


def compare(image, m, what=''):
    is_ = (image.width(), image.height(), image.colorCount(), image.alignment(), image.rowSize(), image.empty(), image.type())
    want = (m.w, m.h, m.c, m.al, m.row() if m.data is not None else 0, m.data is None, 0)
    counters[1] += 1
    if is_ != want:
        vp.fail('%san image is (width, height, channels, alignment, row, empty, type) %s instead of %s' % (what, is_, want))
        return
    if m.data is None:
        expect(image.data() is None, what + 'an empty image has data')
        return
    content = vp.read(int(image.data()), m.row() * m.h)
    if any(x is not None and x != y for x, y in zip(m.data, content)):
        vp.fail('%sbytes of an image are %s instead of %s' % (what, list(content), m.data))


def pattern(image, m, seed):
    if m.data is not None:
        content = bytes((i * 37 + seed * 91 + 5) % 256 for i in range(len(m.data)))
        vp.write(int(image.data()), content)
        m.put(content)


def made(w, h, c=1, al=1, seed=1):
    image, m = p.Image(w, h, c, al), Model(w, h, c, al)
    pattern(image, m, seed)
    return image, m


# ---- sequences of operations with two images
class Pair:
    def __init__(self, start):
        self.a, self.ma = made(*start)
        self.b, self.mb = made(2, 2, 1, 4, 3)


def op_resize(w, h):
    def f(s):
        s.a.resize(w, h)
        s.ma.resize(w, h)
    return f


def op_clear(s):
    s.a.clear()
    s.ma.clear()


def op_channels(c):
    def f(s):
        s.a.setColorCount(c)
        if c and c != s.ma.c:
            s.ma.clear()
            s.ma.c = c
    return f


def op_alignment(al):
    def f(s):
        s.a.setAlignment(al)
        if al and al != s.ma.al:
            s.ma.clear()
            s.ma.al = al
    return f


def op_fill(s):
    s.a.fill(7)
    if s.ma.data is not None:
        s.ma.data = [7] * len(s.ma.data)


def op_pattern(s):
    pattern(s.a, s.ma, 9)


def op_swap(s):
    s.a.swap(s.b)
    if s.ma is not s.mb:
        t = s.ma.same(s.ma)
        s.ma.become(s.mb.same(s.mb))
        s.mb.become(t)


def op_self_swap(s):
    s.a.swap(s.a)


def op_copy(s):
    s.a.copy(s.b)
    s.ma.become(s.mb.same(s.mb))


def op_copy_back(s):
    s.b.copy(s.a)
    s.mb.become(s.ma.same(s.ma))


def op_self_copy(s):
    s.a.copy(s.a)


def op_mutate(w, h, c, al):
    def f(s):
        done = s.a.mutate(w, h, c, al)
        possible = c > 0 and al > 0 and (w * c + al - 1) // al * al * h == (len(s.ma.data) if s.ma.data is not None else 0)
        expect(done == possible and isinstance(done, bool), 'mutate returns %s' % done)
        if possible:
            s.ma.w, s.ma.h, s.ma.c, s.ma.al = w, h, c, al
    return f


def op_generate(s):
    s.b = s.a.generate(2, 3, 3, 4)
    s.mb = Model(2, 3, 3, 4)


def op_generate_nothing(s):
    s.a = s.b.generate()
    s.ma = Model()


def op_new_copy(s):
    s.b = p.Image(s.a)
    s.mb = s.ma.same(s.ma)


def op_move(s):
    s.a = p.Image(s.b)
    s.ma = s.mb.same(s.mb)
    s.b = p.Image()
    s.mb = Model()


def op_alias(s):
    s.b = s.a
    s.mb = s.ma


def op_too_big(w, h):
    def f(s):
        try:
            s.a.resize(w, h)
        except Exception:
            counters[2] += 1
            if s.a.empty():  # either unchanged or empty
                s.ma.clear()
            return
        vp.fail('an image which cannot be allocated was resized')
    return f


OPS = [op_resize(2, 2), op_resize(3, 1), op_resize(0, 5), op_clear, op_channels(3), op_channels(0), op_alignment(4), op_alignment(1), op_fill, op_pattern, op_swap, op_self_swap,
       op_copy, op_copy_back, op_self_copy, op_mutate(1, 4, 1, 1), op_mutate(1, 4, 0, 1), op_mutate(2, 2, 1, 1), op_generate, op_generate_nothing, op_new_copy, op_move,
       op_alias, op_too_big(0xFFFFFFFF, 1), op_too_big(70000, 70000)]


def sequences():
    depth = 4 if thorough else 3
    for start in ((0, 0), (2, 2), (3, 2, 3, 4), (1, 1, 4, 1)):
        for first in range(len(OPS)):
            for second in range(len(OPS)):
                if not vp.next():
                    continue
                vp.label('sequence from %s with operations %d, %d ..' % (start, first, second))
                before = vp.live()
                for rest in itertools.product(range(len(OPS)), repeat=depth - 2):
                    vp.phase('%s' % (rest,))
                    s = Pair(start)
                    for i in (first, second) + rest:
                        counters[0] += 1
                        OPS[i](s)
                        compare(s.a, s.ma)
                        compare(s.b, s.mb)
                        expect(s.a is s.b or s.a.data() is None or s.b.data() is None or int(s.a.data()) != int(s.b.data()), 'two images have the same data')
                    del s
                expect(vp.live() == before, 'objects of the library are left')
                flush()


# ---- image functions
def gray(m, x, y, w, h):
    out = []
    for j in range(y, y + h):
        line = []
        for i in range(x, x + w):
            at = j * m.row() + i * m.c
            line.append(m.data[at] if m.c == 1 else sum(m.data[at:at + 3]) // 3)
        out.append(line)
    return out


def binary(limit):
    def f(m, x, y, w, h):
        return [[0 if v < limit else 255 for v in line] for line in gray(m, x, y, w, h)]
    return f


def attempt(call, *args):
    counters[0] += 1
    try:
        return True, call(*args)
    except Exception:
        counters[2] += 1
        return False, None


def rows(image):
    """Pixels of a gray-scale image."""
    if image.empty():
        return None
    content = vp.read(int(image.data()), image.rowSize() * image.height())
    return [list(content[y * image.rowSize():y * image.rowSize() + image.width()]) for y in range(image.height())]


def inside(m, x, y, w, h):
    return m.data is not None and w > 0 and h > 0 and x + w <= m.w and y + h <= m.h


def images():
    for w in (1, 2, 3, 4, 7):
        for h in (1, 2, 3):
            for c in (1, 3, 4, 2):
                for al in (1, 4):
                    if (w == 7) <= (c in (1, 3)):
                        yield w, h, c, al
    yield 0, 0, 1, 1


FUNCTIONS = [('ConvertToGrayScale', lambda c: c in (1, 3, 4), gray, ())]
FUNCTIONS += [('Threshold', lambda c: c == 1, binary(t), (t,)) for t in (0, 1, 100, 255)]


def unary():
    for w, h, c, al in images():
        for name, channels, result, extra in FUNCTIONS:
            if not vp.next():
                continue
            vp.label('%s%s of an image %dx%dx%d aligned to %d' % (name, extra, w, h, c, al))
            before = vp.live()
            f = getattr(p, name)
            image, m = made(w, h, c, al)
            good = channels(c) and m.data is not None
            for whole in (True, False):
                for x, y, rw, rh in ([(0, 0, w, h)] if whole else itertools.product((0, 1, 2, w, 2**32 - 1), (0, 1, h, 2**32 - 1), range(0, w + 2), range(0, h + 2))):
                    vp.phase('%s %s' % ('whole' if whole else 'part', (x, y, rw, rh)))
                    right = good and inside(m, x, y, rw, rh)
                    roi = () if whole else (x, y, rw, rh)
                    ok, out = attempt(f, image, *roi, *extra)
                    expect(ok == right, 'wrong accept or reject decision')
                    if ok and right:
                        expect(isinstance(out, p.Image) and out.colorCount() == 1 and rows(out) == result(m, x, y, rw, rh), 'the returned image is not the result')
                    del out
                    # into an image
                    for ow, oh, oc, oal, ox, oy in ((w, h, 1, 1, 0, 0), (w, h, 1, 4, 0, 0), (w, h, 3, 1, 0, 0), (5, 4, 1, 8, 0, 0), (5, 4, 1, 1, 1, 2), (5, 4, 1, 1, 4, 3), (0, 0, 1, 1, 0, 0)):
                        to, mt = made(ow, oh, oc, oal, 7)
                        mine = right and oc == 1 and (mt.w, mt.h) == (w, h) if whole else right and oc == 1 and inside(mt, ox, oy, rw, rh)
                        args = (image, to) if whole else (image, x, y, to, ox, oy, rw, rh)
                        ok, value = attempt(f, *args, *extra)
                        expect(ok == mine, 'wrong accept or reject decision for an output')
                        expect(value is None, 'a value is returned')
                        if ok and mine:
                            bx, by = (0, 0) if whole else (ox, oy)
                            for j, line in enumerate(result(m, x, y, rw, rh)):
                                at = (by + j) * mt.row() + bx
                                mt.data[at:at + rw] = line
                            # bytes between rows may be anything
                            for j in range(mt.h):
                                for k in range(j * mt.row() + mt.w, (j + 1) * mt.row()):
                                    mt.data[k] = None
                        compare(to, mt, 'after the call ')
                    compare(image, m, 'the input: ')
            del image, to, args
            expect(vp.live() == before, 'objects of the library are left')
            flush()


def histograms():
    for w, h, c, al in images():
        if not vp.next():
            continue
        vp.label('histogram of an image %dx%dx%d aligned to %d' % (w, h, c, al))
        before = vp.live()
        image, m = made(w, h, c, al)
        good = c != 2 and m.data is not None
        for whole in (True, False):
            for x, y, rw, rh in ([(0, 0, w, h)] if whole else itertools.product((0, 1, 2, w, 2**32 - 1), (0, 1, h, 2**32 - 1), range(0, w + 2), range(0, h + 2))):
                vp.phase('%s %s' % ('whole' if whole else 'part', (x, y, rw, rh)))
                right = good and inside(m, x, y, rw, rh)
                roi = () if whole else (x, y, rw, rh)
                want = [0] * 256 * c
                if right:
                    for j in range(y, y + rh):
                        for i in range(x * c, (x + rw) * c):
                            want[m.data[j * m.row() + i] * c + i % c] += 1
                ok, out = attempt(p.Histogram, image, *roi)
                expect(ok == right, 'wrong accept or reject decision')
                if ok and right:
                    expect(list(out) == want, 'the returned histogram is not the one of the image')
                    for form in (list, tuple, p.vectorUInt32):
                        ok, value = attempt(p.GetThreshold, form(out))
                        expect(ok == (c == 1) and (not ok or value == vp.threshold(want)), 'the threshold is different from the one of the library')
                del out
                for size in (0, 256, 300):
                    vector = p.vectorUInt32([5] * size)
                    ok, value = attempt(p.Histogram, image, *roi, vector)
                    expect(ok == right, 'wrong accept or reject decision for a vector')
                    expect(value is None, 'a value is returned')
                    if ok and right:
                        expect(list(vector) == want, 'the histogram in a vector is not the one of the image')
                compare(image, m, 'the input: ')
        for size in (0, 1, 255, 257, 512):
            ok, value = attempt(p.GetThreshold, [1] * size)
            expect(not ok, 'a threshold of a wrong histogram')
        del image, vector
        expect(vp.live() == before, 'objects of the library are left')
        flush()


def files():
    for w, h, c, al in images():
        if not vp.next():
            continue
        vp.label('bitmap of an image %dx%dx%d aligned to %d' % (w, h, c, al))
        before = vp.live()
        image, m = made(w, h, c, al)
        good = c != 2 and m.data is not None
        for whole in (True, False):
            for x, y, rw, rh in ([(0, 0, w, h)] if whole else itertools.product((0, 1, w, 2**32 - 1), (0, 1, h), range(0, w + 2), range(0, h + 2))):
                vp.phase('%s %s' % ('whole' if whole else 'part', (x, y, rw, rh)))
                right = good and inside(m, x, y, rw, rh)
                if os.path.exists('image.bmp'):
                    os.unlink('image.bmp')
                ok, value = attempt(p.Save, 'image.bmp', image, *(() if whole else (x, y, rw, rh)))
                expect(ok == right, 'wrong accept or reject decision')
                expect(value is None, 'a value is returned')
                compare(image, m, 'the input: ')
                if not ok:
                    expect(not os.path.exists('image.bmp'), 'a file is left by a refused call')
                    continue
                if not right:
                    continue
                want = [m.data[(y + j) * m.row() + x * c:(y + j) * m.row() + (x + rw) * c] for j in range(rh)]
                for into in (False, True):
                    if into:
                        out, _ = made(2, 1, 3, 8)
                        ok, value = attempt(p.Load, 'image.bmp', out)
                        expect(ok and value is None, 'a saved image cannot be loaded')
                    else:
                        ok, out = attempt(p.Load, 'image.bmp')
                        expect(ok, 'a saved image cannot be loaded')
                    if ok and expect_shape(out, rw, rh, c):
                        content = vp.read(int(out.data()), out.rowSize() * rh)
                        for j in range(rh):
                            expect(list(content[j * out.rowSize():j * out.rowSize() + rw * c]) == want[j], 'pixels of a loaded image are different')
                    del out
        for path in ('', 'nothing.bmp', '/', '/nothing/image.bmp', 'a' * 5000):
            vp.phase('path %.30s' % path)
            for call in (lambda: p.Load(path), lambda: p.Save(path, image) if path not in ('nothing.bmp',) else p.Image(),):
                ok, out = attempt(call)
                expect(not ok or (isinstance(out, p.Image) and out.empty()), 'an image or a success for a wrong path')
            out, _ = made(2, 1)
            ok, value = attempt(p.Load, path, out)
            expect(not ok or out.empty(), 'an image for a wrong path')
        del image, out
        expect(vp.live() == before, 'objects of the library are left')
        flush()


def expect_shape(image, w, h, c):
    ok = (image.width(), image.height(), image.colorCount()) == (w, h, c)
    expect(ok, 'a loaded image has a wrong shape')
    return ok


# ---- wrong arguments: a result or an exception, nothing else
def constant(v):
    return lambda: v


VALUES = [constant(v) for v in (-1, 0, 1, 255, 256, 2**31, 2**32 - 1, 2**32, 2**64, 1.5, float('nan'), 'x', '', b'x', None, True, (1, 'a'), object())]
VALUES += [lambda: [], lambda: [1, 2], lambda: [1] * 256, p.Image, lambda: p.Image(2, 2), lambda: p.Image(2, 2, 3, 4), lambda: p.Image(1, 2, 2), p.vectorUInt32, lambda: p.vectorUInt32([3] * 256)]


def u8(v):
    return (type(v) is int or v is True) and 0 <= v < 256


def u32(v):
    return (type(v) is int or v is True) and 0 <= v < 2**32


def img(v):
    return isinstance(v, p.Image)


def text(v):
    return type(v) is str


def vec(v):
    return isinstance(v, (p.vectorUInt32, list, tuple)) and all(u32(x) for x in v)


def ref(v):
    return isinstance(v, p.vectorUInt32)


# callables and kinds of arguments which they have; a call with others is always refused
CALLS = {
    'Image': (lambda *a: p.Image(*a), [(), (u32,), (u32, u32), (u32, u32, u8), (u32, u32, u8, u8), (img,)]),
    'resize': (lambda *a: p.Image(2, 2).resize(*a), [(u32, u32)]),
    'clear': (lambda *a: p.Image(2, 2).clear(*a), [()]),
    'empty': (lambda *a: p.Image(2, 2).empty(*a), [()]),
    'setColorCount': (lambda *a: p.Image(2, 2).setColorCount(*a), [(u8,)]),
    'setAlignment': (lambda *a: p.Image(2, 2).setAlignment(*a), [(u8,)]),
    'fill': (lambda *a: p.Image(2, 2).fill(*a), [(u8,)]),
    'swap': (lambda *a: p.Image(2, 2).swap(*a), [(img,)]),
    'copy': (lambda *a: p.Image(2, 2).copy(*a), [(img,)]),
    'mutate': (lambda *a: p.Image(2, 2).mutate(*a), [(u32, u32, u8, u8)]),
    'generate': (lambda *a: p.Image(2, 2).generate(*a), [(), (u32,), (u32, u32), (u32, u32, u8), (u32, u32, u8, u8)]),
    'assign': (lambda *a: p.Image(2, 2).assign(*a), [(lambda v: v is None, u32, u32, u8, u8)]),
    'Load': (lambda *a: p.Load(*a), [(text,), (text, img)]),
    'Save': (lambda *a: p.Save(*a), [(text, img), (text, img, u32, u32, u32, u32)]),
    'ConvertToGrayScale': (lambda *a: p.ConvertToGrayScale(*a), [(img,), (img, img), (img, u32, u32, u32, u32), (img, u32, u32, img, u32, u32, u32, u32)]),
    'GetThreshold': (lambda *a: p.GetThreshold(*a), [(vec,)]),
    'Histogram': (lambda *a: p.Histogram(*a), [(img,), (img, ref), (img, u32, u32, u32, u32), (img, u32, u32, u32, u32, ref)]),
    'Threshold': (lambda *a: p.Threshold(*a), [(img, u8), (img, img, u8), (img, u32, u32, u32, u32, u8), (img, u32, u32, img, u32, u32, u32, u32, u8)]),
}


def valid(kind):
    if kind in (u8, u32):
        return 1
    if kind is img:
        return p.Image(2, 2)
    if kind is text:
        return 'wrong.bmp'
    if kind is vec or kind is ref:
        return p.vectorUInt32([3] * 256)
    return None


def wrong():
    many = range(len(VALUES))
    for name, (call, forms) in CALLS.items():
        # any few arguments
        for first in many:
            if not vp.next():
                continue
            vp.label('%s with value %d first' % (name, first))
            before = vp.live()
            for others in [None] + [c for n in range(4 if thorough else 3) for c in itertools.product(many, repeat=n)]:
                args = [] if others is None else [VALUES[k]() for k in (first,) + others]
                vp.phase('and values %s' % (others,))
                judge(name, call, forms, args)
            del args
            expect(vp.live() == before, 'objects of the library are left')
            flush()
        # one or two arguments of every form replaced, removed or added
        for number, form in enumerate(forms):
            for i in range(len(form)):
                if not vp.next():
                    continue
                vp.label('%s form %d with argument %d changed' % (name, number, i))
                before = vp.live()
                for k in many:
                    for j in range(i, len(form)):
                        for other in many if j > i else (0,):
                            args = [valid(kind) for kind in form]
                            args[i] = VALUES[k]()
                            if j > i:
                                args[j] = VALUES[other]()
                            vp.phase('to value %d and %d to %d' % (k, j, other))
                            judge(name, call, forms, args)
                judge(name, call, forms, [valid(kind) for kind in form][:i])
                judge(name, call, forms, [valid(kind) for kind in form] + [1] * (i + 1))
                del args
                expect(vp.live() == before, 'objects of the library are left')
                flush()


def judge(name, call, forms, args):
    if name == 'Save' and args and type(args[0]) is str:
        args[0] = 'wrong.bmp' if args[0] else ''
    # numbers: whether booleans and whole floats are taken is up to the binding
    known = any(len(form) == len(args) and all(kind(v) or (kind in (u8, u32) and isinstance(v, float)) for kind, v in zip(form, args)) for form in forms)
    ok, value = attempt(call, *args)
    if ok and not known:
        vp.fail('a call with wrong arguments was taken')
    counters[1] += 1
    del value


# ---- exceptions and constants
def constants():
    if not vp.next():
        return
    vp.label('constants and kinds of exceptions')
    expect((p.GRAY_SCALE, p.RGB, p.RGBA) == (1, 3, 4), 'constants of numbers of channels')
    for call, what in ((lambda: p.Load(''), 'Incorrect parameters for bitmap loading'), (lambda: p.GetThreshold([1]), 'Histogram size is not 256')):
        try:
            call()
        except Exception as e:
            expect(len(str(e)) > 0, 'an exception without a message')
        else:
            vp.fail('no exception')
    # images live as long as they are used
    out = [p.Threshold(made(3, 3)[0], 100) for _ in range(5)]
    gc.collect()
    for image in out:
        expect(rows(image) == binary(100)(made(3, 3)[1], 0, 0, 3, 3), 'an image of a removed image')
    h = p.Histogram(out[0])
    del out, image
    gc.collect()
    expect(sum(h) == 9, 'a histogram of a removed image')
    flush()


made(1, 1)
constants()
sequences()
unary()
histograms()
files()
wrong()
