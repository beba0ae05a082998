"""Abstract memory: objects with values at byte offsets, each of a known width; copied on write and shared between program points."""
import struct


class Poison:
    """Bytes of a value that has no representation here."""


POISON = Poison()


class Cat:
    """Adjacent values read as one: [(width, value)]."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class Obj:
    __slots__ = ('d', 'w', 'gen', 'own')

    def __init__(self, own, gen=None):
        self.d, self.w, self.gen, self.own = {}, {}, gen, own

    def copy(self, own):
        o = Obj(own, self.gen)
        o.d, o.w = dict(self.d), dict(self.w)
        return o


class Mem:
    __slots__ = ('o', 'tok')

    def __init__(self, o=None):
        self.o = o if o is not None else {}
        self.tok = object()

    def clone(self):
        self.tok = object()
        return Mem(dict(self.o))

    def get(self, base):
        return self.o.get(base)

    def edit(self, base):
        ob = self.o.get(base)
        if ob is None:
            ob = self.o[base] = Obj(self.tok)
        elif ob.own is not self.tok:
            ob = self.o[base] = ob.copy(self.tok)
        return ob

    def replace(self, other):
        self.o, self.tok = dict(other.o), object()

    def items(self):
        for b, ob in self.o.items():
            for o, v in ob.d.items():
                yield (b, o), v


def bits(c, w):
    """The bytes of a constant stored with width w (negative: floating point)."""
    if c == 0:
        return 0
    if w > 0:
        return int(c) & ((1 << (8 * w)) - 1) if c == int(c) else None
    return int.from_bytes(struct.pack('<d' if w == -8 else '<f', float(c)), 'little')


def signed(x, size):
    x &= (1 << (8 * size)) - 1
    return x - (1 << (8 * size)) if x >> (8 * size - 1) else x


def cover(ob, o):
    """Offset of the value that covers byte o, if it starts before it."""
    for k in range(1, 16):
        w = ob.w.get(o - k)
        if w is not None:
            return o - k if abs(w) > k else None
    return None
