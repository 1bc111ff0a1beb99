"""Texts for the conversion checks: every class of character at every position of the converter's buffer, long random texts,
and malformed units."""
EDGE = [0, 1, 0x41, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]
UNITS = {8: [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3,
             0xF4, 0xF5, 0xFE, 0xFF],
         16: [0x41, 0xE9, 0x20AC, 0xD7FF, 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000, 0xFFFF],
         32: [0x41, 0xE9, 0x20AC, 0x1F600, 0xD800, 0xDFFF, 0x110000, 0x10FFFF, 0x7FFFFFFF]}
WAYS = [(8, 16), (16, 8), (8, 32), (32, 8)]


def encode(w, t):
    out = []
    for c in t:
        if w == 32:
            out.append(c)
        elif w == 16:
            out += [c] if c < 0x10000 else [0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)]
        else:
            out += list(chr(c).encode("utf-8"))
    return out


class TextHist:
    def __init__(self, rng, io, p):
        self.r = rng
        self.io = io
        self.p = p

    def char(self):
        r = self.r
        if r.random() < 0.5:
            return r.choice(EDGE)
        lo, hi = r.choice([(0, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF)])
        return r.randint(lo, hi)

    def near(self):
        """A length near a multiple of the size of the working buffer, or a small one."""
        r = self.r
        return max(0, r.choice([0, 0, 64, 64, 128, 192]) + r.randint(-5, 5))

    def text(self):
        r = self.r
        x = r.random()
        if x < 0.55:                           # a run of one class that ends near the buffer's end, then others
            c = r.choice([0x61, 0x61, 0x61, self.char()])
            return [c] * self.near() + [self.char() for _ in range(r.randint(0, 4))] + [0x62] * r.choice([0, 0, 1, self.near()])
        if x < 0.7:
            c = self.char()
            return [c] * r.randint(0, 140)
        return [self.char() for _ in range(r.choice([0, 1, 2, r.randint(0, 20), r.randint(0, 250)]))]

    def units(self, w):
        r = self.r
        x = r.random()
        if x < 0.6:
            return encode(w, self.text())
        if x < 0.8:                            # every short string of units, after some that are right
            return encode(w, [0x61] * self.near()) + [r.choice(UNITS[w]) for _ in range(r.randint(1, 5))]
        s = encode(w, self.text())             # damaged
        for _ in range(r.randint(1, 2)):
            k = r.randrange(4)
            i = r.randint(0, len(s))
            if k == 0:
                s = s[:i]
            elif k == 1:
                s = s[:i] + [r.choice(UNITS[w])] + s[i:]
            elif k == 2:
                s = s[:i] + s[i + 1:]
            elif i < len(s):
                s = s[:i] + [r.choice(UNITS[w])] + s[i + 1:]
        return s

    def episode(self, length):
        self.io.begin()
        for _ in range(length):
            a, b = self.r.choice(WAYS)
            self.io.cmd({"op": "conv", "a": a, "b": b, "s": self.units(a)})
        self.io.end()

    def sweep(self, part, parts):
        """Every class of character at every position around the ends of the buffer, with every other class after it."""
        n = 0
        for a, b in WAYS:
            for pre in list(range(0, 5)) + list(range(57, 67)) + list(range(122, 132)):
                for c in (0x61, 0xE9, 0x20AC, 0x1F600):
                    for d in (None, 0x61, 0xE9, 0x20AC, 0x1F600):
                        n += 1
                        if n % parts == part:
                            for f in (0x61, 0xE9):
                                self.io.cmd({"op": "conv", "a": a, "b": b, "s": encode(a, [f] * pre + [c] + ([d] if d else []))})
