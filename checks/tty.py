"""C01..C11: the terminal emulator, its copies, its listeners."""
import caseeng, formats, recfmt
import ttyeng as T
import vf
from ttyeng import W

TECH = {"C11": "TLA+ terminal model: TLC interprets the redirection's bytes with it and compares the display with the terminal after every write",
        "C30": "TLA+ terminal model: TLC interprets the redirection's bytes with it on displays of other sizes (obeying requests or not) and compares the common part",
        "C32": "TLA+ specification of the palettes and of what a colour may become, model-checked; TLC validates recorded conversions by the real code"}

TEXT = dict(text=6, lines=3)
ALL = dict(text=6, wide=4, comb=2, latin=1, lines=4, ff=.2, move=3, goto=2, right=1, region=1, erase=3, edit=4,
           save=1, wrapmode=.5, modes=1, bell=.5, sgr=2, charset=.5, utf8=.5, cp437=.1, osc=.7, junk=.5, reset=.2,
           size=.5, cancel=.2)


def c01(ctx):
    "well-formed whatever arrives"
    exe = T.build(ctx)
    n = ctx.pick(700, 8000)
    T.replay_model(ctx, exe, "erase", ctx.pick(4, 5), 4, 2, "wf")
    junk = dict(ALL, junk=8, hi=2, low=1, utf8=3, osclong=.05, sgrlong=1, size=2, edit=8, erase=5, wide=6)
    T.validate(ctx, exe, T.random_traces(ctx, "junk", n, junk, atoms=(1, 25)), "wf")

    def api(r, g):
        k = r.random()
        if k < .25:
            g.sx, g.sy = r.randint(2, 14), r.randint(1, 7)
            return ["R 0 %d %d" % (g.sx, g.sy)]
        return ["Z 0"] if k < .3 else []
    T.validate(ctx, exe, T.random_traces(ctx, "api", n, junk, extra=api), "wf")
    # raw bytes, biased to what means something
    r = ctx.rng("raw")
    tr = []
    for _ in range(n):
        sx, sy = r.choice([(2, 1), (2, 2), (3, 1), (80, 2), (5, 5)])
        t = ["I 0 %d %d 1" % (sx, sy)]
        for _ in range(8):
            t.append(W(0, bytes(r.choice(b"\x1b[[[;;?0123456789@PXLMJKHrtmh78DME\n\x08\t\r\xe4\xb8\x80\xcc\x81abc]")
                                if r.random() < .93 else r.randint(0, 255) for _ in range(r.randint(1, 80)))))
        tr.append(t)
    T.validate(ctx, exe, tr, "wf")


def c02(ctx):
    "how the bytes are cut into calls does not matter"
    exe = T.build(ctx)
    r = ctx.rng("chunks")
    tr = []
    fam = dict(ALL, osclong=.02, utf8=4, sgrlong=.5, hi=1, low=.5)
    for i in range(ctx.pick(500, 6000)):
        sx, sy = r.randint(2, 12), r.randint(1, 6)
        g = T.Gen(r, sx, sy, fam)
        t = ["I %d %d %d 1" % (k, sx, sy) for k in (0, 1, 2, 3)]
        for _ in range(r.randint(1, 4)):
            b = g.bytes(r.randint(1, 12))
            b = b.replace(b"\0", b"")
            t.append(W(0, b))
            k = 0
            while k < len(b):           # a few bytes at a time
                m = r.choice([1, 1, 1, 2, 3, 5, 17, 100])
                t.append(W(1, b[k:k + m]))
                k += m
            cut = r.randint(0, len(b))  # two pieces, one of them through printf
            t += [W(2, b[:cut]), "p 2 " + b[cut:].hex()]
            t.append("p 3 " + b.hex())
        tr.append(t)
    # one byte at a time, each byte of every sequence a cut
    for i in range(ctx.pick(80, 600)):
        sx, sy = r.randint(2, 8), r.randint(1, 4)
        b = T.Gen(r, sx, sy, fam).bytes(6)
        tr.append(["I 0 %d %d 1" % (sx, sy), "I 1 %d %d 1" % (sx, sy), W(0, b)]
                  + [W(1, b[i:i + 1]) for i in range(len(b))])
    # long strings: around the size of tty_printf's buffer and well past it
    for n in [4095, 4096, 4097, 16382, 16383, 16384, 16385, 32768, 40000] + [r.randint(16000, 70000) for _ in range(3)]:
        g = T.Gen(r, 10, 3, dict(text=5, wide=1, sgr=1, lines=1, comb=1, goto=1))
        b = b""
        while len(b) < n:
            b += g.bytes(50)
        for end in (b"", b"x", b"\x1b[3"):
            c = b[:n - len(end)] + end
            more = g.bytes(3)       # what was lost at the end may show only later
            tr.append(["I 0 10 3 0", "I 1 10 3 0", W(0, c), "p 1 " + c.hex(), W(0, more), W(1, more)])
    T.validate(ctx, exe, tr, "-", "HistTrace")


def c03(ctx):
    "cursor, wrapping, scrolling"
    exe = T.build(ctx)
    T.replay_model(ctx, exe, "cursor", ctx.pick(4, 5), 3, 3, "text")
    fam = dict(text=6, lines=4, move=4, goto=2, region=1.3, wrapmode=.5, save=.7)
    n = ctx.pick(1200, 15000)
    T.validate(ctx, exe, T.random_traces(ctx, "small", n, fam), "text")
    T.validate(ctx, exe, T.random_traces(ctx, "big", n // 8, fam, sizes=[(80, 25), (132, 40), (20, 50), (40, 3)]), "text")


def c04(ctx):
    "erasing, inserting, deleting"
    exe = T.build(ctx)
    T.replay_model(ctx, exe, "erase", ctx.pick(4, 5), 4, 2, "full")
    fam = dict(text=5, wide=5, comb=2, goto=3, right=.7, erase=4, edit=8, sgr=.7, lines=1, region=.7, ff=.2)
    n = ctx.pick(1200, 15000)
    T.validate(ctx, exe, T.random_traces(ctx, "small", n, fam), "attr")
    T.validate(ctx, exe, T.random_traces(ctx, "big", n // 10, fam, sizes=[(80, 25), (40, 12)], atoms=(10, 40)), "attr")


def c05(ctx):
    "from bytes to characters"
    exe = T.build(ctx)
    T.replay_model(ctx, exe, "char", 4, 5, 2, "text")
    fam = dict(text=1, wide=2, comb=2, latin=2, utf8=10, hi=2, charset=1, graph=1, low=1, lines=.5)
    n = ctx.pick(900, 10000)
    T.validate(ctx, exe, T.random_traces(ctx, "utf8", n, fam), "text")
    T.validate(ctx, exe, T.random_traces(ctx, "8bit", n // 2, dict(fam, cp437=2, hi=8, utf8=2, graph=3)), "text")
    # every code point at a width or validity edge, and a sweep of all planes
    r = ctx.rng("sweep")
    g = T.Gen(r, 8, 2, fam)
    pts = set(range(0x80, 0x800)) | set(range(0xff00, 0x10000)) | set(range(0xd7f0, 0xe010))
    for a in (0x1100, 0x1160, 0x1200, 0x2329, 0x232b, 0x2e80, 0x303f, 0xa4d0, 0xac00, 0xd7a4, 0xf900, 0xfb00, 0xfe10,
              0xfe1a, 0xfe30, 0xfe70, 0x20000, 0x2fffe, 0x30000, 0x3fffe, 0x10000, 0x110000, 0xe0100, 0xe01f0,
              0xfdd0, 0xfdf0, 0x40000, 0xf0000, 0x100000):
        pts |= set(range(a - 3, a + 4))
    pts |= {(p << 16) + o for p in range(17) for o in (0xfffd, 0xfffe, 0xffff, 0, 1)}
    pts |= {r.randint(0x800, 0x10ffff) for _ in range(ctx.pick(1500, 60000))}
    if ctx.thorough:
        pts |= set(range(0x800, 0x10000))
    # characters the table of combining marks is about
    pts |= set(range(0x300, 0x700)) | set(range(0x900, 0xa00)) | set(range(0x1d160, 0x1d1b0)) | set(range(0x2000, 0x2100))
    enc = []
    for c in sorted(pts):
        n = 2 if c < 0x800 else 3 if c < 0x10000 else 4
        enc.append(g.enc(c, n))
    tr = []
    for i in range(0, len(enc), 120):
        t = ["I 0 6 1 0"]
        for e in enc[i:i + 120]:
            t.append(W(0, b"\x1b[2J\rA" + e + b"B"))
        tr.append(t)
    # every byte of the 8-bit character set, in every drawing mode
    t = ["I 0 4 1 0", W(0, b"\x1b%@")]
    for mode in (b"\x1b(B\x0f", b"\x1b(0\x0f", b"\x1b)0\x0e", b"\x1b)B\x0e"):
        t.append(W(0, mode))
        t += [W(0, b"\x1b[2J\r" + bytes([b])) for b in range(256) if b != 27]
    tr.append(t)
    T.validate(ctx, exe, tr, "text")


def c06(ctx):
    "attributes"
    exe = T.build(ctx)
    T.replay_model(ctx, exe, "sgr", ctx.pick(3, 4), 3, 1, "attr", limit=ctx.pick(9000, 60000))
    fam = dict(text=2, sgr=9, sgrlong=1.5, save=1, goto=.5, reset=.15)
    n = ctx.pick(1200, 15000)
    T.validate(ctx, exe, T.random_traces(ctx, "sgr", n, fam), "attr")
    # every single number, and every number after 38/48
    tr, r = [], ctx.rng("all")
    for base in (b"", b"1;3;4;5;7;9;31;42;", b"2;38;5;9;48;2;1;2;3;"):
        t = ["I 0 3 1 0"]
        for k in list(range(0, 130)) + [256, 257, 286, 294, 65537, 65567]:
            t.append(W(0, b"\x1b[m\x1b[%s%dm\rx" % (base, k)))
        tr.append(t)
    for lead in (b"38", b"48", b"1;38", b"38;5;1;48"):
        t = ["I 0 3 1 0"]
        for kind in range(0, 7):
            for cnt in range(0, 7):
                t.append(W(0, b"\x1b[m\x1b[3;5m\x1b[%s;%d" % (lead, kind) + b"".join(b";%d" % r.choice([0, 1, 4, 7, 31, 44, 200, 255, 256])
                                                                                      for _ in range(cnt)) + b"mx\r"))
        tr.append(t)
    T.validate(ctx, exe, tr, "attr")


def c07(ctx):
    "the parser always finds its way back"
    exe = T.build(ctx)
    T.replay_model(ctx, exe, "parser", 4, 3, 2, "title", limit=ctx.pick(9000, 60000))
    fam = dict(text=3, junk=6, cancel=3, osc=4, osclong=.05, modes=1, charset=.5, bell=.3, right=1)
    n = ctx.pick(1200, 15000)
    T.validate(ctx, exe, T.random_traces(ctx, "junk", n, fam), "title")
    # every final byte of every kind of sequence, from inside the screen and
    # from the pending-wrap column, followed by text
    tr = []
    finals = [c for c in range(32, 127) if not 48 <= c <= 57 and c not in b";t?"]
    for pos in (b"\x1b[2;3H", b"\x1b[1;99H\x1b[C"):
        for intro in (b"\x1b", b"\x1b[", b"\x1b[?", b"\x1b[3", b"\x1b[1;2", b"\x1b[?3;4", b"\x1b(", b"\x1b)", b"\x1b%",
                      b"\x1b[1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16;17"):
            t = ["I 0 7 3 0"]
            for c in finals:
                t.append(W(0, b"\x1b[r\x1b%%G\x1b(B\x0f\x1b[?7h\x1b[2Jabc%s%s%c" % (pos, intro, c) + b"Z"))
                t.append(W(0, b"\x18Y\a\x18"))
            tr.append(t)
    # one parameter after another, of sequences private and not, up to and
    # beyond what there is room for
    for n in range(1, 40):
        t = ["I 0 9 3 0"]
        for q in (b"", b"?"):
            for par in (b"1", b"25", b"7", b""):
                for c in b"lhmHr":
                    t += [W(0, b"\x1b[2J\x1b[H\x1b[%s%s" % (q, b";".join([par] * n)) + bytes([c]) + b"Z"), W(0, b"\x18Y")]
        tr.append(t)
    # long strings: titles up to and beyond what is kept
    for n in (0, 1, 4094, 4095, 4096, 4097, 9000):
        for num in (b"0", b"2", b""):
            tr.append(["I 0 4 2 0", W(0, b"\x1b]" + num + b";" + b"abcdefghij" * (n // 10) + b"k" * (n % 10) + b"\x1b\\Q")])
    T.validate(ctx, exe, tr, "title")


def c08(ctx):
    "resizing"
    exe = T.build(ctx)
    T.replay_model(ctx, exe, "resize", ctx.pick(5, 6), 4, 3, "full", limit=ctx.pick(12000, 80000))
    fam = dict(text=5, wide=4, comb=1, goto=2, right=1, size=4, region=1, save=1, sgr=.7, lines=2)

    def api(r, g):
        if r.random() < .5:
            g.sx, g.sy = r.choice([(r.randint(2, 14), r.randint(1, 7)), (2, 1), (40, 20), (3, 9)])
            return ["R 0 %d %d" % (g.sx, g.sy)]
        return []
    n = ctx.pick(900, 12000)
    T.validate(ctx, exe, T.random_traces(ctx, "api", n, fam, extra=api), "full")
    tr = T.random_traces(ctx, "fixed", n // 4, fam)
    for t in tr:
        t[0] = t[0][:-1] + "0"      # a terminal its input may not resize
    T.validate(ctx, exe, tr, "full")
    # the limits of what a sequence may ask for
    tr = []
    for h in (0, 1, 2, 255, 256, 257, 65536, 65537):
        for w in (0, 1, 2, 3, 511, 512, 513, 65538):
            if h * w < 3000 or h > 256 or w > 512:
                tr.append(["I 0 5 2 1", W(0, b"ab\xe4\xb8\x80\n\x1b7c\x1b[8;%d;%dtd" % (h, w))])
    T.validate(ctx, exe, tr, "full")


def c09(ctx):
    "copies"
    exe = T.build(ctx)
    r = ctx.rng("copies")
    fam = dict(ALL, osclong=.02)
    tr = []
    for i in range(ctx.pick(900, 10000)):
        sx, sy = r.randint(2, 10), r.randint(1, 5)
        g = T.Gen(r, sx, sy, fam)
        # 0 is the original, 1 its copy, 2 has the same history without being
        # copied; 3 and 4: copies of copies
        t = ["I 0 %d %d 1" % (sx, sy), "I 2 %d %d 1" % (sx, sy)]

        def both(ks, b):
            return [W(k, b) for k in ks]
        b = g.bytes(r.randint(0, 12))
        cut = r.randint(0, len(b))
        if r.random() < .3 and i % 2:
            t.append("L 0")
        t += both((0, 2), b[:cut])          # maybe in the middle of a sequence
        if r.random() < .2:
            t += ["R 0 7 3", "R 2 7 3"]
        t.append("C 0 1")
        order = r.random()
        rest = b[cut:] + g.bytes(r.randint(1, 5))
        if order < .3:
            t += both((1, 2), rest) + ["O 0"]
            t += both((0,), rest) + ["O 1"]
        elif order < .5:
            t += ["F 0"] + both((1, 2), rest)
        elif order < .7:
            other = g.bytes(r.randint(1, 8))
            t += both((0,), other) + ["O 1"] + both((1, 2), rest) + ["C 1 3"] + ["O 1"]
            more = g.bytes(3)
            t += both((3, 2, 1), more) + ["Z 1", "O 3", "O 0", "F 3", "O 1", "O 2"]
        elif order < .8:
            t += both((1, 2), rest) + ["C 1 0", "C 0 4", "F 1"]
            more = g.bytes(4)
            t += both((4, 2, 0), more)
        else:
            t += ["Z 0", "O 1"] + both((1, 2), rest) + ["I 0 3 3 1", "O 1", "R 1 4 2", "R 2 4 2", "O 0"] + both((2, 1), g.bytes(2))
        tr.append(t)
    T.validate(ctx, exe, tr, "-", "HistTrace")
    # an original that is redirected, or watched: the copy is neither
    tr = []
    for i in range(ctx.pick(60, 600)):
        g = T.Gen(r, 8, 3, ALL)
        t = ["I 0 8 3 1", "I 2 8 3 1", "V 0 %d" % (i % 2)]
        b = g.bytes(5)
        t += [W(0, b), W(2, b), "C 0 1", "O 0"]
        b = g.bytes(5)
        t += [W(1, b), W(2, b)] + r.choice([["F 0", "F 1"], ["F 1", "O 0", W(0, b), "F 0"]])
        tr.append(t)
    T.validate(ctx, exe, tr, "-", "HistTrace")


def c10(ctx):
    "notifications suffice to keep a picture"
    exe = T.build(ctx)
    n = ctx.pick(1000, 12000)
    T.validate(ctx, exe, T.random_traces(ctx, "all", n, ALL, pre=["L 0"]), "full", "MirrorTrace")
    edit = dict(text=4, wide=6, comb=3, goto=3, right=1, erase=4, edit=8, lines=3, region=1, sgr=1, wrapmode=.3, modes=.5, osc=.5, bell=.5, reset=.3, size=.4)
    T.validate(ctx, exe, T.random_traces(ctx, "edit", n, edit, atoms=(1, 4), writes=(5, 20), pre=["L 0"]), "full", "MirrorTrace")


def c11(ctx):
    "redirection to another terminal"
    exe = T.build(ctx)
    r = ctx.rng("vt")
    fam = dict(text=6, wide=4, comb=2, latin=1, lines=4, ff=.2, move=3, goto=2, right=1, region=1, erase=3, edit=4, save=1,
               wrapmode=.5, bell=.5, sgr8=2, charset=.5, osc=.7, reset=.2, utf8=.5, cp437=.1, graph=.3)

    class G(T.Gen):
        def g_sgr8(self):   # colours out of the 256 are not anything a terminal has
            while True:
                s = self.g_sgr()
                if not any(x in s for x in (b"300", b"429", b"655", b"9999", b"214748")):
                    return s
    tr = []
    for _ in range(ctx.pick(1400, 16000)):
        sx, sy = r.randint(2, 12), r.randint(1, 6)
        g = G(r, sx, sy, fam)
        t = ["I 0 %d %d 1" % (sx, sy)]
        if r.random() < .3:
            # only then attached ("w": nothing is shown of it yet)
            t += ["w" + W(0, g.bytes(r.randint(1, 12)))[1:], "V 0 1"]
        else:
            t += ["V 0 0", "S 0 %d %d" % (sx, sy)]
        for _ in range(r.randint(3, 10)):
            if r.random() < .08:
                g.sx, g.sy = r.randint(2, 10), r.randint(1, 6)
                t += ["R 0 %d %d" % (g.sx, g.sy), "S 0 %d %d" % (g.sx, g.sy), "D 0"]
            t.append(W(0, g.bytes(r.randint(1, 10))))
        tr.append(t)
    T.validate(ctx, exe, tr, "full", "VtTrace", drv=dict(DRV_LOCALE="C.UTF-8"))


def c30(ctx):
    "redirection to a display of another size"
    exe = T.build(ctx)
    fam = dict(text=6, wide=5, comb=2, latin=1, lines=4, ff=.2, move=3, goto=3, right=1, region=1.5, erase=4, edit=4, save=1,
               wrapmode=.5, bell=.2, charset=.2, osc=.3, reset=.2, size=2.5)
    for mode in ("deaf", "obey"):
        r = ctx.rng("clip" + mode)
        tr = []
        for _ in range(ctx.pick(900, 12000)):
            sx, sy = r.randint(2, 12), r.randint(1, 6)
            g = T.Gen(r, sx, sy, fam)

            def size():
                k = r.random()
                return ["S 0 %d %d" % (max(2, g.sx + r.randint(-3, 3) * (k > .2)), max(1, g.sy + r.randint(-2, 2) * (k < .8))), "D 0"]
            t = ["I 0 %d %d 1" % (sx, sy)]
            if r.random() < .5:
                t.append("w" + W(0, g.bytes(r.randint(1, 12)))[1:])
            t += ["V 0 0"] + size()
            for _ in range(r.randint(3, 10)):
                k = r.random()
                if k < .08:
                    t += size()
                elif k < .14:
                    g.sx, g.sy = r.randint(2, 12), r.randint(1, 7)
                    t += ["R 0 %d %d" % (g.sx, g.sy)] + (size() if k < .11 else ["D 0"])
                t.append(W(0, g.bytes(r.randint(1, 10))))
            tr.append(t)
        T.validate(ctx, exe, tr, "full", "VtTrace", drv=dict(DRV_LOCALE="C.UTF-8"), CLIP=mode)


def c32(ctx):
    "colours in other modes"
    vf.model(ctx, "MCColors", cfg=ctx.pick("MCColors", "MCColors15"))
    exe = vf.build(ctx, "coldrv", ["coldrv.c"])
    r = ctx.rng("colours")
    rgb = [(v, v, v) for v in range(256)]
    g = ctx.pick([0, 47, 85, 116, 170, 193, 255], [0, 8, 47, 55, 75, 85, 95, 113, 116, 135, 170, 175, 193, 215, 248, 255])
    rgb += [(a, b, c) for a in g for b in g for c in g]
    lev = [0, 95, 135, 175, 215, 255]
    rgb += [(a, b, c) for a in lev for b in lev for c in lev]
    rgb += [tuple(min(255, max(0, x + r.choice([-1, 0, 1]))) for x in (r.choice(lev + [0, 85, 170, 255]) for _ in range(3))) for _ in range(ctx.pick(1000, 10000))]
    rgb += [tuple(r.randrange(256) for _ in range(3)) for _ in range(ctx.pick(2000, 40000))]
    # the standard ones, in every mode
    rgb += [tuple((85 if i & 8 else 0) + (170 if i >> k & 1 else 0) for k in range(3)) for i in range(16)] + [(170, 85, 0)]
    q = [(3, c, to) for c in rgb for to in (0, 1, 2, 3)]
    q += [(m, v, to) for m, n in ((1, 16), (2, 256)) for v in range(n) for to in (0, 1, 2, 3)]
    cases = [q[i:i + 50] for i in range(0, len(q), 50)]

    def run(gr):
        num = lambda c: c if isinstance(c, int) else c[0] << 16 | c[1] << 8 | c[2]
        p = vf.run([exe], "".join("%d %d %d\n" % (m, num(c), to) for b in gr for m, c, to in b).encode(), 120, cwd="/")
        if not p.ok:
            raise recfmt.Died(p)
        res = iter(map(int, p.out.split()))
        rec = []
        for b in gr:
            a = []
            for m, c, to in b:
                x = next(res)
                a.append([m, c if isinstance(c, int) else list(c), to, [x >> 16, x >> 8 & 255, x & 255] if to == 3 else x])
            rec.append(dict(all=a))
        return rec
    caseeng.validate(ctx, cases, formats.safe(exe, run), "ColTrace", "converting colours", lambda c: repr(c)[:2000], weight=4)
