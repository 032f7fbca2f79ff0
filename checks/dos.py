"""C26: DosRecorder files."""
import bz2, gzip, lzma, struct
import caseeng, vf
from vf import CheckError, Violation

TECH = {"C26": "TLA+ state machine of the remembered screens, model checked by TLC; generated and damaged files are played by the real code into the real terminal, TLC validates each screen and delay"}

N = 2000


def cells(r, n):
    k = r.random()
    if k < .25:
        return [r.choice([0x0720, 0x0720, 0x1720, 0x7020, 0xf020])] * n
    if k < .4:
        a = r.choice([7, 0x17, 0x4e, 0x80, r.randrange(256)])
        return [r.choice(b"  ab") | a << 8 for _ in range(n)]
    if k < .8:
        a, out = 7, []
        for _ in range(n):
            if r.random() < .1:
                a = r.choice([7, 0x0f, 0x1f, 0x87, r.randrange(256)])
            if r.random() < .05:
                out += [32 | a << 8] * r.choice([1, 9, 10, 11, 19, 20, 21, 30, 60, 80, 81])
            out.append(r.choice([r.randrange(256), r.randint(32, 126)]) | a << 8)
        return out[:n]
    return [r.randrange(65536) for _ in range(n)]


def frame(r):
    ch = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 10, 40])):
        n = r.choice([0, 1, 2, 10, 80, r.randint(1, 200)])
        p = r.choice([0, r.randrange(N), r.randrange(25) * 80, 79, N - 1])
        n = min(n, N - p)
        if r.random() < .1:
            p, n = r.choice([(0, N), (N - n, n)])
            p = min(p, N - 1)
        ch.append([p, cells(r, n)])
    if r.random() < .15:
        ch.append([0, [r.choice([65, 32]) | r.choice([0xff00, 0xff00, 0x8000])]])
    f = dict(ms=r.choice([1, 10, 55, 999, 1000, 1001, 70000, r.randint(1, 10**6), 2**32 - r.randint(1, 2**31)]),
             s=r.choice([0, 0, 1, 2, 255, r.randrange(256)]), d=r.choice([0, 0, 1, 2, 255, r.randrange(256)]), ch=ch, note=[], title=None)
    if r.random() < .3:
        w, h = r.choice([(0, 0), (1, 1), (80, 25), (80, 1), (1, 25), (r.randint(0, 80), r.randint(0, 25))])
        x, y = r.choice([0, 80 - w, r.randint(0, 80 - w)]), r.choice([0, 25 - h, r.randint(0, 25 - h)])
        f["note"] = [w, h, x, y, cells(r, w * h)]
        f["title"] = r.choice([b"", b"A title", b"x" * 80, b"Note: \x01\x82", bytes(r.randrange(256) for _ in range(r.randint(0, 80))), b"\x07\x1b[?7l\x1b[4h\x1b(0"])
    return f


def pack(fs, r):
    o = bytearray()
    for f in fs:
        o += struct.pack("<IBBBBH", f["ms"], r.randrange(80), r.randrange(25), f["s"], f["d"], len(f["ch"]) | 0x8000 * (f["title"] is not None))
        for p, c in f["ch"]:
            o += struct.pack("<HH", p, len(c))
        for p, c in f["ch"]:
            o += struct.pack("<%dH" % len(c), *c)
        if f["title"] is not None:
            w, h, x, y, c = f["note"]
            o += struct.pack("<7B", w, h, x, y, len(f["title"]), r.randrange(256), r.randrange(256))
            o += struct.pack("<%dH" % len(c), *c) + f["title"]
    return bytes(o)


def parse(b):
    "-> (frames, whether that's all there is)"
    fs, at = [], 0

    def get(n):
        nonlocal at
        x = b[at:at + n]
        if len(x) < n:
            raise EOFError
        at += n
        return x
    while at < len(b):
        try:
            ms, cx, cy, s, d, n = struct.unpack("<IBBBBH", get(10))
            k = n & 0x7fff
            if k > N:
                return fs, False
            hs = struct.iter_unpack("<HH", get(4 * k))
            ch = []
            for p, l in list(hs):
                if p >= N or p + l > N:
                    return fs, False
                ch.append([p, list(struct.unpack("<%dH" % l, get(2 * l)))])
            note, title = [], []
            if n & 0x8000:
                w, h, x, y, tl, _, _ = struct.unpack("<7B", get(7))
                if x + w > 80 or y + h > 25 or tl > 80:
                    return fs, False
                note = [w, h, x, y, list(struct.unpack("<%dH" % (w * h), get(2 * w * h)))]
                t = get(tl)
                if all(32 <= c < 127 for c in t):
                    title = [t.hex()]
        except EOFError:
            return fs, False
        fs.append(dict(delay=[ms >> 16, ms & 0xffff], s=s, d=d, ch=ch, note=note, title=title))
    return fs, True


def play(exe, g):
    p = vf.run([exe], "".join(c["file"] + "\n" for c in g).encode(), timeout=600)
    if p.hung or p.rc:
        raise CheckError("player: " + p.why())
    recs, ev, us, left = [], [], None, iter(g)
    for x in p.out.decode("latin1").split("\n"):
        w = x[:2]
        if w == "w ":
            s, u = map(int, x[2:].split())
            d = s * 1000000 + u if 0 <= u < 1000000 else -1
            if us is None or shown:
                us, shown = d, False
                ev.append([us, [], [], ""])
            else:
                us += d
                ev[-1][0] = us
        elif w == "t " and ev:
            ev[-1][3] = x[2:]
            shown = True
        elif w == "s " and ev:
            a, c = x[2:].split(";")
            ev[-1][1] = [[int(y) for y in z.split(",")] for z in a.split()]
            ev[-1][2] = [int(y) for y in c.split()]
        elif w == "si" and ev:
            ev[-1][1:3] = [[], []]
        elif w == ". ":
            c = next(left)
            if int(x[2:]) == 99:
                raise Violation("memory error in a DosRecorder file", text="%s\n%s" % (show(c), p.err[-4000:]), files={"file.dm2": c["data"]})
            for e in ev:
                ms = e[0] // 1000 if e[0] % 1000 == 0 else -1
                e[0] = [ms >> 16, ms & 0xffff]
            fs, whole = parse(c["data"])
            recs.append(dict(frames=fs, whole=whole, res=int(x[2:]), ev=ev))
            ev, us = [], None
    if len(recs) != len(g):
        raise CheckError("player: %d of %d" % (len(recs), len(g)))
    return recs


def show(c):
    fs, whole = parse(c["data"])
    return "%s: %d bytes, frames with %s, %s" % (c["how"], len(c["data"]), [(f["s"], f["d"], [(p, len(x)) for p, x in f["ch"]], f["note"][:4]) for f in fs],
                                                  "whole" if whole else "not whole")


def c26(ctx):
    vf.model(ctx, "MCDos", "MCDos3.cfg" if ctx.thorough else None)
    exe = vf.build(ctx, "dosdrv", ["dosdrv.c"])
    r = ctx.rng("c26")
    cases = []
    for i in range(ctx.pick(220, 6000)):
        fs = [frame(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]
        b, how = pack(fs, r), "good"
        k = r.random()
        if k < .25:
            how, b = "cut", b[:r.randint(0, len(b))]
        elif k < .5 and b:
            how, b = "damaged", bytearray(b)
            at = 0
            for f in fs[:r.randrange(len(fs))]:
                at += len(pack([f], r))
            for _ in range(r.choice([1, 1, 2, 10])):
                j = r.choice([r.randrange(len(b)), at + r.randrange(10), at + r.randrange(30), at + 10 + 4 * r.randrange(3), len(b) - 1 - r.randrange(min(len(b), 100))])
                if j < len(b):
                    b[j] = r.choice([0, 255, 0x80, r.randrange(256)])
            b = bytes(b)
        elif k < .6:
            # frames with a field just out of what there is
            f = frame(r)
            while f["title"] is None:
                f = frame(r)
            w, h = r.randint(1, 80), r.randint(1, 25)
            t = r.random()
            if t < .35:
                f["note"] = [w, h, 81 - w, r.randint(0, 25 - h), cells(r, w * h)]
            elif t < .7:
                f["note"] = [w, h, r.randint(0, 80 - w), 26 - h, cells(r, w * h)]
            elif t < .8:
                f["title"] = b"t" * r.choice([81, 255])
            elif t < .9:
                n = r.choice([1, 2, 80])
                f["ch"].append([N + 1 - n, cells(r, n)])
            else:
                f["ch"] = [[0, [65]]] * (N + 1)
            how, b = "out of bounds", b + pack([f] + fs, r)
        ext, zip_ = r.choice([(".dm2", None), (".dm2", None), (".dm2", gzip.compress), (".DM2.gz", gzip.compress), (".dm2.xz", lzma.compress)])
        p = ctx.fresh("f", ext)
        open(p, "wb").write(zip_(b) if zip_ else b)
        cases.append(dict(file=p, data=b, how=how))
    caseeng.validate(ctx, cases, lambda g: play(exe, g), "DosTrace", "a DosRecorder file", show=show, weight=14)
    ctx.count(files=len(cases))
