"""The terminal engine: generates calls, records real runs of the emulator,
has TLC validate the recordings against the specification."""
import json, os, re
import vf
from vf import CheckError, Violation


def W(k, b):
    return "W %d %s" % (k, bytes(b).hex())


def build(ctx, **kw):
    return vf.build(ctx, "ttydrv", ["ttydrv.c"], **kw)


def record(ctx, exe, cmds, timeout=60, **ev):
    return vf.run([exe], ("\n".join(cmds) + "\n").encode(), timeout, vf.env(**ev))


def show(cmds):
    out = []
    for c in cmds:
        if c[0] in "Wpw":
            op, k, *h = c.split(" ")
            out.append("%s %s %r" % (op, k, bytes.fromhex(h[0] if h else "")))
        else:
            out.append(c)
    return "\n".join(out)


def _tlc(ctx, data, mode, module, ev):
    f = ctx.fresh("trace", ".ndjson")
    with open(f, "wb") as o:
        o.write(data)
    t = vf.tlc(ctx, module, TRACE=f, MODE=mode, heap="2500m", **ev)
    os.unlink(f)
    m = re.search(r'<<\s*"MISMATCH",\s*(\d+)', t.out)
    if m:
        i = t.out.find('"MISMATCH"')
        return int(m.group(1)), re.split(r'<<"STEPS"|\nError', t.out[i - 2:i + 700])[0], t
    m = re.search(r'<<"STEPS", (\d+), (\d+)>>', t.out)
    if not m or m.group(1) != m.group(2) or not t.completed:
        raise CheckError("TLC did not finish %s:\n%s" % (module, t.out[-3000:]))
    return 0, "", t


def _one(ctx, exe, cmds, mode, module, ev, drv):
    """-> None if the trace is accepted, or what is wrong with it."""
    r = record(ctx, exe, cmds, **drv)
    if not r.ok:
        return r.why()
    n, what, t = _tlc(ctx, r.out, mode, module, ev)
    return what if n else None


def _shrink(ctx, exe, cmds, mode, module, ev, drv, budget=14):
    """Drops commands, then bytes, while the trace is still rejected."""
    def bad(c):
        nonlocal budget
        budget -= 1
        try:
            return _one(ctx, exe, c, mode, module, ev, drv) is not None
        except CheckError:
            return False
    step = max(1, len(cmds) // 2)
    while step and budget > 0:
        i = 1
        while i < len(cmds) and budget > 0:
            c = cmds[:i] + cmds[i + step:]
            if all(x[0] in "WpROAZD" for x in cmds[i:i + step]) and bad(c):
                cmds = c
            else:
                i += step
        step //= 2
    return cmds


def _report(ctx, exe, cmds, mode, module, ev, drv, what):
    again = _one(ctx, exe, cmds, mode, module, ev, drv)
    if again is None:
        raise CheckError("a rejection was not repeated: " + what)
    small = _shrink(ctx, exe, cmds, mode, module, ev, drv)
    last = _one(ctx, exe, small, mode, module, ev, drv) or again
    raise Violation("the emulator does something the specification does not allow: %s" % " ".join(last.split()),
                    files={"cmds.txt": "\n".join(small) + "\n"},
                    text="Commands for ttydrv (see harness/ttydrv.c), projection %r, specification %s:\n%s\n"
                         % (mode, module, show(small)))


def validate(ctx, exe, traces, mode="full", module="TtyTrace", drv=None, shards=None, **ev):
    """Every trace: a list of commands, the first of which is an I."""
    drv = drv or {}
    n = min(shards or vf.shards(sum(len(t) for t in traces)), len(traces))
    groups = [traces[i::n] for i in range(n)]

    def work(g):
        r = record(ctx, exe, [c for t in g for c in t], timeout=240, **drv)
        if not r.ok:
            for t in g:
                q = record(ctx, exe, t, **drv)
                if not q.ok:
                    return ("died", t, q.why())
            raise CheckError("the driver died, but on no single trace: " + r.why())
        lines = r.out.count(b"\n")
        if lines != sum(len(t) for t in g):
            raise CheckError("the driver wrote %d lines for %d commands" % (lines, sum(len(t) for t in g)))
        at, what, t = _tlc(ctx, r.out, mode, module, ev)
        if not at:
            return ("ok", len(g), t)
        for t in g:
            if at <= len(t):
                return ("rejected", t[:at], what)
            at -= len(t)

    res = vf.parallel(work, groups)
    for kind, a, b in res:
        if kind == "died":
            small = a
            q = record(ctx, exe, small, **drv)
            if q.ok:
                raise CheckError("a crash was not repeated")
            for i in range(1, len(a) + 1):
                if not record(ctx, exe, a[:i], **drv).ok:
                    small = a[:i]
                    break
            raise Violation("the emulator fails: %s" % q.why(),
                            files={"cmds.txt": "\n".join(small) + "\n"},
                            text="Commands for ttydrv (see harness/ttydrv.c):\n%s\n\n%s" % (show(small), q.err[-3000:]))
    for kind, a, b in res:
        if kind == "rejected":
            _report(ctx, exe, a, mode, module, ev, drv, b)
    for kind, a, b in res:
        ctx.count(traces_validated_against_impl=a, states=b.distinct, transitions=b.generated)
    for t in traces[:2]:
        ctx.sample(show(t)[:600])


# ------------------------------------------------- behaviours out of the model

def behaviours(ctx, family, depth, sx, sy, limit=None, workers=4):
    """All transitions of the bounded model: pairs (shortest path, command)."""
    t = vf.tlc(ctx, "MCTty", workers=workers, FAMILY=family, DEPTH=depth, SX=sx, SY=sy, EMIT="yes", heap="6g")
    if not t.completed:
        raise CheckError("the model check of MCTty failed:\n" + t.out[-4000:])
    ctx.count(states=t.distinct, transitions=t.generated)
    ms = re.search(r'"<<0, (<<<<.*>>>>)>>"\n', t.out)
    cmds = [bytes(int(x) for x in c.split(",")) for c in re.findall(r"<<([\d, \n]+)>>", ms.group(1))]
    out = []
    for m in re.finditer(r'"<<<<([\d, ]*)>>, (\d+)>>"', t.out):
        h = [int(x) for x in m.group(1).split(",")] if m.group(1) else []
        out.append((h, int(m.group(2))))
    out.sort()
    return cmds, out


def replay_model(ctx, exe, family, depth, sx, sy, mode="full", limit=60000, **kw):
    """Replays every transition of the bounded model into the real code."""
    cmds, tr = behaviours(ctx, family, depth, sx, sy)
    if len(tr) > limit:
        r = ctx.rng("limit" + family)
        r.shuffle(tr)
        tr = tr[:limit]
    traces = []
    for h, c in tr:
        t = ["I 0 %d %d 1" % (sx, sy)]
        if h:
            t.append(W(0, b"".join(cmds[i - 1] for i in h)))
        t.append(W(0, cmds[c - 1]))
        traces.append(t)
    validate(ctx, exe, traces, mode, **kw)
    ctx.count(model_transitions_replayed=len(traces))


# ------------------------------------------------------------- random calls

ODD = [b"", b"0", b"1", b"2", b"3", b"4", b"5", b"7", b"9", b"10", b"17", b"80", b"100", b"255", b"256",
       b"257", b"65535", b"65536", b"65537", b"999999", b"2147483647", b"2147483648", b"2147483649",
       b"4294967295", b"4294967296", b"4294967297", b"42949672960"]
WORDS = [b"a", b"bc", b"def", b"ghij klm", b"nopqrstuvwxyz", b"0123456789", b"ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
WIDE = [c.encode() for c in "一中文字가각ア、！ﾠ＠𠀀"]
COMB = [c.encode() for c in "\u0301\u0302\u0300\u20d0\u0489\u200b\ufe0f\U000e0101"]
LATIN = [c.encode() for c in "é¡ÿßΩЖ€─█\u00ad\u0378\uffe8\U0001f600"]


class Gen:
    """Bytes for a terminal of a given size, from weighted families."""

    def __init__(self, rng, sx, sy, fam):
        self.r, self.sx, self.sy = rng, sx, sy
        self.names = list(fam)
        self.weights = [fam[n] for n in self.names]

    def num(self, hi):
        r = self.r
        k = r.random()
        if k < .15:
            return b""
        if k < .9:
            return b"%d" % r.randint(0, hi + 2)
        return r.choice(ODD)

    def atom(self):
        return getattr(self, "g_" + self.r.choices(self.names, self.weights)[0])()

    def bytes(self, n):
        return b"".join(self.atom() for _ in range(n))

    def g_text(self):
        r = self.r
        if r.random() < .2:
            return bytes(r.choice(b"abcdefghXYZ#. ") for _ in range(r.randint(1, 2 * self.sx)))
        return r.choice(WORDS)

    def g_wide(self):
        return b"".join(self.r.choice(WIDE) for _ in range(self.r.choice([1, 1, 2, self.sx // 2 + 1])))

    def g_comb(self):
        return self.r.choice([b"", b"x"]) + b"".join(self.r.choice(COMB) for _ in range(self.r.choice([1, 1, 2, 4, 5])))

    def g_latin(self):
        return self.r.choice(LATIN)

    def g_lines(self):
        return self.r.choice([b"\n", b"\n", b"\r\n", b"\v", b"\r", b"\b", b"\t", b"\x1bD", b"\x1bE", b"\x1bM",
                              b"\x1bM", b"\n\n\n", b"\b\b", b"\t\t"])

    def g_ff(self):
        return b"\f"

    def g_move(self):
        r = self.r
        return b"\x1b[" + self.num(max(self.sx, self.sy)) + bytes([r.choice(b"ABCDEFGad`")])

    def g_goto(self):
        r = self.r
        k = r.random()
        if k < .1:
            return b"\x1b[" + self.num(self.sy) + b"H"
        return b"\x1b[" + self.num(self.sy) + b";" + self.num(self.sx) + r.choice([b"H", b"f"])

    def g_right(self):
        return b"\x1b[%dC" % self.r.choice([self.sx, self.sx - 1, 1, 999])

    def g_region(self):
        r = self.r
        if r.random() < .15:
            return b"\x1b[r"
        if r.random() < .7:
            a = r.randint(1, self.sy)
            b = r.randint(1, self.sy)
            return b"\x1b[%d;%dr" % (min(a, b), max(a, b))
        return b"\x1b[" + self.num(self.sy) + b";" + self.num(self.sy) + b"r"

    def g_erase(self):
        r = self.r
        return b"\x1b[" + r.choice([b"", b"0", b"1", b"2", b"3"]) + r.choice([b"J", b"K", b"K"])

    def g_edit(self):
        return b"\x1b[" + self.num(self.r.choice([3, self.sx])) + bytes([self.r.choice(b"@PX@PXLM")])

    def g_save(self):
        return self.r.choice([b"\x1b7", b"\x1b8", b"\x1b8"])

    def g_wrapmode(self):
        return self.r.choice([b"\x1b[?7l", b"\x1b[?7h", b"\x1b[?7h"])

    def g_modes(self):
        r = self.r
        return r.choice([b"\x1b[?25l", b"\x1b[?25h", b"\x1b=", b"\x1b>", b"\x1b[?7;25h", b"\x1b[?25;7l", b"\x1b[?7h",
                         b"\x1b[?1049h", b"\x1b[?2004;25;7h"])

    def g_bell(self):
        return b"\a"

    def g_sgr(self):
        r = self.r
        n = r.choice([0, 1, 1, 1, 2, 3, 5])
        p = [self.sgr1() for _ in range(n)]
        return b"\x1b[" + b";".join(p) + b"m"

    def sgr1(self):
        r = self.r
        k = r.random()
        if k < .5:
            return b"%d" % r.choice([0, 1, 2, 3, 4, 5, 7, 9, 21, 22, 23, 24, 25, 27, 29, 39, 49, 6, 8, 10, 28, 50])
        if k < .75:
            return b"%d" % (r.choice([30, 40, 90, 100]) + r.randint(0, 7))
        if k < .85:
            return b"%d;5;%d" % (r.choice([38, 48]), r.randint(0, 255))
        if k < .94:
            return b"%d;2;%d;%d;%d" % (r.choice([38, 48]), r.randint(0, 255), r.randint(0, 255), r.randint(0, 255))
        if k < .97:
            return b"%d" % r.choice([38, 48])
        return r.choice([b"38;5", b"48;2;1", b"38;3;1;2;3", b"48;4;1;2;3;4", b"38;5;300", b"48;2;256;-1;300",
                         b"38;9;1", b"38;5;4294967295", b"48;2;65536;513;511"]) if r.random() < .7 else r.choice(ODD)

    def g_sgrlong(self):
        # up to and beyond the sixteen parameters
        n = self.r.choice([12, 13, 14, 15, 16, 17])
        p = [b"%d" % self.r.choice([0, 1, 4, 7, 31, 44, 38, 48, 5, 2, 3]) for _ in range(n)]
        return b"\x1b[" + b";".join(p) + b"m"

    def g_charset(self):
        return self.r.choice([b"\x1b(0", b"\x1b(B", b"\x1b)0", b"\x1b)B", b"\x0e", b"\x0f", b"\x1b(U", b"\x1b)A",
                              b"\x0eqqxlmk\x0f", b"\x1b(0`afgjklmn\x1b(B"])

    def g_graph(self):
        return bytes(self.r.choice(b"`abcdefghijklmnopqrstuvwxyz{|}~+,-.0_^ ") for _ in range(self.r.randint(1, 8)))

    def g_cp437(self):
        return self.r.choice([b"\x1b%@", b"\x1b%8", b"\x1b%G", b"\x1b%G"])

    def g_hi(self):
        return bytes(self.r.randint(128, 255) for _ in range(self.r.randint(1, 5)))

    def g_low(self):
        return bytes([self.r.choice([1, 2, 3, 4, 6, 16, 17, 19, 20, 22, 23, 25, 28, 29, 30, 31, 0, 5, 127])])

    def enc(self, c, n):
        """c as an n-byte sequence, overlong or not"""
        if n == 1:
            return bytes([c & 127])
        out = []
        for _ in range(n - 1):
            out.insert(0, 0x80 | c & 63)
            c >>= 6
        lead = {2: 0xc0, 3: 0xe0, 4: 0xf0, 5: 0xf8, 6: 0xfc}[n]
        return bytes([(lead | c) & 255 if c < (1 << (7 - n)) else lead | (1 << (7 - n)) - 1] + out)

    def g_utf8(self):
        r = self.r
        k = r.random()
        edge = [0x80, 0x9f, 0xa0, 0x7f, 0x41, 0, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000,
                0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xffee, 0xffef, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x1ffff,
                0x2fffd, 0x2fffe, 0x30000, 0x3fffd, 0xfffff, 0x10fffd, 0x10ffff, 0x110000, 0x1fffff, 0x200000,
                0x3ffffff, 0x4000000, 0x7fffffff, 0x300, 0x115f, 0x1160, 0x2e80, 0x303f, 0xa4cf, 0xac00, 0xfeff]
        if k < .35:
            c = r.choice(edge)
        elif k < .45:
            c = 0xd800 + r.randint(0, 1023)
            d = 0xdc00 + r.randint(0, 1023)
            return self.enc(c, 3) + self.enc(d, 3)
        elif k < .8:
            c = r.choice([r.randint(0x80, 0x7ff), r.randint(0x800, 0xffff), r.randint(0x10000, 0x10ffff)])
        else:
            c = r.randint(0, 0x10ffff)
        n = next(i for i, m in ((1, 0x80), (2, 0x800), (3, 0x10000), (4, 0x200000), (5, 0x4000000), (6, 1 << 31)) if c < m)
        if r.random() < .15:
            n = min(6, n + r.randint(0, 3))
        s = self.enc(c, n)
        if r.random() < .15:
            s = s[:r.randint(1, len(s))]
        if r.random() < .05:
            s = s[:1] + r.choice([b"a", b"\n", b"\xc3", b"\x1b[m"]) + s[1:]
        return s

    def g_osc(self):
        r = self.r
        body = bytes(r.choice(b"abc ;0/\xc3\xa9") for _ in range(r.randint(0, 8)))
        end = r.choice([b"\a", b"\x1b\\", b"\x1b\\", b"\x18", b"\x1a", b"\x1b[m", b"\a"])
        num = r.choice([b"0", b"0", b"0", b"0", b"2", b"1", b"4", b"", b"00", b"4294967295", b"4294967296", b"x", b"0x", b"777"])
        return b"\x1b]" + num + r.choice([b";", b";", b";", b""]) + body + end

    def g_osclong(self):
        n = self.r.choice([4093, 4094, 4095, 4096, 4097, 5000])
        return b"\x1b]0;" + b"t" * (n - 3) + b"xyz" + b"\a"

    def g_cancel(self):
        r = self.r
        return r.choice([b"\x1b", b"\x1b[", b"\x1b[?", b"\x1b[1;2", b"\x1b]", b"\x1b]0;q", b"\x1b(", b"\x1b%"]) + \
            r.choice([b"\x18", b"\x1a", b"\x1b", b"\x1b[m"])

    def g_junk(self):
        r = self.r
        k = r.random()
        if k < .3:
            return b"\x1b" + bytes([r.randint(32, 126)])
        if k < .7:
            f = r.choice([c for c in range(32, 127) if not (48 <= c <= 57) and c not in b";t?"])
            return b"\x1b[" + r.choice([b"", b"?", b"5;", b"1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16;17;"]) + self.num(5) + bytes([f])
        if k < .8:
            return b"\x1b[" + self.num(9) + r.choice([b">", b"!", b"$", b" ", b"=", b"?"]) + b"1c"
        return bytes(r.randint(0, 255) for _ in range(r.randint(1, 4)))

    def g_reset(self):
        return b"\x1b[c"

    def g_size(self):
        r = self.r
        k = r.random()
        if k < .75:
            return b"\x1b[8;%d;%dt" % (r.randint(1, 7), r.randint(2, 12))
        if k < .9:
            return b"\x1b[8;" + self.num(5) + b";" + self.num(8) + b"t"
        return r.choice([b"\x1b[8t", b"\x1b[8;3t", b"\x1b[8;;5t", b"\x1b[8;257;5t", b"\x1b[8;3;513t", b"\x1b[8;3;1t",
                         b"\x1b[9;3;5t", b"\x1b[t", b"\x1b[8;0;0t", b"\x1b[8;4294967295;3t", b"\x1b[8;-1;3t"])


def random_traces(ctx, name, n, fam, atoms=(1, 12), writes=(3, 12), sizes=None, extra=None, pre=()):
    """n traces, each on a terminal of its own size; `extra(rng, gen)` may
    return further commands to put between the writes."""
    r = ctx.rng(name)
    out = []
    for _ in range(n):
        sx, sy = r.choice(sizes) if sizes else (r.randint(2, 12), r.randint(1, 6))
        g = Gen(r, sx, sy, fam)
        t = ["I 0 %d %d %d" % (sx, sy, 1)] + list(pre)
        for _ in range(r.randint(*writes)):
            if extra:
                t += extra(r, g)
            t.append(W(0, g.bytes(r.randint(*atoms))))
        out.append(t)
    return out
