"""C12, C13: recordings in memory."""
import json, os
import caseeng, recfmt, ttyeng, vf
from caseeng import T
from formats import put, safe

TECH = {p: "TLA+ state machine of the timeline (Timeline.tla); TLC validates recorded uses of the real one against it"
        for p in ("C12", "C13")}
TECH["C29"] = "TLA+ definition of time arithmetic with unbounded naturals (Time.tla), its laws model-checked; TLC validates results of the real macros and of the live recorder and player"

DELAYS = [(0, 0), (0, 1), (0, 999999), (0, 500000), (1, 0), (4, 999999), (5, 0), (5, 1), (6, 0), (1000, 5), (-1, 0), (-1, 999999), (-3, 5), (2, 300000)]


class Script:
    "builds the commands and remembers the arguments"
    def __init__(self, ctx, r, gen=None):
        self.ctx, self.r, self.cmds, self.meta, self.files = ctx, r, [], [], []

    def add(self, cmd, **meta):
        self.cmds.append(cmd)
        self.meta.append(meta)


def data(r, g, big):
    if big:
        # sizes around those at which snapshots are taken
        n = r.choice([65535, 65536, 65537, 30000, 40000, 1, 70000, 131072])
        b = g.bytes(12)
        return (b * (n // max(1, len(b)) + 1))[:n]
    return g.bytes(r.randint(1, 4))


def ts(t):
    return "- -" if t is None else "%d %d" % t


def norm(s, u):
    return s + u // 1000000, u % 1000000


class Clock:
    "the times frames will have, to aim seeks at"
    def __init__(self):
        self.t, self.all = (0, 0), [(0, 0)]

    def add(self, d):
        d = (5, 0) if d[0] < 0 or d[0] >= 5 else d
        self.t = norm(self.t[0] + d[0], self.t[1] + d[1])

    def mark(self):
        self.all.append(self.t)

    def near(self, r):
        if r.random() < .1:
            return r.choice([(-1, 0), (0, 0), (10**9, 0), (-10**6, 5)])
        s, u = r.choice(self.all)
        return norm(s, u + r.choice([0, 0, 0, 1, -1, 1000000, -1000000, r.randint(-3000000, 3000000)]))


def scripts(ctx, n, seeks, big=0, load=True):
    r = ctx.rng("tl%d%d" % (seeks, big))
    fam = dict(text=6, wide=2, comb=1, lines=4, goto=2, erase=2, edit=2, sgr=2, save=1, region=1, charset=.5, utf8=.5, osc=.5, junk=.5, reset=.3, size=.4, modes=.5)
    out = []
    for i in range(n):
        g = ttyeng.Gen(r, 10, 4, fam)
        sx, sy = r.choice([(0, 0)] * 1 + [(2, 1), (5, 3), (8, 4), (10, 2)] * 4)
        c, ops = Clock(), []
        pre = g.bytes(r.randint(0, 4)) if sx else b""
        isload = load and r.random() < .4
        k = r.randint(0, 3) if big else r.randint(0, 10)
        if isload:
            start = r.choice([(0, 0), (5, 999999), (1600000000, 5)])
            frames, t, delays = [], start, []
            c.t = start
            c.all = [start]
            for _ in range(k):
                b = b"" if r.random() < .2 else data(r, g, False)
                frames.append((t, b))
                if len(frames) > 1:
                    c.add(d)
                c.mark()
                d = r.choice(DELAYS)
                t2 = norm(t[0] + d[0], t[1] + d[1])
                if t2[0] < 0:
                    d, t2 = (1, 0), (t[0] + 1, t[1])
                t = t2
            ops.append(("load", sx, sy, pre, frames))
        else:
            ops.append(("new", sx, sy, pre))
        m = r.randint(2, 6) if big else r.randint(3, 14)
        for _ in range(m):
            p = r.random()
            if p < .35 and not (isload and big):
                d = None if r.random() < .2 else r.choice(DELAYS)
                b = data(r, g, big and r.random() < .7)
                ops.append(("add", d, b))
                if d:
                    c.add(d)
                c.mark()
            elif p < .75 if seeks else p < .45:
                ops.append(("seek", r.randint(0, 3), None if r.random() < .1 else c.near(r)))
            elif p < .82 and seeks:
                ops.append(("mess", r.randint(0, 3), r.choice(["write", "size", "free"]), g.bytes(r.randint(1, 5)), r.randint(2, 12), r.randint(1, 6)))
            elif p < .9:
                ops.append(("walk", None if r.random() < .1 else c.near(r)))
            else:
                a = None if r.random() < .3 else c.near(r)
                b = None if r.random() < .3 else c.near(r)
                if c.all[0][0] >= 0:
                    ops.append(("save", a, b))
        if seeks:
            for t in r.sample(c.all, min(len(c.all), 3)):
                ops.append(("seek", r.randint(0, 3), t))
        out.append(ops)
    return out


def runner(ctx, exe):
    def intern(tab, x):
        return tab.setdefault(x, len(tab) + 1)

    def run(g):
        cmds, plan, tab = [], [], {0: 0}
        for ops in g:
            mine = []

            def do(cmd, **meta):
                cmds.append(cmd)
                mine.append(meta)
            for o in ops:
                if o[0] == "new":
                    do("N %d %d %s" % (o[1], o[2], o[3].hex()))
                elif o[0] == "load":
                    fr = o[4]
                    f = put(ctx, recfmt_bytes(fr), ".ttyrec")
                    do("L %d %d - %s %s" % (o[1], o[2], f, o[3].hex()) if False else "L %d %d ttyrec %s %s" % (o[1], o[2], f, o[3].hex()),
                       start=T(*fr[0][0]) if fr else [])
                    last, pend = None, []
                    for t, b in fr:
                        if last:
                            pend.append(T(*norm(t[0] - last[0], t[1] - last[1])))
                        last = t
                        if b:
                            do("R - - " + b.hex(), op="A", delays=pend)
                            pend = []
                    if pend:
                        mine.append(dict(wait=pend))
                elif o[0] == "add":
                    do("A %s %s" % (ts(o[1]), o[2].hex()), op="A", delays=[T(*o[1])] if o[1] else [])
                elif o[0] == "seek":
                    do("V %d %s" % (o[1], ts(o[2])), at=T(*o[2]) if o[2] else [])
                elif o[0] == "walk":
                    do("Q " + ts(o[1]), at=T(*o[1]) if o[1] else [])
                elif o[0] == "mess":
                    do({"write": "M %d %s" % (o[1], o[3].hex()), "size": "Z %d %d %d" % (o[1], o[4], o[5]), "free": "F %d" % o[1]}[o[2]])
                elif o[0] == "save":
                    f = ctx.fresh("sel", ".ttyrec")
                    do("W %s %s ttyrec %s" % (ts(o[1]), ts(o[2]), f), a=T(*o[1]) if o[1] else [], b=T(*o[2]) if o[2] else [], file=f)
            do("X")
            plan.append(mine)
        r = vf.run([exe], ("\n".join(cmds) + "\n").encode(), 240, cwd="/")
        if not r.ok:
            raise recfmt.Died(r)
        lines = iter(r.out.decode().splitlines())
        recs = []
        for mine in plan:
            out, extra = [], []
            for m in mine:
                if "wait" in m:
                    extra = m["wait"]       # waits at the end of a loaded file
                    continue
                x = json.loads(next(lines))
                x.update((k, v) for k, v in m.items() if k != "file")
                if x["op"] == "A" and extra:
                    x["delays"] = extra + x["delays"]
                    extra = []
                for k in ("fp", "data"):
                    if k in x:
                        x[k] = intern(tab, x[k])
                if "t" in x:
                    x["t"] = T(*x["t"])
                if x["op"] == "Q":
                    x["fr"] = [[i, T(s, u), n, intern(tab, h)] for i, s, u, n, h in x["fr"]]
                if x["op"] == "W":
                    with open(m["file"], "rb") as f:
                        x["fr"] = [[T(s, u), len(b), intern(tab, fnv(b))] for s, u, b in ttyrec_frames(f.read()) if b]
                    os.unlink(m["file"])
                out.append(x)
            recs.append(out)
        return recs
    return run


def fnv(b):
    h = 7
    for c in b:
        h = (h ^ c) * 1099511628211 & 0xffffffffffffffff
    return h & 0xfffffffffffff


def recfmt_bytes(frames):
    import struct
    return b"".join(struct.pack("<III", t[0], t[1], len(b)) + b for t, b in frames)


def ttyrec_frames(b):
    import struct
    i = 0
    while i + 12 <= len(b):
        s, u, n = struct.unpack("<III", b[i:i + 12])
        yield s, u, b[i + 12:i + 12 + n]
        i += 12 + n


def check(ctx, cases):
    exe = vf.build(ctx, "tldrv", ["tldrv.c"])
    caseeng.validate(ctx, cases, safe(exe, runner(ctx, exe)), "TlTrace", "using a timeline", lambda c: "\n".join(repr(o)[:400] for o in c), weight=5)


def c12(ctx):
    "seeking"
    vf.model(ctx, "MCTimeline")
    check(ctx, scripts(ctx, ctx.pick(2500, 20000), 1) + scripts(ctx, ctx.pick(150, 1000), 1, 1))


def c13(ctx):
    "times, and what is saved"
    vf.model(ctx, "MCTimeline")
    check(ctx, scripts(ctx, ctx.pick(3000, 10000), 0) + scripts(ctx, ctx.pick(15, 100), 0, 1))


CLOCK = "gettimeofday clock_gettime time select pselect poll nanosleep clock_nanosleep usleep sleep".split()    # harness/clock.h


def c29(ctx):
    "time arithmetic"
    vf.model(ctx, "MCTime")
    exe = vf.build(ctx, "tmdrv", ["tmdrv.c"], link=["-Wl," + ",".join("--wrap=" + w for w in CLOCK)])
    r = ctx.rng("time")
    U = [0, 1, 2, 499999, 500000, 500001, 999998, 999999]
    S = [0, 1, 2, 5, 59, 60, 65535, 65536, 1000000000, 2**31 - 1, 2**31, 2**32, 2**32 + 1]
    S += [-x for x in S if x]

    def t(neg=True):
        s = r.choice(S) if r.random() < .6 else r.randint(-10**6, 10**6)
        u = r.choice(U) if r.random() < .6 else r.randint(0, 999999)
        return (s if neg else abs(s), u)
    cases = []
    for a in [(s, u) for s in (0, 1, -1, 2**31) for u in U]:
        for b in [(s, u) for s in (0, 1, -1) for u in U]:
            cases += [("add", a, b), ("sub", a, b), ("cmp", a, b)]
    for _ in range(ctx.pick(3000, 30000)):
        cases.append((r.choice(["add", "sub", "cmp"]), t(), t()))
    for _ in range(ctx.pick(3000, 30000)):
        m = r.choice([1, 2, 3, 7, 125, 250, 333, 500, 999, 1000, 1001, 2000, 4000, 64000, 999999, 1000000, r.randint(1, 1000000)])
        cases.append((r.choice(["mul", "div"]), t(), m))
    for _ in range(ctx.pick(300, 3000)):
        start, clock = t(False), t(False)
        fr, s, c = [], start, clock
        for _ in range(r.randint(1, 6)):
            d = r.choice([(0, 0), (0, 1), (0, 999999), (1, 0), (3, 500000), (0, r.randint(0, 999999)), (-1, 999999), (-2, 0)])
            s = norm(s[0] + d[0], s[1] + d[1])
            # the clock: on time, early, late
            e = r.choice([d, (0, 0), (0, 1), (0, 10), (5, 1), (1, 0), (0, r.randint(0, 999999))])
            c = norm(c[0] + max(0, e[0]), c[1] + e[1])
            fr.append((s, c))
        cases.append(("live", start, clock, fr))
    for _ in range(ctx.pick(200, 2000)):
        c, clk = t(False), []
        for _ in range(r.randint(2, 7)):
            clk.append(c)
            e = r.choice([(0, 0), (0, 1), (0, 999999), (1, 0), (5, 1), (0, r.randint(0, 999999))])
            c = norm(c[0] + e[0], c[1] + e[1])
        cases.append(("play", clk))

    def run(g):
        cmds = []
        f = lambda *a: " ".join("%d %d" % x for x in a)
        for c in g:
            if c[0] in ("add", "sub", "cmp"):
                cmds.append({"add": "+ ", "sub": "- ", "cmp": "? "}[c[0]] + f(c[1], c[2]))
            elif c[0] in ("mul", "div"):
                cmds.append({"mul": "* ", "div": "/ "}[c[0]] + f(c[1]) + " %d" % c[2])
            elif c[0] == "live":
                cmds.append("L " + f(c[1], c[2], *[x for p in c[3] for x in p]))
            else:
                cmds.append("P " + f(*c[1]))
        p = vf.run([exe], ("\n".join(cmds) + "\n").encode(), 120, cwd="/")
        if not p.ok:
            raise recfmt.Died(p)
        lines = iter(p.out.decode().splitlines())
        tm = lambda l: T(*map(int, l.split()))

        def upto():
            out = []
            for l in lines:
                if l == "=":
                    return out
                out.append([] if l == "-" else tm(l))
        recs = []
        for c in g:
            if c[0] == "cmp":
                recs.append(dict(op="cmp", a=T(*c[1]), b=T(*c[2]), r=int(next(lines))))
            elif c[0] in ("add", "sub"):
                recs.append(dict(op=c[0], a=T(*c[1]), b=T(*c[2]), r=tm(next(lines))))
            elif c[0] in ("mul", "div"):
                recs.append(dict(op=c[0], a=T(*c[1]), m=c[2], r=tm(next(lines))))
            elif c[0] == "live":
                o = upto()
                recs.append(dict(op="live", start=T(*c[1]), clock=T(*c[2]), fr=[[T(*a), T(*b), s] for (a, b), s in zip(c[3], o)]))
            else:
                recs.append(dict(op="play", clk=[T(*x) for x in c[1]], got=upto()))
        return recs
    caseeng.validate(ctx, cases, safe(exe, run), "TimeTrace", "arithmetic with times", repr)
