"""C22, C23: termplay."""
import json, os, re, struct
import caseeng, vf, vsched
from vf import CheckError, Violation

TECH = {"C22": "TLA+ model of the loader/player handshake checked by TLC under all interleavings; the real termplay under a controlled scheduler and clock, its runs validated by TLC against Player.tla",
        "C23": "TLA+ model of playback (Player.tla), checked by TLC; runs of the real termplay under a virtual clock validated by TLC against it"}

KEYS = dict(space=["20"], left=["1b5b44", "1b4f44", "1b4f74"], right=["1b5b43", "1b4f43", "1b4f76"],
            down=["1b5b42", "1b4f42", "1b4f72"], up=["1b5b41", "1b4f41", "1b4f78"],
            pgdn=["1b5b367e", "1b4f73"], pgup=["1b5b357e", "1b4f79"], one=["31"], slow=["73", "53", "2d"],
            fast=["66", "46", "2b"], rewind=["72", "52"], enter=["0a", "0d", "1b4f4d"],
            other=["78", "1b5b5a", "1b5b31317e", "1b5b5b41", "00", "1b4f51"])
NAMES = {h: k for k, v in KEYS.items() for h in v}
U = 100         # us


def build(ctx):
    own = {os.path.basename(f): vf.ACCESSES for f in vf.repo_sources("play") + ["timeline.c"]}
    own["termplay.c"] = own["termplay.c"] + ["-Dmain=termplay_main"]
    return vf.build(ctx, "plydrv", ["plydrv.c", "vsched.c", "accesses.c"], repo=vf.repo_sources(*vf.LIBDIRS, "play", "common"), defs=own,
                    link=vsched.link(*"open open64 ioctl isatty _exit malloc calloc free".split()))


def text(r, k, w, h):
    "what frame k writes: it always ends with a screen no other has"
    out = ""
    for _ in range(r.choice([0, 1, 1, 2, 5])):
        out += r.choice(["\x1b[%d;%dH" % (r.randint(1, h), r.randint(1, w)), "\x1b[%dm" % r.choice([0, 1, 7, 31, 42, 95]),
                         "\x1b[2J", "\x1b[K", "\r\n" * r.randint(1, 4), "hello", "\u4e2d\u6587", "e\u0301", "\x1b[38;5;77mx", "\x1b[44m\x1b[J",
                         "".join(chr(r.randint(33, 126)) for _ in range(r.randint(1, 60)))])
    if r.random() < .1:
        out += "".join(chr(r.randint(33, 126)) for _ in range(r.choice([1500, 5000, 20000, 30000])))
    return (out + "\x1b[HFrame %d\x1b[m" % k).encode()


class Scn:
    "a recording, its arrival and the keys"
    def __init__(self, ctx, r, n=None, keys=None, still=False, kind="", end=False):
        self.w, self.h = r.choice([(40, 10), (80, 25), (20, 5), (100, 30)])
        n = r.choice([1, 2, 3, 4, 6, 9]) if n is None else n
        long = kind == "long"       # enough of it to seek far
        if long:
            n = r.randint(60, 300)
        self.d = [0] + [r.choice([0, 1, 100, 1000, 5000, 5000, 10000, 10000, 20000, 30000, 49999, 60000, 700000, r.randint(0, 30000)]) for _ in range(n - 1)]
        self.d = self.d[:n]
        if long:
            self.d = [0] + [r.choice([50000, 50000, 60000, 49000, r.randint(0, 50000)]) for _ in range(n - 1)]
        frames = [text(r, k + 1, self.w, self.h) for k in range(n)] if not long else [
            b"\x1b[%d;%dH%s\x1b[HFrame %d\x1b[m" % (r.randint(2, self.h), r.randint(1, self.w), r.choice([b"", b"x", b"\x1b[31my", b"\r\n" * 3]), k + 1) for k in range(n)]
        race = kind == "race"       # all at one moment, each piece by itself
        if race:
            self.d = [0] * n
            kind = ""
        self.fmt = "ttyrec" if r.random() < .7 or race else "asciicast"
        b, self.ends, self.whole = b"", [], []
        if self.fmt == "ttyrec":
            t = r.choice([0, 1000, 1600000000]) * 10000 + r.randint(0, 9999)
            for d, x in zip(self.d, frames):
                t += d
                b += struct.pack("<III", t // 10000, t % 10000 * U, len(x))
                self.ends.append((len(b), len(b) + len(x)))
                b += x
                self.whole.append(len(b))
            self.raw, self.file = b, b
        else:
            if n and r.random() < .4:
                self.d[0] = r.choice([1000, 15000, 30000])
            # the texts go first, for the driver to make its screens
            f = json.dumps(dict(version=2, width=self.w, height=self.h)).encode() + b"\n"
            t = 0
            for d, x in zip(self.d, frames):
                t += d
                f += ("[%d.%04d, \"o\", %s]\n" % (t // 10000, t % 10000, json.dumps(x.decode()))).encode()
                self.whole.append(len(f))
            for x in frames:
                self.ends.append((len(f) + len(b), len(f) + len(b) + len(x)))
                b += x
            self.file = f
            self.raw = f + b
        self.play = ctx.fresh("rec", "." + self.fmt)
        open(self.play, "wb").write(self.raw)
        # arrival
        L = len(self.file)
        if race:
            at = [0] + [w for w in self.whole if w < L] + [L]
            t = r.choice([0, 1000])
            self.feed = [(t, b - a) for a, b in zip(at, at[1:])]
        elif r.random() < (.6 if keys else .4) or kind:
            self.feed = [(0, L)]
        else:
            cuts = set()
            for _ in range(r.randint(1, 5)):
                c = r.choice(self.whole) + r.choice([0, 0, 0, 5, -3, 20]) if self.whole else 0
                if r.random() < .2:
                    c = r.randint(0, L)
                # the end of a line of an asciicast may be taken in or not
                if 0 < c < L and not any(e - 2 <= c < e for e in self.whole):
                    cuts.add(c)
            t, at, self.feed = 0, 0, []
            for c in sorted(cuts) + [L]:
                self.feed.append((t, c - at))
                at = c
                t += r.choice([0, 1, 300, 700, 1500, 1500, 4000, 8000, r.randint(1, 5000)]) * 1000
        t = self.feed[-1][0]
        self.feed.append((0, -1) if kind else (t if end else r.choice([10**12] if race else [t, t, t + 1000000, t + 3000000, 10**12]), -1))
        # keys
        self.keys, t = [], 1000 if long else 0
        kinds = keys or []
        if keys is None and not still:
            pool = ["space"] * 4 + ["left", "right", "enter"] * 3 + ["fast", "slow", "rewind"] * 2 + ["one", "down", "up", "pgdn", "pgup", "other"]
            kinds = [r.choice(pool) for _ in range(r.randint(0, 12))]
        if long:
            kinds = [r.choice(["pgup", "pgdn", "up", "down", "left", "right"] * 3 + ["space", "enter", "rewind", "fast", "fast"]) for _ in range(r.randint(2, 9))]
        if kind == "speed":         # as far as it goes
            kinds = ["space"] * r.randint(0, 1)
            for _ in range(r.randint(1, 3)):
                k = r.choice(["slow", "fast"])
                kinds += [k] * r.choice([1, 3, 9, 10, 11, 12]) + ["one"] * r.randint(0, 1)
            kinds += ["space"] * r.randint(0, 1)
        for k in kinds:
            if race:
                t = self.feed[0][0]
            elif kind == "speed" and len(self.keys) and r.random() < .9:
                t += r.choice([0, 0, 1000])
            else:
                t += r.choice([0, 0, 1, 100, 500, 1000, 1000, 3000, r.randint(1, 4000), r.randint(1, 12000)]) * 1000
            self.keys.append((t, r.choice(KEYS[k])))
        self.last = t + r.choice([0, 1, 1000, 5000, 20000, 60000 if not keys else 3000]) * 1000
        if kind == "speed":
            self.last += r.choice([0, 10**6, 10**9, 10**10])
        self.quit = r.choice(["71", "51", ""])
        self.speed = r.choice(["", "", "", "2", "0.5", "1", "10", "0.1", "1000", "0.25"]) if r.random() < .5 else ""
        self.args = ("-s " + self.speed + " " if self.speed else "") + r.choice(["-f " + self.fmt, ""])

    def line(self, mode):
        return "|".join([mode, self.play, "%d %d" % (self.w, self.h), " ".join("%d %d" % e for e in self.ends),
                         " ".join("%d:%d" % f for f in self.feed),
                         " ".join("%d:%s" % k for k in self.keys + [(self.last, self.quit)]), self.args])

    def events(self, log, status):
        ev, got, seq = [], 0, ""
        for x in log:
            a = x.split()
            if a[0] == "?":
                continue
            t = int(a[1]) // U if len(a) > 1 and a[0] in ("arr", "key", "leave", "gone") else 0
            if a[0] == "arr":
                got += int(a[2])
                ev.append(["eof", t] if a[2] == "0" else ["arr", t, sum(w <= got for w in self.whole)])
            elif a[0] == "key":
                c = int(a[2])
                if c < 0:
                    continue
                seq += "%02x" % c
                if seq in NAMES:
                    ev.append(["key", t, NAMES[seq]])
                    seq = ""
                elif seq in ("71", "51"):
                    seq = ""
            elif a[0] == "leave":
                ev.append(["leave", t, int(a[2]), int(a[3])])
            elif a[0] == "gone":
                ev.append(["gone", t, int(a[2]), shown(a)])
            else:
                ev.append(["odd", 0, x])
        if status or not ev or ev[-1][0] != "gone":
            ev.append(["odd", 0, "status %d" % status])
        return dict(d=self.d, speed=int(float(self.speed or 1) * 1000), ev=ev)

    def show(self, mode):
        return "%d frames of %s, delays %s, arriving %s, keys %s then %r at %d, %s; schedule %s" % (
            len(self.d), self.fmt, self.d, self.feed, [(t, NAMES[k]) for t, k in self.keys], self.quit, self.last, self.args, mode)


def shown(a):
    return int(a[3])


def drive(ctx, exe, lines):
    p = vf.run([exe], ("\n".join(lines) + "\n").encode(), timeout=120 + len(lines))
    if p.hung or p.rc:
        raise CheckError("termplay driver: " + p.why())
    out, log = [], []
    for x in p.out.decode("latin1").split("\n"):
        if x.startswith("= "):
            out.append((log, int(x[2:]), p.err))
            log = []
        elif x:
            log.append(x)
    if len(out) != len(lines):
        raise CheckError("termplay driver: %d of %d answers" % (len(out), len(lines)))
    return out


def modes(r, n):
    out = ["list "]
    for _ in range(n):
        k = r.choice(["rand", "rand", "prio"])
        out.append("%s%s%s %d %d" % (r.choice(["", "", "y ", "a1000 ", "a200 ", "a20 "]), "s 50 " if r.random() < .2 else "", k, r.getrandbits(30),
                                     r.choice([50, 200, 500, 900]) if k == "rand" else r.choice([0, 1, 2, 3, 5, 8])))
    return out


def explore(ctx, exe, jobs, searches):
    """runs (scenario, schedules), and searches (scenario, where it can switch,
    bound, limit) through all schedules with few preemptions; -> distinct
    outcomes"""
    seen, runs = {}, 0

    def go(job):
        s, modes = job
        return drive(ctx, exe, [s.line(m) for m in modes])

    def note(s, m, log, st):
        nonlocal runs
        runs += 1
        o = s.events(log, st)
        seen.setdefault((id(s), repr(o)), (o, s, m))

    for (s, modes), out in zip(jobs, vf.parallel(go, jobs)):
        for m, (log, st, err) in zip(modes, out):
            note(s, m, log, st)
    S = [(s, pre, vsched.Search(bound, limit, ctx.rng("b%d" % i))) for i, (s, pre, bound, limit) in enumerate(searches)]
    while True:
        jobs, back = [], []
        for s, pre, q in S:
            while True:
                g = q.give(40)
                if not g:
                    break
                jobs.append((s, [pre + "list " + " ".join(map(str, p)) for _, p in g]))
                back.append((q, g))
                if len(g) < 40 or len(jobs) >= 64:
                    break
        if not jobs:
            break
        for (q, g), (s, modes), out in zip(back, jobs, vf.parallel(go, jobs)):
            for (b, pre), m, (log, st, err) in zip(g, modes, out):
                q.took(b, pre, vsched.points(log))
                note(s, m, log, st)
    ctx.count(schedules=runs, searches=len(S), searches_exhausted=sum(not q.cut for _, _, q in S))
    return list(seen.values())


def judge(ctx, exe, cases, what):
    first = {id(c): 1 for c in cases}

    def run(g):
        out = []
        for c in g:
            o, s, m = c
            if not first.pop(id(c), 0):     # asked again
                log, st, err = drive(ctx, exe, [s.line(m)])[0]
                o = s.events(log, st)
            out.append(o)
        return out
    caseeng.validate(ctx, cases, run, "PlyTrace", what, show=lambda c: c[1].show(c[2]), weight=4)


def handshake(ctx):
    "the model holds, and none of its parts can be left out"
    vf.model(ctx, "MCHand")
    if ctx.thorough:
        vf.model(ctx, "MCHand", "MCHand5.cfg", timeout=1200)
    for v in "NoWake", "NoRecheck", "KeepLock":
        t = vf.tlc(ctx, "MCHand", "MCHand%s.cfg" % v)
        if t.completed or "violated" not in t.out:
            raise CheckError("MCHand doesn't notice %s:\n%s" % (v, t.out[-2000:]))


def c22(ctx):
    handshake(ctx)
    exe = build(ctx)
    r = ctx.rng("c22")
    jobs = [(Scn(ctx, r, still=r.random() < .3), modes(r, ctx.pick(14, 60))) for _ in range(ctx.pick(60, 800))]
    small, race = [], []
    for n, k in [(1, []), (2, []), (2, ["space", "space"]), (3, ["left"]), (2, ["space", "enter"]), (2, ["fast"]), (3, ["space", "rewind", "space"])]:
        small += [(Scn(ctx, r, n=n, keys=k), "", 2, ctx.pick(150, 3000)) for _ in range(ctx.pick(1, 4))]
    for n, k, end in [(1, [], True), (1, [], False), (2, [], False), (2, ["space", "space"], False), (1, ["left"], True)]:
        race += [(Scn(ctx, r, n=n, keys=k, kind="race", still=True, end=end), "a1000 ", 2, ctx.pick(6000, 30000)) for _ in range(ctx.pick(1, 3))]
    cases = explore(ctx, exe, jobs, small + race)
    judge(ctx, exe, cases, "termplay while loading")


def c23(ctx):
    vf.model(ctx, "MCPlayer")
    if ctx.thorough:
        vf.model(ctx, "MCPlayer", "MCPlayer3.cfg", workers=8, heap="12g", timeout=1500)
    exe = build(ctx)
    r = ctx.rng("c23")
    scns = [Scn(ctx, r) for _ in range(ctx.pick(350, 6000))] + \
        [Scn(ctx, r, kind=k) for k in ("long", "speed") for _ in range(ctx.pick(100, 1500))]
    cases = explore(ctx, exe, [(s, modes(r, 1)) for s in scns], [])
    judge(ctx, exe, cases, "playback under the keyboard")
