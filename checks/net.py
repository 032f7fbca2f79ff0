"""C24, C25: streams from the network."""
import caseeng, vf, vsched
from vf import CheckError, Violation

TECH = {"C24": "TLA+ model of the receiving end of telnet, model checked against a server's meaning by TLC; the real code gets generated streams in generated packets and schedules, TLC validates what it passed on and answered",
        "C25": "TLA+ model of a termcast watcher, model checked by TLC; the real code gets generated menus in generated packets and schedules, TLC validates what it passed on and the keys it pressed"}

SEC = 1000000


def build(ctx, accesses):
    import os
    return vf.build(ctx, "netdrv" + "a" * accesses, ["netdrv.c", "vsched.c", "accesses.c"],
                    link=vsched.link("socket", "connect", "getaddrinfo", "freeaddrinfo"),
                    defs={os.path.basename(f): vf.ACCESSES for f in vf.repo_sources("libstream")} if accesses else None)


def drive(exe, lines):
    p = vf.run([exe], ("\n".join(lines) + "\n").encode("latin1"), timeout=600)
    if p.hung or p.rc:
        raise CheckError("network driver: " + p.why())
    out, log = [], []
    for x in p.out.decode("latin1").split("\n"):
        if x.startswith("= "):
            out.append((log, int(x[2:]), p.err))
            log = []
        elif x:
            log.append(x)
    if len(out) != len(lines):
        raise CheckError("network driver: %d of %d answers" % (len(out), len(lines)))
    return out


def line(c):
    chunks = ["%d:%s" % (t, b.hex()) for t, b in c["chunks"]] + ["%d:E" % c["end"]]
    url = {"tcp": "tcp://host:23", "telnet": "telnet://host", "termcast": "termcast://host/" + c["name"]}[c["kind"]]
    return "%s|%s|%d|%s" % (c["mode"], url, c["rs"], " ".join(chunks))


def record(c, log, status):
    ev, prev = [], 0
    for x in log:
        w = x.split(" ")
        if w[0] in ("leave", "end"):
            t = int(w[1])
            d, s = w[2].split(".")
            b = b"".join(y for at, y in c["chunks"] if prev < at <= t)
            prev = t
            gone = w[0] == "end" and any(at == c["end"] for at, y in c["chunks"])
            ev.append([w[0], list(b), list(bytes.fromhex(d)), list(bytes.fromhex(s)), gone])
        elif w[0] in ("fail", "deadlock", "livelock"):
            ev.append([w[0], [], [], [], False])
    if status or not log or ev[-1][0] != "end":
        ev.append(["status %d" % status, [], [], [], False])
    elif prev < c["end"]:
        ev.append(["early", [], [], [], False])
    return dict(kind=c["kind"], name=list(c["name"].encode("latin1")), ev=ev)


def go(exes, g):
    out = []
    for acc in 0, 1:
        k = [i for i, c in enumerate(g) if c["mode"].startswith("a") == bool(acc)]
        if k:
            for i, (log, st, err) in zip(k, drive(exes[acc], [line(g[i]) for i in k])):
                if st == 99:
                    raise Violation("memory error in a network stream", text="%s\n%s" % (line(g[i]), err[-4000:]))
                out.append((i, record(g[i], log, st)))
    return [x for i, x in sorted(out, key=lambda y: y[0])]


def split(r, b, marks=()):
    "packets of bytes, at times; marks: where it is worth to split"
    how = r.choice(["one", "bytes", "few", "few", "marks", "marks"])
    if how == "one" or len(b) < 2:
        cuts = []
    elif how == "bytes":
        a = r.randrange(len(b))
        cuts = list(range(a, min(len(b), a + 80)))
    elif how == "few":
        cuts = [r.randrange(1, len(b)) for _ in range(r.randint(1, 6))]
    else:
        cuts = [r.choice(marks) + r.randint(-3, 3) for _ in range(r.randint(1, 5))] if marks else []
    cuts = [0] + sorted({c for c in cuts if 0 < c < len(b)}) + [len(b)]
    t, out = 1000, []
    same = r.random() < .3
    for p, q in zip(cuts, cuts[1:]):
        if q > p:
            out.append((t, b[p:q]))
        if not same or r.random() < .3:
            t += r.choice([1, 1000, SEC, 60 * SEC])
    end = t if out and out[-1][0] == t or r.random() < .3 and out and t else t
    if out and end <= out[-1][0]:
        end = out[-1][0] + (0 if r.random() < .4 else 1000)
    return out, end


def mode(r):
    m = {"rand": lambda: "rand %d %d" % (r.getrandbits(30), r.choice([0, 100, 500])),
         "prio": lambda: "prio %d %d" % (r.getrandbits(30), r.choice([0, 1, 3]))}[r.choice(["rand", "prio"])]()
    return ("a%d " % r.choice([10, 1000]) if r.random() < .1 else "") + m


def telnet_stream(r, size):
    out, marks = bytearray(), []
    while len(out) < size:
        k = r.random()
        marks.append(len(out))
        if k < .35:
            out += r.choice([b"text", b"\x1b[31m", bytes([r.randrange(255)]), r.randbytes(r.randint(1, 40)).replace(b"\xff", b"\xff\xff"), b"\r\n", b"\0\r\0"])
        elif k < .5:
            out += b"\xff\xff" * r.choice([1, 1, 2, 3])
        elif k < .75:
            out += bytes([255, r.randint(251, 254), r.choice([1, 1, 3, 3, 0, 5, 24, 31, r.randrange(255)])])
        elif k < .87:
            d = r.randbytes(r.choice([0, 1, 5, 30, 60]))
            if r.random() < .5:
                d = d[:10].replace(b"a", b"\xff").replace(b"b", b"\xf0") + r.choice([b"", b"\xff", b"\xf0", b"\xff\xf0", b"\xff\xfd\x01"])
            out += bytes([255, 250, r.choice([0, 1, 24, 240, r.randrange(255)])]) + d.replace(b"\xff", b"\xff\xff")[:60] + (b"" if d.replace(b"\xff", b"\xff\xff")[:60].count(b"\xff") % 2 == 0 else b"\xff") + b"\xff\xf0"
        else:
            out += bytes([255, r.randint(236, 249)])
    return bytes(out), marks


def c24(ctx):
    vf.model(ctx, "MCTelnet")
    if ctx.thorough:
        vf.model(ctx, "MCTelnet", "MCTelnet4.cfg", timeout=900, heap="8g")
    exes = [build(ctx, False), build(ctx, True)]
    r = ctx.rng("c24")
    cases = []
    for i in range(ctx.pick(1500, 40000)):
        big = r.random() < .02
        b, marks = telnet_stream(r, r.choice([8000, 8190, 17000]) if big else r.choice([0, 3, 10, 50, 200]))
        if big:             # something about where a buffer ends
            k = r.choice([8192, 8192, 16384]) - r.randint(0, 6)
            if k < len(b):
                b = b[:k].replace(b"\xff", b"x") + b"\xff\xff\xff\xfb\x01ab" + b[k:].replace(b"\xff", b"y")
                marks += [8192, 16384, k]
        if r.random() < .1 and not big:     # that ends in the middle of something
            b = b[:r.randint(0, len(b))]
        ch, end = split(r, b, marks)
        cases.append(dict(kind="tcp" if r.random() < .04 else "telnet", name="", chunks=ch, end=end, rs=r.choice([1, 10, 4096, 10000]) if len(b) < 1000 else 4096, mode=mode(r)))
    caseeng.validate(ctx, cases, lambda g: go(exes, g), "NetTrace", "a telnet connection", show=line)
    ctx.count(connections=len(cases))


# ------------------------------------------------------------------ C25

def colour(r):
    return b"" if r.random() < .6 else r.choice([b"\x1b[m", b"\x1b[0m", b"\x1b[31m", b"\x1b[1;33m", b"\x1b[38;5;208m", b"\x1b[0;1;37;44m"])


def menu(r, name, present, nl):
    "a menu, with or without the session asked for"
    name = name.encode("latin1")
    out, marks = bytearray(b"\x1b[2J\x1b[H ## Watchable sessions:\r\n"), []
    others = [name + b"x", name + b"2", name[:-1] or b"q", b"x" + name, name.swapcase(), name + b"-" + name, b"other", b"rodney", b"", name + b" b", name + b"\x1b[1m", b"a" * r.choice([30, 200])]
    rows = [r.choice(others) for _ in range(nl)]
    if present:
        for _ in range(r.choice([1, 1, 1, 2])):
            rows.insert(r.randint(0, len(rows)), None)
    for i, n in enumerate(rows):
        marks.append(len(out))
        key = bytes([r.choice(b"abcdefghijklmnopqrstuvwxyzABCXYZ017")])
        mine = n is None
        n = name if mine else n
        if not mine and n == name:
            n = b"_"
        marks.append(len(out) + 12 + len(n))
        what = "" if mine or r.random() < .7 else r.choice(["paren", "space", "nocol", "nokey", "cr", "lf", "nul", "bell", "half"])
        if what and r.random() < .7:
            n = name
        out += b"\r\n\x1b[%dd" % (i + 3) if what not in ("cr", "lf") else b"\n\x1b[%dd" % (i + 3) if what == "cr" else b"\r\x1b[%dd" % (i + 3)
        out += r.choice([b" ", b" ", b""]) if what != "nocol" else b" \x1b[1K"
        if what == "nocol":
            out += b"   "
        out += (key if what != "nokey" else b"") + b")" + (b" " if what != "space" else b"")
        out += colour(r) + n + colour(r)
        if what == "half":
            continue
        out += b" " if what != "bell" else b"\x07"
        out += colour(r) + (b"(" if what != "paren" else b"[") + b"idle %ds, connected %dm, 80x24)" % (r.randrange(90), r.randrange(90))
        if r.random() < .05:
            out += r.choice([b"\0", b"\0" * 70, b"\r", b"\r\r\n", b"\r\n", b"\xff\xff"])
    out += b"\r\n\x1b[%dd Watch which session? ('q' quits) " % (len(rows) + 5)
    return bytes(out), marks


NAMES = ["kilobyte", "a", "bob", "aa", "x(y", "na.me", "n me", "d", "user\xe9", "0", "m", "abcdefgh" * 20, "aab", "1) a", "[m"]


def c25(ctx):
    vf.model(ctx, "MCTermcast")
    if ctx.thorough:
        vf.model(ctx, "MCTermcast", "MCTermcast3.cfg", timeout=900, heap="8g")
    exes = [build(ctx, False), build(ctx, True)]
    r = ctx.rng("c25")
    cases = []
    for i in range(ctx.pick(1200, 30000)):
        name = r.choice(NAMES)
        b, marks = b"", []
        if r.random() < .3:
            b += telnet_stream(r, 30)[0]
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            k = r.random()
            if k < .08:
                n = r.choice([100, 4000, 4090, 8180, 8192, 9000])
                marks += [len(b), len(b) + n]
                b += bytes([r.choice(b"\nx \0\r")]) * n if r.random() < .7 else (b"x" * 50 + b"\r") * (n // 51)
            m, mk = menu(r, name, r.random() < .5, r.choice([0, 1, 2, 5, 14]) if k > .03 else 60)
            marks += [len(b) + x for x in mk]
            b += m
            if r.random() < .3:
                b += telnet_stream(r, 20)[0]
        if r.random() < .3:         # what is seen of the session
            b += r.choice([b"Hello\r\n", b"\xff\xfb\x01", b"x" * 9000, menu(r, name, True, 3)[0]])
        if r.random() < .15:
            b = b[:r.randint(0, len(b))]
        ch, end = split(r, b, marks)
        cases.append(dict(kind="termcast", name=name, chunks=ch, end=end, rs=r.choice([1, 10, 4096, 10000]) if len(b) < 500 else 4096, mode=mode(r)))
    caseeng.validate(ctx, cases, lambda g: go(exes, g), "NetTrace", "a termcast connection", show=line)
    ctx.count(connections=len(cases))
