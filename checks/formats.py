"""C14..C18: the formats recordings are kept in."""
import os
import caseeng, castfmt, recfmt, vf
from caseeng import T

TECH = {p: "TLA+ specification of the file format and of what a player may show; TLC validates recorded runs of the real readers and writers"
        for p in ("C14", "C15", "C16", "C17", "C18")}


def put(ctx, data, ext=""):
    p = ctx.fresh("f", ext)
    with open(p, "wb") as f:
        f.write(data)
    return p


def safe(exe, cmds_of):
    """run() for caseeng: a batch; if the driver dies, one by one."""
    def run(g):
        try:
            return cmds_of(g)
        except recfmt.Died as e:
            if len(g) > 1:
                for c in g:
                    run([c])
            raise vf.Violation("the library fails: %s" % e, text="%r\n\n%s" % (g[0], e.r.err[-3000:]))
    return run


def sizes(r, big):
    "the length of a frame: mostly small, around the block size, or large"
    k = r.random()
    if k < .6:
        return r.randint(1, 60)
    if k < .7:
        return 0
    if k < .9 or not big:
        return r.choice([32767, 32768, 32769, 32756, 32755, 32757, 65535, 65536, 65537, 98304]) + r.choice([0, 0, -1, 1, -12, 12])
    return r.randint(1, 200000)


def times(r):
    "absolute times, sometimes going back"
    s = r.choice([0, 1, 1000000000, 1234567890, 2**31 - 2, 2**31, 2**32 - 5])
    u = r.choice([0, 1, 500000, 999999, r.randint(0, 999999)])
    while True:
        yield min(s, 2**32 - 1), u
        k = r.random()
        if k < .15:
            pass
        elif k < .5:
            u += r.choice([1, 999999, 500000, r.randint(0, 999999)])
        elif k < .9:
            s += r.choice([0, 1, 2, 5, 1000, 70000])
            u = r.randint(0, 999999)
        elif s > 0:
            s -= min(s, r.choice([1, 3]))
            u = r.choice([0, 999999, r.randint(0, 999999)])
        s, u = s + u // 1000000, u % 1000000


def c14(ctx):
    "ttyrec"
    exe = recfmt.build(ctx)
    r = ctx.rng("ttyrec")
    cases = []
    for i in range(ctx.pick(900, 9000)):
        tm, tok = times(r), []
        big = i % 6 == 0
        for _ in range(r.randint(0, 8)):
            n = sizes(r, big) if big else r.choice([0, 1, 2, r.randint(1, 50)])
            tok.append(("h",) + next(tm) + (n,))
            if n:
                tok.append(("x", n))
        total = sum(12 if t[0] == "h" else t[1] for t in tok)
        k = r.random()
        cutat = None
        if k < .55 and total:
            # anywhere, but mostly close to where something ends
            ends, at = [0], 0
            for t in tok:
                at += 12 if t[0] == "h" else t[1]
                ends.append(at)
            c = r.choice(ends) + r.choice([-13, -12, -11, -1, 0, 1, 5, 11, 12, 13, 32768, -32768])
            cutat = min(total, max(0, c if r.random() < .7 else r.randint(0, total)))
        cases.append((tok, cutat, r.random() < .2))
    # every cut of a small recording
    for tok in ([("h", 5, 999999, 3), ("x", 3), ("h", 6, 0, 0), ("h", 6, 1, 5), ("x", 5), ("h", 7, 0, 1), ("x", 1)],
                [("h", 1, 2, 1), ("x", 1)]):
        for c in range(0, sum(12 if t[0] == "h" else t[1] for t in tok) + 1):
            cases.append((tok, c, False))
    # headers that lie about the length
    for n in (2**31 - 1, 2**31, 2**32 - 1, 100000):
        cases.append(([("h", 1, 0, 2), ("x", 2), ("h", 2, 0, n), ("x", 40000)], None, False))

    def play(g):
        files = [put(ctx, recfmt.ttyrec_bytes(t, c)) for t, c, pipe in g]
        lines = []
        for f, (t, c, pipe) in zip(files, g):
            n = os.path.getsize(f)
            lines.append("P ttyrec " + f if not pipe else
                         "F ttyrec %s %s" % (f, " ".join(str(x) for x in chop(n, ctx.rng("p%d" % n)))))
        out = recfmt.split(recfmt.run(exe, lines))
        recs = []
        for f, (ev, res) in zip(files, out):
            with open(f, "rb") as b:
                recs.append(dict(op="play", fmt="ttyrec", tok=recfmt.ttyrec_tokens(b.read()), ev=recfmt.events(ev), res=res))
            os.unlink(f)
        return recs
    show = lambda c: "ttyrec of %r, cut off at %s%s" % (c[0], c[1], " (from a pipe)" if c[2] else "")
    caseeng.validate(ctx, cases, safe(exe, play), "FmtTrace", "playing a ttyrec", show)

    # and what the recorder writes
    cases = []
    for i in range(ctx.pick(500, 5000)):
        tm, fr = times(r), []
        for _ in range(r.randint(0, 7)):
            s, u = next(tm)
            fr.append((s, u, sizes(r, True) if i % 8 == 0 else r.choice([0, 1, r.randint(1, 50)])))
        cases.append(fr)

    def rec(g):
        lines, files = [], []
        for fr in g:
            f = ctx.fresh("w", ".ttyrec")
            files.append(f)
            lines.append("R ttyrec %s %s" % (f, "%d %d" % fr[0][:2] if fr else "- -"))
            at = 0
            for s, u, n in fr:
                lines.append("f %d %d %s" % (s, u, recfmt.cut(at, n).hex()))
                at += n
            lines.append(".")
        out = recfmt.split(recfmt.run(exe, lines))
        recs = []
        for f, fr, (_, res) in zip(files, g, out):
            with open(f, "rb") as b:
                recs.append(dict(op="rec", fmt="ttyrec", frames=[dict(t=T(s, u), n=n) for s, u, n in fr],
                                 tok=recfmt.ttyrec_tokens(b.read()), res=res))
            os.unlink(f)
        return recs
    caseeng.validate(ctx, cases, safe(exe, rec), "FmtTrace", "writing a ttyrec", lambda c: "frames %r" % (c,))


def chop(n, r):
    "sizes that add up to at least n"
    out = []
    while n > 0:
        k = r.choice([1, 2, 3, 5, 11, 12, 13, 100, 4096, 5000, 32768, 60000])
        if n > 2000:
            k = max(k, n // 12)
        out.append(k)
        n -= k
    return out


def c16(ctx):
    "nh_recorder"
    exe = recfmt.build(ctx)
    r = ctx.rng("nh")
    B = 32768
    cases = []

    def tokens(limit, first=None):
        tok, t, n, last = [], 0, 0, None
        while n < limit:
            if last != "x" and r.random() < .7 or first:
                k = first or r.choice([1, 1, 2, 3, 4, 5, 6, 40, r.randint(1, 300)])
                first = None
                tok.append(("x", k))
                n += k
                last = "x"
            else:
                t += r.choice([0, 1, 99, 100, 101, 255, 256, 65536, r.randint(0, 1000)])
                tok.append(("z", t))
                n += 5
                last = "z"
        return tok
    for _ in range(ctx.pick(300, 3000)):
        cases.append((tokens(r.randint(0, 60)), None))
    for _ in range(ctx.pick(300, 2500)):
        tok = tokens(r.randint(1, 60))
        cases.append((tok, r.randint(0, len(recfmt.nh_bytes(tok)))))
    # stamps across the ends of the reader's blocks, at every offset
    for blocks in (1, 2, 3):
        for off in range(-8, 9):
            for pre in ([], [("z", 7)]):
                lead = blocks * B + off - 5 * len(pre)
                for tail in ([("z", 256)], [("z", 256), ("x", 3), ("z", 300), ("x", 2)], [("z", 0x01010101), ("z", 0x01020304), ("x", 9)],
                             [("z", 12), ("x", B), ("z", 13), ("x", 1)]):
                    tok = pre + [("x", lead)] + tail
                    cases.append((tok, None))
                    if blocks == 1:
                        n = len(recfmt.nh_bytes(tok))
                        cases.append((tok, n - r.randint(0, 8)))
    for _ in range(ctx.pick(60, 600)):
        # long runs of stamps and short pieces, over several blocks
        tok = tokens(r.randint(B, 3 * B), r.randint(1, B))
        cases.append((tok, None))

    def play(g):
        files = [put(ctx, recfmt.nh_bytes(t)[:c]) for t, c in g]
        out = recfmt.split(recfmt.run(exe, ["P nh_recorder " + f for f in files]))
        recs = []
        for f, (ev, res) in zip(files, out):
            with open(f, "rb") as b:
                recs.append(dict(op="play", fmt="nh_recorder", tok=recfmt.nh_tokens(b.read()), ev=recfmt.events(ev), res=res))
            os.unlink(f)
        return recs
    caseeng.validate(ctx, cases, safe(exe, play), "FmtTrace", "playing nh_recorder", lambda c: "tokens %r, cut off at %s" % (c[0][:50], c[1]))

    cases = []
    for i in range(ctx.pick(500, 5000)):
        fr, s, u = [], r.choice([0, 5, 1000000000]), r.choice([0, 5000, 999999, r.randint(0, 999999)])
        start = None if s == 0 else (s, u)
        if start is None:
            u = 0
        for _ in range(r.randint(0, 7)):
            fr.append((s, u, sizes(r, True) if i % 8 == 0 else r.choice([0, 1, r.randint(1, 50)])))
            u += r.choice([0, 1, 9999, 10000, 10001, 999999, r.randint(0, 3000000)])
            s, u = s + u // 1000000, u % 1000000
            s += r.choice([0, 0, 1, 100])
        cases.append((start, fr))

    def rec(g):
        lines, files = [], []
        for start, fr in g:
            f = ctx.fresh("w", ".nh")
            files.append(f)
            lines.append("R nh_recorder %s %s" % (f, "%d %d" % start if start else "- -"))
            at = 0
            for s, u, n in fr:
                lines.append("f %d %d %s" % (s, u, recfmt.cut(at, n).hex()))
                at += n
            lines.append(".")
        out = recfmt.split(recfmt.run(exe, lines))
        recs = []
        for f, (start, fr), (_, res) in zip(files, g, out):
            with open(f, "rb") as b:
                recs.append(dict(op="rec", fmt="nh_recorder", start=T(*(start or (0, 0))),
                                 frames=[dict(t=T(s, u), n=n) for s, u, n in fr], tok=recfmt.nh_tokens(b.read()), res=res))
            os.unlink(f)
        return recs
    caseeng.validate(ctx, cases, safe(exe, rec), "FmtTrace", "writing nh_recorder", lambda c: "start %r, frames %r" % c)


def cast_play(ctx, exe, cases, what):
    "cases: (file, pipe)"
    def play(g):
        files = [put(ctx, c[0]) for c in g]
        lines = ["P asciicast " + f if not c[1] else
                 "F asciicast %s %s" % (f, " ".join(map(str, chop(len(c[0]), ctx.rng("p%d" % len(c[0]))))))
                 for f, c in zip(files, g)]
        out = recfmt.split(recfmt.run(exe, lines))
        for f in files:
            os.unlink(f)
        return [dict(op="cast", tok=castfmt.tokens(c[0]), ev=recfmt.raw_events(ev), res=res) for c, (ev, res) in zip(g, out)]
    caseeng.validate(ctx, cases, safe(exe, play), "FmtTrace", what, lambda c: repr(c[0][:3000]), weight=4)


def cast_events(r, ver, big=False):
    ev, t = [], 0
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        d = r.choice([0, 0, 1, 999999, 1000000, 5000000, 123456, r.randint(0, 3000000), 10**9, 4 * 10**12])
        t += d
        n = r.choice([0, 1, 3, 10, 30]) if not big else r.choice([1, 30, 1000, 3000])
        kind = r.choice(["o"] * 5 + ["i", "m", "r", "x", "oo", "O", ""])
        ev.append((t if ver == 2 else d, kind, castfmt.text(r, n)))
    return ev


def c17(ctx):
    "asciicast files of any kind"
    exe = recfmt.build(ctx)
    r = ctx.rng("cast")
    good, cutoff, broken = [], [], []
    for i in range(ctx.pick(700, 6000)):
        ver = r.choice([1, 2, 2])
        p, sp = castfmt.doc(r, cast_events(r, ver, i % 40 == 0), ver)
        b = castfmt.render(r, p, sp).encode()
        good.append((b, r.random() < .2))
    for i in range(ctx.pick(600, 5000)):
        ver = r.choice([1, 2, 2])
        p, sp = castfmt.doc(r, cast_events(r, ver), ver)
        b = castfmt.render(r, p, sp).encode()
        cutoff.append((b[:r.randint(0, len(b))], r.random() < .2))
    for i in range(ctx.pick(900, 8000)):
        ver = r.choice([1, 2, 2])
        p, sp = castfmt.doc(r, cast_events(r, ver), ver)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(p))
            x = r.choice(["{", "}", "[", "]", ",", ":", '"a"', '"o"', "1", "3", "0.5", "null", "true", "-1", "x", "\\", '"', '"version"', '"stdout"'])
            if r.random() < .4:
                p[k] = x
            elif r.random() < .5:
                p.insert(k, x)
            else:
                del p[k]
            if not p:
                p = ["{"]
        broken.append((castfmt.render(r, p, sp).encode(), False))
    for v in ("0", "3", "12", "20", '"2"', "null", "{}", "-2"):
        broken.append((('{"version":%s,"width":80,"height":24}\n[1,"o","no"]\n' % v).encode(), False))
    # every cut of one of each kind
    for b in (b'{"version":2, "width":80, "height":24, "timestamp":5, "env":{"a":{"b":"}"},"c":{}}}\n[0.5,"o","a\\u00e9\\ud83d\\ude00"]\n[1.25,"i","x"]\n[2,"o","\\\\\\""]\n',
              b'{"version":1,"width":80,"height":24,"stdout":[[0.5,"a\\n"],\n[1.5e0,"b"]\n]}'):
        cutoff += [(b[:k], False) for k in range(len(b) + 1)]
    cast_play(ctx, exe, good, "playing an asciicast")
    cast_play(ctx, exe, cutoff, "playing an asciicast cut off")
    cast_play(ctx, exe, broken, "playing a malformed asciicast")


def split_bytes(r, b):
    k = []
    while b:
        n = r.choice([1, 1, 2, 3, 5, 20, 1000])
        k.append(b[:n])
        b = b[n:]
    return k


def c15(ctx):
    "asciicast files that are written"
    exe = recfmt.build(ctx)
    r = ctx.rng("castrec")
    cases = []
    for i in range(ctx.pick(900, 8000)):
        ver = r.choice([1, 2])
        start = r.choice([None, None, (0, 0), (0, 500000), (1, 0), (5, 999999), (1600000000, r.randint(0, 999999)), (2**32 + 7, 1)])
        s, u = start or (0, 0)
        size, first = (80, 25), b""
        k = r.random()
        if k < .5:
            size = (r.randint(2, 511), r.randint(1, 255))
            first = b"\x1b%%G\x1b[8;%d;%dt" % (size[1], size[0])
        elif k < .6:
            size = (r.randint(2, 511), r.randint(1, 255))
            first = b"x\x1b%%G\x1b[8;%d;%dt" % (size[1], size[0])
        elif k < .7:
            first = b"\x1b%G"
        big = i % 40 == 0
        body = castfmt.text(r, r.choice([0, 1, 5, 20, 60]) if not big else r.randint(2000, 6000)).encode()
        body = body.replace(b"\x1b", b"") if k < .7 else b""
        ch = split_bytes(r, body) if not big else [body[:4500], body[4500:]]
        if first:
            if r.random() < .3 and ch:
                ch[0] = first + ch[0]
            else:
                ch.insert(0, first)
        if k >= .7:
            # no size in it, but escapes
            ch = [c for c in split_bytes(r, castfmt.text(r, r.choice([1, 5, 30])).encode().replace(b"\x1b", b"\x1b7"))] or [b""]
        fr = []
        for c in ch:
            d = r.choice([0, 0, 1, 10, 999999, 1000000, 5000001, r.randint(0, 2000000), 10**10])
            u += d
            s, u = s + u // 1000000, u % 1000000
            fr.append((s, u, c))
        cases.append((ver, start, size, fr))

    def rec(g):
        lines, files = [], []
        for ver, start, size, fr in g:
            f = ctx.fresh("w", ".cast")
            files.append(f)
            lines.append("R asciicast%s %s %s" % ("-v1" if ver == 1 else "", f, "%d %d" % start if start else "- -"))
            lines += ["f %d %d %s" % (s, u, c.hex()) for s, u, c in fr] + [".", "P asciicast " + f]
        out = recfmt.split(recfmt.run(exe, lines))
        recs = []
        for i, (f, (ver, start, size, fr)) in enumerate(zip(files, g)):
            with open(f, "rb") as b:
                recs.append(dict(op="castrec", ver=ver, start=T(*start) if start else [], size=list(size),
                                 frames=[dict(t=T(s, u), s=list(c)) for s, u, c in fr], tok=castfmt.tokens(b.read()),
                                 ev=recfmt.raw_events(out[2 * i + 1][0]), res=out[2 * i][1] & out[2 * i + 1][1]))
            os.unlink(f)
        return recs
    caseeng.validate(ctx, cases, safe(exe, rec), "FmtTrace", "recording an asciicast", lambda c: repr(c)[:3000], weight=4)


def c18(ctx):
    "what kind of file it is"
    exe = recfmt.build(ctx)
    r = ctx.rng("auto")
    cases = []
    for i in range(ctx.pick(300, 3000)):
        tm, tok = times(r), []
        for j in range(r.randint(1, 6)):
            n = r.choice([1, 2, 30, 100, 65535]) if j == 0 and i % 5 == 0 else r.randint(1 if j == 0 else 0, 60)
            tok.append(("h",) + next(tm) + (n,))
            if n:
                tok.append(("x", n))
        cases.append(("ttyrec", recfmt.ttyrec_bytes(tok)))
    for i in range(ctx.pick(300, 3000)):
        ver = r.choice([1, 2])
        p, sp = castfmt.doc(r, cast_events(r, ver, i % 40 == 0), ver)
        b = castfmt.render(r, p, sp)
        b = "{" + castfmt.ws(r) + '"version"' + castfmt.ws(r) + ":" + castfmt.ws(r, .1) + "%d" % ver + castfmt.ws(r, .1) + ',"width":80,"height":24' + \
            (',"stdout":[[1,"a"],[2,"b"]]}' if ver == 1 else '}[1,"o","a"]\n[2,"o","b"]')
        cases.append(("asciicast", b.encode()))
    for i in range(ctx.pick(300, 3000)):
        n = r.choice([0, 1, 5, 11, 12, 13, 24, 100, 32767, 32768, 40000]) if i % 3 == 0 else r.randint(0, 60)
        cases.append(("live", n))

    def play(g):
        lines, files = [], []
        for i, (k, x) in enumerate(g):
            b = x if k != "live" else recfmt.cut(0, x)
            f = put(ctx, b)
            files.append((f, b))
            how = r.random() if k == "live" else ctx.rng(repr(x)).random()
            auto = "P - " + f if how < .3 else "F - %s %s" % (f, " ".join(map(str, chop(len(b), ctx.rng(repr(x) + "f")) or [1])))
            lines += [auto, "P %s %s" % (k, f)]
        out = recfmt.split(recfmt.run(exe, lines))
        recs = []
        for i, ((k, x), (f, b)) in enumerate(zip(g, files)):
            os.unlink(f)
            ev, res = out[2 * i]
            if k == "live":
                recs.append(dict(op="live", n=x, ev=recfmt.events(ev), res=res))
            else:
                recs.append(dict(op="same", ev=recfmt.raw_events(ev), other=recfmt.raw_events(out[2 * i + 1][0]), res=res))
        return recs
    caseeng.validate(ctx, cases, safe(exe, play), "FmtTrace", "playing a file of unknown kind", lambda c: repr(c)[:2000], weight=2)
