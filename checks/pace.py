"""C31: the pace of what has no times of its own, or is shown at once."""
import os
import caseeng, recfmt, vf
from caseeng import T
from formats import chop, put, safe
from timeline import CLOCK, norm

TECH = {"C31": "TLA+ specification of 2400 baud and of live input and output (Pace), model-checked; TLC validates recorded runs of the real players and recorders under a simulated clock"}


def data(r, n):
    "any bytes, zeros too"
    return r.choice([r.randbytes(n), bytes(n), recfmt.cut(0, n), (b"line\r\n\0" * (n // 7 + 1))[:n]])


def shown(lines, b):
    "the events, with text abstracted to how much of b it is"
    ev, at = [], 0
    for l in lines:
        k, *a = l.split(" ")
        if k == "p":
            x = bytes.fromhex(a[0]) if a[0] != "negative" else None
            ok = x is not None and x == b[at:at + len(x)]
            ev.append(["p", len(x) if ok else -1])
            at += len(x) if ok else 0
        else:
            ev.append([k, T(int(a[0]), int(a[1]))])
    return ev


def c31(ctx):
    vf.model(ctx, "MCPace", cfg=ctx.pick("MCPace", "MCPace4"))
    r = ctx.rng("pace")

    # plain text, played and written
    exe = recfmt.build(ctx)
    cases = [("text", n, p) for n in list(range(0, 4)) + [59, 60, 61, 119, 120, 121, 300, 1000, 32767, 32768, 32769, 70000] for p in (False, True)]
    for _ in range(ctx.pick(500, 5000)):
        cases.append(("text", r.randint(0, 400) if r.random() < .8 else r.randint(0, 9000), r.random() < .5))
    for i in range(ctx.pick(300, 3000)):
        cases.append(("ansi", [r.choice([0, 1, r.randint(0, 100)] + ([4095, 4096, 4097, 32768, 70000] if i % 6 == 0 else [])) for _ in range(r.randint(0, 6))]))

    def run(g):
        lines, keep = [], []
        for c in g:
            rr = ctx.rng(repr(c))
            if c[0] == "text":
                b = data(rr, c[1])
                f = put(ctx, b, ".txt" if not c[2] and rr.random() < .5 else "")
                if c[2]:
                    lines.append("F baudrate %s %s" % (f, " ".join(str(x) for x in chop(len(b), rr))))
                else:
                    lines.append("P %s %s" % ("-" if f.endswith(".txt") else "baudrate", f))
            else:
                b = data(rr, sum(c[1]))
                f = ctx.fresh("w", ".txt")
                lines.append("R %s %s %s" % (rr.choice(["-", "ansi"]), f, rr.choice(["- -", "5 0"])))
                at = 0
                for n in c[1]:
                    lines.append("f %d 0 %s" % (5 + at, b[at:at + n].hex()))
                    at += n
                lines.append(".")
            keep.append((f, b))
        out = recfmt.split(recfmt.run(exe, lines))
        recs = []
        for c, (f, b), (ev, res) in zip(g, keep, out):
            if c[0] == "text":
                recs.append(dict(op="text", n=len(b), ev=shown(ev, b), res=res))
            else:
                with open(f, "rb") as x:
                    got = x.read()
                recs.append(dict(op="ansi", n=len(b), got=len(b) if got == b else -1, res=res))
            os.unlink(f)
        return recs
    caseeng.validate(ctx, cases, safe(exe, run), "PaceTrace", "plain text", repr)

    # live
    drv = vf.build(ctx, "pacdrv", ["pacdrv.c"], link=["-Wl," + ",".join("--wrap=" + w for w in CLOCK)])
    when = lambda: (r.choice([0, 1, 5, 1000000000, 2**31 - 3]), r.choice([0, 1, 500000, 999999, r.randint(0, 999999)]))
    cases = []
    for i in range(ctx.pick(500, 5000)):
        start, opened, known = when(), when(), r.random() < .7
        if not known:
            start = (0, 0)
        t, fr = start, []
        if r.random() < .3:
            t = norm(t[0] + r.choice([0, 1, 100000]), t[1] + r.randint(0, 999999))
        for _ in range(r.randint(0, 8)):
            fr.append((t, r.choice([0, 1, 10, r.randint(0, 300)] if i % 10 else [1, 4096, 32768, 70000]),
                       r.choice([(0, 0), (0, 0), (0, 1), (0, 20000), (1, 0), (7, 999999)])))
            d = r.choice([(0, 0), (0, 1), (0, 999999), (1, 0), (1, 1), (3, 500000), (0, r.randint(0, 999999)), (0, r.randint(0, 3000)), (100000, 0), (-1, 999999), (-2, 0)])
            t = norm(t[0] + d[0], t[1] + d[1])
            if t < start:
                t = start
        cases.append(("out", start, opened, known, fr))
    for i in range(ctx.pick(500, 5000)):
        c = opened = when()
        arr = []
        for _ in range(r.randint(0, 8)):
            e = r.choice([(0, 0), (0, 1), (0, 999999), (1, 0), (5, 1), (100000, 3), (0, r.randint(0, 999999)), (0, r.randint(0, 3000))])
            c = norm(c[0] + e[0], c[1] + e[1])
            arr.append((c, r.choice([1, 2, 12, 24, r.randint(1, 400)] if i % 10 else [4096, 32767, 32768, 32769, 70000])))
        cases.append(("in", opened, arr))

    def live(g):
        lines, keep = [], []
        for c in g:
            rr = ctx.rng(repr(c))
            if c[0] == "out":
                b = data(rr, sum(x[1] for x in c[4]))
                f = ctx.fresh("l")
                lines.append("O %s %d %d %d %d %d" % (f, *c[1], *c[2], c[3]))
                at = 0
                for (s, u), n, (es, eu) in c[4]:
                    lines.append("o %d %d %d %d %s" % (s, u, es, eu, b[at:at + n].hex()))
                    at += n
                lines.append(".")
            else:
                f = None
                b = data(rr, sum(x[1] for x in c[2]))
                l, at = "I %d %d" % c[1], 0
                for (s, u), n in c[2]:
                    l += " %d %d %s" % (s, u, b[at:at + n].hex())
                    at += n
                lines.append(l)
            keep.append((f, b))
        out = recfmt.split(recfmt.run(drv, lines))
        recs = []
        for c, (f, b), (ev, res) in zip(g, keep, out):
            if c[0] == "out":
                e = [x.split(" ") for x in ev]
                tm = lambda x: T(int(x[1]), int(x[2]))
                with open(f, "rb") as x:
                    got = x.read()
                os.unlink(f)
                recs.append(dict(op="out", start=T(*c[1]), opened=T(*c[2]), res=res if got == b else 0,
                                 fr=[dict(at=T(*x[0]), n=x[1], call=tm(e[3 * i]), out=tm(e[3 * i + 1]), there=int(e[3 * i + 2][1]))
                                     for i, x in enumerate(c[4])]))
            else:
                recs.append(dict(op="in", opened=T(*c[1]), arr=[dict(at=T(*x[0]), n=x[1]) for x in c[2]], ev=shown(ev, b), res=res))
        return recs
    caseeng.validate(ctx, cases, safe(drv, live), "PaceTrace", "live input and output", repr)
