"""C20, C21: compressed streams."""
import bz2, lzma, os, re, shutil, subprocess, zlib
import caseeng, vf, vsched
from vf import CheckError, Violation

TECH = {"C20": "TLA+ state machine of a compressed file (Streams.tla); TLC validates recorded histories of the real code against it",
        "C21": "TLA+ models of the exit barrier, checked by TLC under all interleavings; the real code under a controlled scheduler (bounded preemptions), its runs validated by TLC"}

KINDS = ["gz", "bz2", "xz", "zst"]
TOOL = {"gz": ["gzip", "-dc"], "bz2": ["bzip2", "-dc"], "xz": ["xz", "-dc"], "zst": ["zstd", "-dcq"]}
DATA = 3 << 20


def build(ctx, accesses=False):
    exe = vf.build(ctx, "strdrv", ["strdrv.c", "vsched.c", "accesses.c"], link=vsched.link(),
                   defs={os.path.basename(f): vf.ACCESSES for f in vf.repo_sources("libstream")} if accesses else None)
    d = ctx.path("strdata")
    os.makedirs(d, exist_ok=True)
    r = ctx.rng("data")
    f = {}
    for name in "rt":
        if name == "r":
            b = r.randbytes(DATA)
        else:
            w = [r.randbytes(r.randint(1, 5)) for _ in range(60)]
            o = bytearray()
            while len(o) < DATA:
                o += r.choice(w) * r.choice([1, 1, 1, 2, 100])
                if r.random() < .001:
                    o += r.choice(w) * 100000
            b = bytes(o[:DATA])
        f[name] = (os.path.join(d, name), b)
        open(f[name][0], "wb").write(b)
    return exe, f


def drive(ctx, exe, dfile, lines, timeout=300):
    "-> per line (log lines, status, {stream: bytes read})"
    out = []
    rd = ctx.fresh("rd")
    p = vf.run([exe, dfile, rd], ("\n".join(lines) + "\n").encode(), timeout=timeout)
    if p.hung or p.rc:
        raise CheckError("stream driver: " + p.why())
    log = []
    for x in p.out.decode("latin1").split("\n"):
        if x.startswith("= "):
            out.append((log, int(x[2:]), p.err))
            log = []
        elif x:
            log.append(x)
    if len(out) != len(lines):
        raise CheckError("stream driver: %d of %d answers" % (len(out), len(lines)))
    res = {}
    for i in range(16):
        n = rd + str(i)
        if os.path.exists(n):
            res[i] = open(n, "rb").read()
            os.unlink(n)
    return out, res


def common(a, b):
    "length of the common prefix"
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n
    while lo < hi:
        m = (lo + hi + 1) // 2
        if a[:m] == b[:m]:
            lo = m
        else:
            hi = m - 1
    return lo


def decodable(kind, b):
    "what the reference libraries get out of a file, whole or not"
    if kind == "zst":
        return subprocess.run(TOOL[kind], input=b, capture_output=True).stdout
    out = bytearray()
    while b:
        d = {"gz": lambda: zlib.decompressobj(31), "bz2": bz2.BZ2Decompressor, "xz": lambda: lzma.LZMADecompressor(lzma.FORMAT_XZ)}[kind]()
        try:
            for i in range(0, len(b), 512):
                out += d.decompress(b[i:i + 512])
                if d.eof:
                    break
            if kind == "gz":
                out += d.flush()
        except (zlib.error, OSError, lzma.LZMAError, EOFError):
            break
        if not d.eof:
            break
        b = d.unused_data + b[i + 512:]
    return bytes(out)


def message(x):
    return len(x) <= 400 and all(c in b"\x1b\n\r\t" or 32 <= c < 127 for c in x)


SIZES = [0, 1, 2, 100, 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 131071, 131072, 131073, 200000]


def chunks(r, n):
    how = r.choice(["one", "one", "even", "ragged", "tiny"])
    if how == "one" or n == 0:
        return [n] if n else []
    if how == "tiny":
        m = min(n, 300)
        return [1] * m + ([n - m] if n > m else [])
    step = r.choice([1000, 32767, 32768, 32769, 4096, 70000])
    out = []
    while n:
        k = min(n, step if how == "even" else r.randint(1, step))
        out.append(k)
        n -= k
    return out


def c20(ctx):
    vf.model(ctx, "MCFilter")
    exe, data = build(ctx)
    r = ctx.rng("c20")
    cases = []
    big = [900000, 900001, 1 << 20, 2500000]
    for kind in KINDS:
        for n in SIZES:
            cases.append(dict(kind=kind, data=r.choice("rt"), members=[(chunks(r, n))], fault=None))
        for n in big[:ctx.pick(2, 4)]:
            cases.append(dict(kind=kind, data=r.choice("rt"), members=[chunks(r, n)], fault=None))
        for _ in range(ctx.pick(14, 150)):
            cases.append(dict(kind=kind, data=r.choice("rt"), fault=None,
                              members=[chunks(r, r.choice(SIZES)) for _ in range(r.randint(2, 4))]))
        for fault in ("cut", "bad"):
            for _ in range(ctx.pick(25, 300)):
                cases.append(dict(kind=kind, data=r.choice("rt"), fault=fault,
                                  members=[chunks(r, r.choice(SIZES + [300000] * 6 + [900000])) for _ in range(r.choice([1, 1, 2, 3]))]))
        # files that end about where the buffers do
        for k in range(1, ctx.pick(3, 6)):
            for d in range(-20, 41, 4 if kind == "xz" else 1):
                cases.append(dict(kind=kind, data="r", members=[k * 32768 + d], fault=None, fit=1))
    for i, c in enumerate(cases):
        c["seed"] = r.getrandbits(32)

    def one(c):
        import random
        q = random.Random(c["seed"])
        dfile, content = data[c["data"]]
        f = ctx.fresh("f", "." + c["kind"] if q.random() < .8 else "." + c["kind"].upper())
        ext = os.path.splitext(f)[1]
        prev = q.random() < .3
        if prev:
            open(f, "wb").write(b"what was here before" * 1000)
        mode = "free"
        if q.random() < .3 and c["kind"] != "gz":
            mode = "rand %d %d" % (q.getrandbits(30), q.choice([20, 200]))
        if c.pop("fit", 0):
            size = c["members"][0]
            n = size - 100
            for _ in range(5):
                n += size - len(subprocess.run(TOOL[c["kind"]][:1] + ["-c"] + (["-9"] if c["kind"] == "gz" else []), input=content[:n], capture_output=True).stdout)
            c["members"] = [[n]]
        lines, ev, k = [], [], 0
        for j, m in enumerate(c["members"]):    # each in a process of its own
            how = "a" if j or q.random() < .2 and not prev else "w"
            ev.append([how])
            line = ["o 0 %s %s s 0 %d" % (f, how, k)]
            for n in m:
                line.append("w 0 %d" % n)
                ev.append(["n", n])
                k += n
            ev.append(["c"])
            lines.append(mode + "|" + " ".join(line) + " c 0 e")
        res, _ = drive(ctx, exe, dfile, lines)
        for log, st, err in res:
            if st or [x for x in log if not x.startswith(("?", "exit"))]:
                raise Violation("writing a .%s: status %d, %s" % (c["kind"], st, log[-3:]), text="%r\n%s\n%s" % (c, lines, err))
        total = sum(map(sum, c["members"]))
        want = content[:total]
        raw = open(f, "rb").read()
        t = subprocess.run(TOOL[c["kind"]], input=raw, capture_output=True)
        ev.append(["tool", len(t.stdout), common(t.stdout, want), t.returncode == 0])
        if c["fault"] == "cut":
            cut = q.choice([q.randint(0, len(raw)), q.randint(0, len(raw)), len(raw) - q.randint(1, min(len(raw), 30)), q.randint(0, min(len(raw), 40)), q.randrange(0, len(raw), 32768)])
            if c["kind"] == "gz" and cut == 1:
                cut = 2         # zlib takes the lone byte for text
            raw = raw[:cut]
            low = decodable(c["kind"], raw)
            if cut and want[:len(low)] != low:
                raise CheckError("reference decoder")
            ev.append(["cut", len(low)])
        elif c["fault"] == "bad":
            at = q.randrange(len(raw))
            low = decodable(c["kind"], raw[:at])
            b = bytearray(raw)
            for j in range(at, min(len(b), at + q.choice([1, 1, 4, 1000]))):
                b[j] ^= q.randint(1, 255)
            raw = bytes(b)
            # a block of the decoder may be lost with the damage
            ev.append(["bad", max(0, len(low) - (262144 if c["kind"] == "zst" else 65536))])
        open(f, "wb").write(raw)
        lines, plan = [], []
        for _ in range(2):
            rs = q.choice([100, 1000, 4096, 32768, 100000, 1 << 20])
            if total < 5000:
                rs = q.choice([1, 7, rs])
            if q.random() < .4:
                pc = q.choice([1, 3, 10] if len(raw) < 300 else [1000, 4096, 32767] if len(raw) > 40000 else [100, 1000, 5000])
                op = "p 0 %s x%s %d r 0 %d c 0 e" % (f, ext, pc, rs)
                lines.append(("free|") + op)
            else:
                lines.append(mode + "|" + "o 0 %s r r 0 %d c 0 e" % (f, rs))
        for line in lines:
            res, got = drive(ctx, exe, dfile, [line])
            log, st, err = res[0]
            log = [x for x in log if not x.startswith(("?", "exit"))]
            got = got.get(0, b"")
            if st or len(log) != 1 or not log[0].startswith("read 0 %d 0" % len(got)):
                raise Violation("reading a .%s%s: status %d, %s" % (c["kind"], " (%s)" % c["fault"] if c["fault"] else "", st, log[-3:]),
                                text="%r\n%s\n%s" % (c, line, err[-3000:]), files={"file." + c["kind"]: raw})
            k = common(got, want)
            n, msg = len(got), False
            if k < n and message(got[k:]):
                n, msg = k, True
            ev.append(["r", n, k, msg])
        os.unlink(f)
        return dict(ev=ev)

    def run(g):
        return [one(c) for c in g]

    def show(c):
        return "a .%s of %s, %s, seed %d" % (c["kind"], " + ".join("%d bytes in %d writes" % (sum(m), len(m)) for m in c["members"]),
                                              c["fault"] or "whole", c["seed"])
    caseeng.validate(ctx, cases, run, "StrTrace", "history of a compressed file", show=show, weight=8)
    ctx.count(files=len(cases))


# ------------------------------------------------------------------ C21

def scenarios(ctx, r):
    """-> (ops with %d for the run, streams).  What is written: small, more
    than a pipe takes, nothing."""
    S = []

    def sc(text, **kinds):
        S.append((text, kinds))
    sc("o0 w0:10 c0 e", k0="zst")
    sc("o0 w0:10 c0 E", k0="gz")
    sc("o0 c0 e", k0="gz")
    sc("o0 w0:9000 c0 e", k0="zst")
    sc("o0 o1 w0:10 w1:20 c1 c0 e", k0="zst", k1="gz")
    sc("o0 w0:10 c0 o1 w1:20 c1 e", k0="gz", k1="zst")
    sc("o0 o1 c0 w1:9000 c1 e", k0="gz", k1="gz")
    sc("o0 w0:9000 c0 o1 w1:9000 c1 o2 w2:5 c2 e", k0="zst", k1="gz", k2="zst")
    sc("o0 o1 o2 w0:1 w1:1 w2:1 c0 c1 c2 e", k0="gz", k1="zst", k2="gz")
    sc("o0 w0:70000 c0 o1 c1 e", k0="zst", k1="gz")
    sc("R0:100 r0 c0 e", k0="gz")
    sc("R0:0 r0 c0 e", k0="zst")
    sc("R0:9000 r0 c0 o1 w1:10 c1 e", k0="zst", k1="gz")
    sc("o1 R0:9000 w1:10 c1 r0 c0 e", k0="gz", k1="zst")
    sc("R0:9000 c0 o1 w1:10 c1 e", k0="gz", k1="zst")
    sc("o0 w0:10 c0 e", k0="bz2")
    sc("o0 w0:10 c0 e", k0="xz")
    return S


def tight(ctx, r, exe, data):
    "destinations with little room: who writes is told, and nothing hangs -> [(outcome, line)]"
    dfile, content = data["r"]
    n = 0
    jobs = []
    for k in KINDS:
        rooms = [None, 0, 1, 100, 10000, 200000, 1000000, 2000000] + [r.randrange(2000000) for _ in range(ctx.pick(2, 30))]
        for room in rooms:
            n += 1
            f, other = ctx.path("full%d.%s" % (n, k)), ctx.path("fine%d.%s" % (n, r.choice(KINDS)))
            if room is None:
                os.symlink("/dev/full", f)
            sizes = r.choice([[3000000] * 7, [3000000] * 7, [100000] * 30 + [3000000] * 6, [r.randrange(1, 2000000), 0], [room // 2 if room else 10]])
            ev, do = [["m", 0, room or 0], ["o", 0]], ["L %d" % (-1 if room is None else room), "o 0 %s w" % f]
            if room is None:
                ev.append(["o", 1])
                do.append("o 1 %s w" % other)
            jobs.append((room, f, other, sizes, ev, do))

    def go(job):
        room, f, other, sizes, ev, do = job
        for x in sizes:
            do.append("s 0 0 w 0 %d" % x)
        if room is None:
            do.append("s 1 0 w 1 5000 c 1")
        (log, status, err), = drive(ctx, exe, dfile, ["free|" + " ".join(do + ["c 0", "e"])], timeout=120)[0]
        told = [int(x.split()[2]) for x in log if x.startswith("short 0 ")]
        for x in sizes[:len(sizes) - len(told)]:
            ev.append(["w", 0, x])
        for x, y in zip(sizes[len(sizes) - len(told):], told):
            ev += [["w", 0, y], ["n", 0, x - y]] if y else [["n", 0, x]]
            break
        if room is None:
            ev += [["w", 1, 5000], ["c", 1]]
        ev += [["c", 0], ["x"]]
        d = []
        for i, name in (0, f), (1, other):
            if os.path.exists(name) and not os.path.islink(name):
                t = subprocess.run(TOOL[name.split(".")[-1]], stdin=open(name, "rb"), capture_output=True)
                want = (b"".join(content[:x] for x in sizes) if i == 0 else content)
                d.append([i, len(t.stdout), common(t.stdout, want), t.returncode == 0 and os.path.getsize(name) > 0])
            if os.path.lexists(name):
                os.unlink(name)
        why = [x for x in log if not x.startswith(("short 0", "exit"))]
        ev.append(["gone", d] if status == 0 and not why else ["stuck", status] + why)
        return dict(ev=ev), None, " ".join(do)
    return vf.parallel(go, jobs)


def c21(ctx):
    vf.model(ctx, "MCFilter")
    vf.model(ctx, "MCFilter", "MCFilterFull.cfg")
    if ctx.thorough:
        vf.model(ctx, "MCFilter", "MCFilter3.cfg", timeout=900)
    exe, data = build(ctx, True)
    r = ctx.rng("c21")
    dfile, content = data["r"]
    S = scenarios(ctx, r)

    def path(tag, i, kinds):
        return ctx.path("x%s-%d.%s" % (tag, i, kinds["k%d" % i]))

    made = {}

    def ready(kind, n):
        if (kind, n) not in made:
            f = ctx.path("ready%d.%s" % (n, kind))
            open(f, "wb").write(subprocess.run(TOOL[kind][:1] + ["-c"], input=content[:n], capture_output=True).stdout)
            made[kind, n] = f
        return made[kind, n]

    def cmd(tag, text, kinds):
        out = []
        for w in text.split():
            if w[0] == "o":
                out.append("o %s %s w" % (w[1:], path(tag, int(w[1:]), kinds)))
            elif w[0] == "w":
                i, n = w[1:].split(":")
                out.append("w %s %s" % (i, n))
            elif w[0] == "R":
                i, n = w[1:].split(":")
                out.append("o %s %s r" % (i, ready(kinds["k" + i], int(n))))
            elif w[0] == "r":
                out.append("r %s 4000" % w[1:])
            else:
                out.append(w[0] + " " + w[1:])
        return " ".join(out)

    def outcome(tag, text, kinds, log, status):
        ev, reads = [], {}
        got = {x.split()[1]: x.split()[2:] for x in log if x.startswith("read ")}
        for w in text.split():
            if w[0] == "R":
                reads[w[1]] = w[3:]
            elif w[0] == "r":
                ev.append(["r", int(got[w[1]][0]) if w[1] in got else -1, int(reads[w[1]])])
            elif w[0] == "c" and w[1] in reads:
                pass
            elif w[0] in "oc":
                ev.append([w[0], int(w[1:])])
            elif w[0] == "w":
                i, n = w[1:].split(":")
                ev.append(["w", int(i), int(n)])
            else:
                ev.append(["x"])
        d = []
        for i in range(len(kinds)):
            if str(i) in reads:
                continue
            f = path(tag, i, kinds)
            b = b""
            if os.path.exists(f):
                b = open(f, "rb").read()
                os.unlink(f)
            k = kinds["k%d" % i]
            if k == "zst":
                t = subprocess.run(TOOL[k], input=b, capture_output=True)
                got, fine = t.stdout, t.returncode == 0 and b != b""
            else:
                try:
                    got, fine = {"gz": lambda x: zlib.decompress(x, 31), "bz2": bz2.decompress, "xz": lzma.decompress}[k](b), True
                    fine = b != b""
                except (zlib.error, OSError, lzma.LZMAError, EOFError, ValueError):
                    got, fine = b"", False
            d.append([i, len(got), common(got, content), fine])
        why = [x for x in log if x in ("deadlock", "livelock") or x.startswith(("fail", "short", "close"))]
        ev.append(["gone", d] if status == 0 and not why else ["stuck", status] + why)
        return dict(ev=ev)

    full = tight(ctx, r, exe, data)
    seen, runs = {}, 0

    def go(job):
        "runs schedules of a scenario -> [(schedule, choice points, outcome)]"
        si, scheds, tag = job
        text, kinds = S[si]
        lines = ["%s|%s" % (m, cmd("%s-%d" % (tag, j), text, kinds)) for j, m in enumerate(scheds)]
        res, _ = drive(ctx, exe, dfile, lines, timeout=600)
        return [(m, vsched.points(log), outcome("%s-%d" % (tag, j), text, kinds, log, st), log, err)
                for j, (m, (log, st, err)) in enumerate(zip(scheds, res))]

    # all schedules with few preemptions, then random ones
    limit = ctx.pick(500, 8000)
    search = [vsched.Search(ctx.pick(2, 3), limit, ctx.rng("s%d" % i)) for i in range(len(S))]
    how = [""] * len(S)
    # ... and with a switch at any access to memory
    for si in 0, 1, 2, 4, 5, 6, 10:
        S.append(S[si])
        how.append("a1000 ")
        search.append(vsched.Search(2, ctx.pick(1500, 20000), ctx.rng("a%d" % si)))
    live, n = True, 0
    while live:
        jobs, back = [], []
        for si, s in enumerate(search):
            g = s.give(40)
            if g:
                n += 1
                jobs.append((si, [how[si] + "list " + " ".join(map(str, p)) for _, p in g], "l%d" % n))
                back.append((s, g))
        live = bool(jobs)
        for (s, g), job, out in zip(back, jobs, vf.parallel(go, jobs)):
            for (b, pre), (m, pts, o, log, err) in zip(g, out):
                s.took(b, pre, pts)
                runs += 1
                seen.setdefault((job[0], repr(o)), (o, job[0], m))
    jobs = []
    for si in range(len(S)):
        k = ctx.pick(80, 3000)
        for j in range(0, k, 40):
            jobs.append((si, ["%s%s%s %d %d" % (r.choice(["", "", "a1000 ", "a100 ", "a10 "]), "s 100 " if r.random() < .3 else "", kind, r.getrandbits(30), {"rand": r.choice([100, 300, 900]), "prio": r.choice([0, 1, 2, 3, 5])}[kind])
                              for kind in (r.choice(["rand", "prio"]) for _ in range(40))], "r%d-%d" % (si, j)))
    for job, out in zip(jobs, vf.parallel(go, jobs)):
        for m, pts, o, log, err in out:
            runs += 1
            seen.setdefault((job[0], repr(o)), (o, job[0], m))
    ctx.count(full_destinations=len(full))
    cases = list(seen.values()) + full
    again = {}

    def run(g):
        if len(g) == 1 and len(cases) > 1 or again:
            o, si, m = g[0]
            n = len(again) + 1
            again[n] = 1
            return [o if si is None else go((si, [m], "a%d" % n))[0][2]]
        return [o for o, si, m in g]
    ctx.count(schedules=runs, schedules_cut_short=sum(s.cut for s in search))
    caseeng.validate(ctx, cases, run, "ExitTrace", "an exit with compressed streams", show=lambda c: c[2] if c[1] is None else "%s %s, schedule %s" % (S[c[1]][0], S[c[1]][1], c[2]))
