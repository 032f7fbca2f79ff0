"""C28: what decides formats, compression and names."""
import os, re, subprocess, time
import caseeng, joins, rec, vf
from joins import PACK, UNPACK
from vf import CheckError, Violation

TECH = {"C28": "TLA+ specification of what follows from a name, whose general laws TLC checks for all names of a few parts; the library's answers, files made by streams, recorders and sessions of termrec, and what players show of files under any name, are validated by TLC"}

MAGIC = [(b"\x1f\x8b", "gz"), (b"BZh", "bz2"), (b"\xfd7zXZ\0", "xz"), (b"\x28\xb5\x2f\xfd", "zst")]


def inside(b):
    "-> (compression, format) of a file, by what's in it"
    z = next((z for m, z in MAGIC if b.startswith(m)), "")
    try:
        b = UNPACK[z](b)
    except Exception:
        return "." + z, "?"
    z = "." + z if z else ""
    if not b:
        return z, "null"
    if b == b"hello\nworld\n":
        return z, "ansi"
    for f, name in (("ttyrec", "ttyrec"), ("nh", "nh_recorder"), ("cast", "asciicast"), ("v1", "asciicast-v1")):
        o, whole = joins.decode(f, b)
        if whole and b"".join(x[1] for x in o if x[1] != joins.SIZE) == b"hello\nworld\n":
            return z, name
    return z, "?"


def anycase(r, s):
    k = r.random()
    return s if k < .5 else s.upper() if k < .7 else "".join(r.choice([c, c.upper()]) for c in s)


EXTS = [".txt", ".ttyrec", ".nh", ".dm2", ".cast", ".cast-v1", ".gz", ".bz2", ".xz", ".zst", ".old", ".rec", ".c", ".z", ".tx", ".nhx", ".Z", ".gzip"]
BASES = ["a", "rec", "my.session", "2026-01-02", "dir.nh/f", "d.gz/f.x", "dir.nh/f.tx", "gz", "nh", "ttyrec", "castle", "cast", "x.ttyrec.old", "x" * 100]
WF = ["ansi", "ttyrec", "nh_recorder", "asciicast", "asciicast-v1", "live", "null"]
RF = ["baudrate", "ttyrec", "nh_recorder", "dosrecorder", "asciicast", "live", "auto"]
BADF = ["nosuch", "ttyre", "ttyrecx", ".ttyrec", "txt", "cast", "asciicast-v2", "gz", " ttyrec", ""]


def name(r):
    return r.choice(BASES) + "".join(anycase(r, r.choice(EXTS)) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))


def fmt(r, w, none=.4, live=False):
    "a format that is asked for; live writes as time passes"
    if r.random() < none:
        return "~"
    return anycase(r, r.choice(RF if not w else WF if live else [f for f in WF if f != "live"])) if r.random() < .8 else r.choice(BADF + ([f for f in RF if f != "live"] if w else WF))


def case(r):
    k = r.random()
    if k < .45:
        rw = r.choice("wr")
        return dict(op="find", rw=rw, asked=fmt(r, rw == "w", .7, True), name=name(r) if r.random() < .9 else "~",
                    default=r.choice(["~", "ansi", "ttyrec", "baudrate", "auto", "live", "nosuch", "ANSI"]))
    if k < .57:
        return dict(op="stream", mode=r.choice("wwa"), name=name(r), own=r.random() < .3, url=r.choice(["", "", "file://", "FILE://"]), rel=r.random() < .5, old=r.random() < .3)
    if k < .70:
        return dict(op="read", name=name(r), comp=r.choice(["", "gz", "bz2", "xz", "zst"]), url=r.choice(["", "", "file://", "File://"]), rel=r.random() < .5)
    if k < .85:
        return dict(op="write", asked=fmt(r, 1, .6), name=name(r), url="", old=r.random() < .3)
    t = r.choice(["ttyrec", "nh_recorder", "asciicast", "text"])
    n = name(r)
    return dict(op="play", asked=r.choice(["~", "~", fmt(r, 0), t, t]), name=n, true=t)


SHORT = {"ttyrec": "ttyrec", "nh_recorder": "nh", "asciicast": "cast", "text": "text"}


def files_in(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for x in names + [y for y in dirs if os.path.islink(root + "/" + y)]:
            p = os.path.join(root, x)
            out[os.path.relpath(p, d)] = "-> " + os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


def after(d, before):
    "-> (files made, whether the others are as they were)"
    now = files_in(d)
    made = [dict(name=n, new=n not in before, **dict(zip(("comp", "fmt"), inside(b)))) for n, b in sorted(now.items())
            if isinstance(b, bytes) and before.get(n) != b]
    return made, all(n in now and (now[n] == b or any(m["name"] == n for m in made)) for n, b in before.items())


def outer(n):
    return next((z for z in ("gz", "bz2", "xz", "zst") if n.lower().endswith("." + z)), "")


def drive(ctx, exe, g):
    lines, dirs, r = [], [], ctx.rng("names%d" % len(g))
    for c in g:
        d = ctx.fresh("nm")
        for x in ("/dir.nh", "/d.gz"):
            os.makedirs(d + x)
        dirs.append(d)
        p = d + "/" + c.get("name", "")
        if c["op"] == "find":
            lines.append("%s|%s|%s|%s" % (c["rw"].upper(), c["asked"], c["name"], c["default"]))
            continue
        if c["op"] in ("stream", "write") and c["old"]:
            open(p, "wb").write(b"" if c.get("mode") == "a" else b"what was there before\n")
        if c["op"] == "read":
            c["bytes"] = PACK[c["comp"]](b"what there is\n" * 5)
            open(p, "wb").write(c["bytes"])
            lines.append("I|%s%s" % (c["url"], c["name"] if c["rel"] else p))
        elif c["op"] == "stream":
            lines.append("O|%s|%s|%s%s|%d" % (c["mode"], p, c["url"], c["name"] if c["rel"] else p, c["own"]))
        elif c["op"] == "write":
            lines.append("C|%s|%s" % (c["asked"], p))
        else:
            if "file" not in c:
                c["file"], fr, _ = joins.make(r, SHORT[c["true"]], False, False)
                c["shows"] = fr if c["true"] == "text" else b"".join(x[1] for x in fr)
            open(p, "wb").write(PACK[outer(c["name"])](c["file"]))
            lines.append("P|%s|%s" % (c["asked"], p))
    before = [files_in(d) for d in dirs]
    lines = [d + "|" + x for d, x in zip(dirs, lines)]
    p = vf.run([exe], ("\n".join(lines) + "\n").encode(), timeout=300)
    out = p.out.decode("latin1").split("\n")[:-1]
    if p.hung or p.rc or len(out) != len(g):
        raise CheckError("names driver: " + p.why())
    recs = []
    for c, d, b, x in zip(g, dirs, before, out):
        got, st = x.rsplit("|", 1)
        if st != "0":
            raise Violation("the library fails (%s) with %s" % (st, show(c)), text=p.err[-3000:])
        files, kept = after(d, b)
        subprocess.run(["rm", "-rf", d])
        e = dict(op=c["op"], name=c["name"])
        if c["op"] == "find":
            e.update(rw=c["rw"], asked=c["asked"], default=c["default"], got=got)
        elif c["op"] == "read":
            e.update(comp="." + c["comp"] if c["comp"] else "", data=(b"what there is\n" * 5).hex(), bytes=c["bytes"].hex(), got=got)
        elif c["op"] == "stream":
            e.update(files=files, kept=kept and got == "1")
        elif c["op"] == "write":
            e.update(asked=c["asked"], res=got == "1", files=files, kept=kept)
        else:
            s, n = got.split(" ")
            e.update(asked=c["asked"], res=n == "1", true=c["true"], raw=c["file"].hex(), text=c["shows"].hex(), shown=s)
        recs.append(e)
    return recs


def show(c):
    return repr({k: v for k, v in c.items() if k not in ("bytes", "file", "shows")})


STEPS = ";o68656c6c6f0a;o776f726c640a;x"


def session(ctx, exe, d, args, zone):
    "runs termrec in d"
    b = files_in(d)
    p = vf.run([exe], ("%s|%s|%s|%s|%s\n" % (d, " ".join(args), "ANSI_X3.4-1968", "80x25", STEPS)).encode(), timeout=60,
               e=vf.env(TZ="VFX%s%d:%02d" % ("-" if zone >= 0 else "+", abs(zone) // 60, abs(zone) % 60)))
    m = re.findall(r"^= (-?\d+)$", p.out.decode("latin1"), re.M)
    if p.hung or p.rc or len(m) != 1:
        raise CheckError("termrec's driver: " + p.why())
    if m[0] == "99":
        raise Violation("termrec: memory error", text=" ".join(args) + "\n" + p.err[-3000:])
    files, kept = after(d, b)
    return int(m[0]), files, kept


def termrec(ctx, exe, g):
    "each case: (seed, asked, name); without a name: again and again, with things already there"
    recs = []
    for c in g:
        r = ctx.rng("rec" + repr(c))
        d = ctx.fresh("tr")
        os.makedirs(d + "/dir.nh")
        os.makedirs(d + "/d.gz")
        out = []
        asked, nm, times = c[1:]
        for i in range(times):
            if i and nm == "~":
                k = r.random()
                if i == 1 and times < 10 and out[0]["files"]:
                    # things with the names it would try next, whatever they are
                    n = out[0]["files"][0]["name"]
                    stem, ext = re.fullmatch(r"(.*?)((?:\.(?:txt|ttyrec|nh|cast|cast-v1))?(?:\.(?:gz|bz2|xz|zst))?)", n).groups()
                    L = [chr(97 + x) for x in range(26)]
                    for s in (L + [a + b for a in L for b in L])[:r.choice([1, 25, 26, 27, 27 * 26, 27 * 26 - 1])]:
                        x = d + "/" + stem + s + ext
                        q = r.random()
                        if q < .1:
                            os.symlink("nowhere" + s, x)
                        elif q < .15:
                            os.mkdir(x)
                        else:
                            open(x, "w").write("mine")
            elif nm != "~" and r.random() < .5:
                open(d + "/" + nm, "w").write("what was there before\n")
            a = ["-r"]
            if asked != "~":
                a += ["-f" + asked] if r.random() < .5 else ["-f", asked]
            if nm != "~":
                a.append(nm)
            zone = r.choice([0, 0, 330, -210, 14 * 60])
            st, files, kept = session(ctx, exe, d, a, zone)
            out.append(dict(op="rec", asked=asked, name=nm, status=st, files=files, kept=kept,
                            date=time.strftime("%Y-%m-%d.%H-%M-%S", time.gmtime(rec.START // 10**6 + 60 * zone))))
        subprocess.run(["rm", "-rf", d])
        recs.append(out)
    return recs


def refusals(ctx, r):
    "what termplay and termrec answer if asked for a format there isn't"
    exes = dict(r=vf.build(ctx, "termplay", [], repo=vf.repo_sources("play", "common", *vf.LIBDIRS)),
                w=vf.build(ctx, "termrec", [], repo=vf.repo_sources("rec", "common", *vf.LIBDIRS), flags=["-DHAVE_CONFIG_H"]))
    d = ctx.fresh("rf")
    os.makedirs(d)
    out = []
    for rw in "rw":
        for f in BADF[:-1] + ["whatever"]:
            a = [["-f", f], ["-f" + f], ["--format", f], ["--format=" + f]][r.randrange(4)]
            p = vf.run([exes[rw]] + a + [d + "/x." + r.choice(["nh", "ttyrec", "gz"])], b"", timeout=60, cwd=d, e=vf.env(SHELL="/bin/true"))
            if p.hung:
                raise CheckError("asked for a format there isn't: " + p.why())
            out.append(dict(op="list", rw=rw, asked=f, status=p.rc, left=len(os.listdir(d)),
                            listed=sorted({w for l in (p.err + p.out.decode("latin1")).split("\n") for w in re.split(r"[ (),]+", l) if w})))
    return out


def c28(ctx):
    "names"
    vf.model(ctx, "MCNames", "MCNames4.cfg" if ctx.thorough else "MCNames.cfg", workers=4)
    exe = vf.build(ctx, "namdrv", ["namdrv.c"])
    r = ctx.rng("names")
    cases = [case(r) for _ in range(ctx.pick(2400, 24000))]
    for rw, fs in (("w", WF), ("r", RF)):
        for f in fs + BADF[:-1]:
            cases.append(dict(op="find", rw=rw, asked=f, name="x.nh", default="ttyrec"))
    caseeng.validate(ctx, cases, lambda g: drive(ctx, exe, g), "NameTrace", "names", show)
    no = refusals(ctx, r)
    caseeng.validate(ctx, no, lambda g: g, "NameTrace", "formats there aren't", repr)
    trec = rec.build(ctx)
    cases = []
    for i in range(ctx.pick(80, 600)):
        f = fmt(r, 1, .5).replace(" ", "x") or "x"
        cases.append((i, f, name(r), 1))
    for f in ["~"] + WF:
        if f != "live":
            cases.append((0, f, "~", r.choice([3, 6])))
    cases += [(1, "~", "~", 32), (2, "ansi", "~", 5), (3, "ttyrec", "~", 5), (4, "null", "~", 5), (5, "asciicast", "~", 5)]
    caseeng.validate(ctx, cases, lambda g: termrec(ctx, trec, g), "NameTrace", "names of termrec", repr, weight=40)
    ctx.count(cases=len(cases))
