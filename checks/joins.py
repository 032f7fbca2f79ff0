"""C19: termcat and termtime."""
import bz2, gzip, json, lzma, os, re, struct, subprocess
from decimal import Decimal
import caseeng, vf
from caseeng import T
from vf import CheckError, Violation

TECH = {"C19": "TLA+ specification of joined recordings, which a TLA+ model of both programs' loops is shown by TLC to meet; TLC validates files and reports of the real programs on generated lists of inputs"}

PACK = {"": lambda b: b, "gz": gzip.compress, "bz2": bz2.compress, "xz": lzma.compress,
        "zst": lambda b: subprocess.run(["zstd", "-qc"], input=b, capture_output=True, check=True).stdout}
UNPACK = {"": lambda b: b, "gz": gzip.decompress, "bz2": bz2.decompress, "xz": lzma.decompress,
          "zst": lambda b: subprocess.run(["zstd", "-dqc"], input=b, capture_output=True, check=True).stdout}
M = 10**6
SIZE = b"\x1b%G\x1b[8;25;80t"           # what an asciicast starts with


def text(r, n, ascii):
    k = "abc  \r\n\x1b[1m" if ascii else "abc \r\n\x1b\"\\\u0105\u2500\U0001f600\xe9"
    return "".join(r.choice(k) for _ in range(n)).encode()


def make(r, fmt, back, long):
    "-> (bytes of a file, what it shows: (delay, text)..., the delay after it)"
    fr, rest = [], 0
    big = r.random() < .04
    for i in range(r.choice([0, 1, 2, 3, 6])):
        d = r.choice([0, 0, 1, 10000, 600000, 999999, M, 1500000, r.randint(0, 3 * M), r.choice([10**9, 65536 * M, 70000 * M + 5] + [3 * 10**9 * M] * long)])
        b = text(r, r.randint(1, 40) if not big else r.choice([3000, 20000]), fmt == "nh")
        fr.append([d, b])
    if fmt == "text":
        b = b"".join(x[1] for x in [[0, text(r, r.choice([0, 1, 59, 60, 61, 120, 500, 5000 * big]), True)]])
        return b, b, None
    if fmt == "ttyrec":
        t = r.choice([0, 1, M, 1234567890 * M + r.randint(0, M)])
        o = b""
        if fr:
            fr[0][0] = 0
        low = t = t + r.choice([0, 50 * M])
        for f in fr:
            f[0] = min(f[0], 4 * 10**9 * M)
            if back and t > low and r.random() < .2:
                f[0] = -r.choice([1, M, t - low, r.randint(1, t - low)])
                f[0] = max(f[0], low - t)
            t += f[0]
            if t // M >= 2**32 - 9:
                t -= f[0]
                f[0] = 0
            o += struct.pack("<III", t // M, t % M, len(f[1])) + f[1]
        if fr and r.random() < .2:
            rest = r.choice([1, M, 2500000])
            o += struct.pack("<III", (t + rest) // M, (t + rest) % M, 0)
        return o, fr, rest
    if fmt == "nh":
        t, o = 0, b""
        for f in fr:
            f[0] -= f[0] % 10000
            t += f[0]
            if t // 10000 >= 2**31:
                t -= f[0]
                f[0] = 0
            o += b"\0" + struct.pack("<I", t // 10000) + f[1]
        if r.random() < .3:
            rest = r.choice([0, 10000, 5 * M])
            o += b"\0" + struct.pack("<I", (t + rest) // 10000)
        return o, fr, rest
    s = lambda t: "%d.%06d" % (t // M, t % M)
    if fmt == "cast":
        o = b'{"version": 2, "width": 80, "height": 25}\n'
        t = 0
        for f in fr:
            t += f[0]
            o += b'[%s, "o", %s]\n' % (s(t).encode(), json.dumps(f[1].decode()).encode())
        return o, [[0, SIZE]] + fr, 0
    o = b'{"version": 1, "width": 80, "height": 25, "stdout": ['
    o += b",".join(b'[%s, %s]' % (s(f[0]).encode(), json.dumps(f[1].decode()).encode()) for f in fr)
    return o + b"]}\n", [[0, SIZE]] + fr, 0


def decode(fmt, b):
    "a file termcat made -> [(time, text)...], whether it is as it should"
    o, at = [], 0
    if fmt == "text":
        return ([[0, b]] if b else []), True
    if fmt == "ttyrec":
        while at < len(b):
            if at + 12 > len(b):
                return o, False
            s, u, n = struct.unpack("<III", b[at:at + 12])
            if at + 12 + n > len(b) or u >= M:
                return o, False
            o.append([s * M + u, b[at + 12:at + 12 + n]])
            at += 12 + n
        return o, True
    if fmt == "nh":
        t = 0
        while at < len(b):
            if b[at]:
                e = b.find(b"\0", at)
                e = len(b) if e < 0 else e
                o.append([t * 10000, b[at:e]])
                at = e
            elif at + 5 > len(b):
                return o, False
            else:
                t = struct.unpack("<I", b[at + 1:at + 5])[0]
                at += 5
        return o, True

    def us(x):
        x = x * M
        return int(x) if x == int(x) else -1
    try:
        if fmt == "cast":
            l = b.decode().split("\n")
            if l.pop() or json.loads(l[0])["version"] != 2:
                return o, False
            for x in l[1:]:
                t, k, s = json.loads(x, parse_float=Decimal)
                if k == "o":
                    o.append([us(t), s.encode()])
        else:
            j = json.loads(b.decode(), parse_float=Decimal)
            if j["version"] != 1:
                return o, False
            t = 0
            for d, s in j["stdout"]:
                t += us(d)
                o.append([t, s.encode()])
    except (ValueError, KeyError, IndexError, TypeError):
        return o, False
    return o, all(t >= 0 for t, s in o)


def tm(t):
    return T(t // M, t % M)


EXT = {"ttyrec": ["ttyrec", "TTYrec"], "nh": ["nh", "NH"], "cast": ["cast", "Cast"], "v1": ["cast", "cast-v1"], "text": ["txt", "Txt"]}


def case(r):
    c = dict(op="cat" if r.random() < .65 else "time", inp=[], dest="good")
    stdin, f = None, r.choice(["ttyrec", "ttyrec", "nh", "cast", "v1", "text"])
    c["fmt"], c["z"] = f, ""
    back = r.random() < .3 and (c["op"] == "time" or f in ("ttyrec", "text"))
    for i in range(r.choice([1, 1, 2, 3, 5])):
        if c["inp"] and r.random() < .1:
            x = r.choice(c["inp"])
            if x["name"] != "-":
                c["inp"].append(x)
                continue
        if r.random() < .2:
            c["inp"].append(dict(name=r.choice(["no%d.ttyrec" % i, "no%d/x.cast" % i, "file/no%d.nh.gz" % i, "no%d" % i]), ok=False, fmt="x", b=b"", fr=[], rest=0))
            continue
        f = r.choice(["ttyrec", "ttyrec", "nh", "cast", "v1", "text"])
        b, fr, rest = make(r, f, back, c["op"] == "time")
        z = r.choice(["", "", "gz", "bz2", "xz", "zst"])
        e = "." + r.choice(EXT[f])
        if f in ("cast", "v1") or f == "ttyrec" and fr and b[4:8] + b[:4] != b[8:12]:
            if f != "ttyrec" and r.random() < .2 or f == "ttyrec" and fr and r.random() < .15:
                e = r.choice(["", ".rec", ".ttyrec.old"])
        n = "in%d%s%s" % (i, e, ("." + r.choice([z, z.upper()])) if z else "")
        if not e and not z and stdin is None and r.random() < .6:
            n = "-"
            stdin = b
        c["inp"].append(dict(name=n, ok=True, fmt=f, b=PACK[z](b), fr=fr, rest=rest))
    c["stdin"] = stdin or b""
    f = c["fmt"]
    if c["op"] == "cat":
        k = r.random()
        c["z"] = z = r.choice(["", "gz", "bz2", "xz", "zst"])
        e = r.choice({"v1": ["cast-v1", "CAST-V1"]}.get(f, EXT[f]))
        if f == "text":
            e = r.choice(["txt", "TXT", "log", "ttyrec.out"])
        c["out"] = "out.%s%s" % (e, "." + r.choice([z, z.upper()]) if z else "")
        if k < .08:
            c["dest"] = "full"
        elif k < .14:
            c["dest"], c["out"] = "none", "nodir/" + c["out"]
        elif k < .3 and f == "text":
            c["out"], c["z"] = "-", ""
        c["old"] = r.random() < .3
    elif r.random() < .1:
        c["dest"] = "full"
    return c


def drive(ctx, exe, g):
    recs = []
    for c in g:
        d = ctx.fresh("cat")
        os.mkdir(d)
        open(d + "/file", "w").close()
        for x in c["inp"]:
            if x["ok"] and x["name"] != "-":
                open(d + "/" + x["name"], "wb").write(x["b"])
        args = [x["name"] for x in c["inp"]]
        if c["op"] == "cat":
            if c["dest"] == "full":
                os.symlink("/dev/full", d + "/" + c["out"])
            elif c["old"] and c["dest"] == "good" and c["out"] != "-":
                open(d + "/" + c["out"], "wb").write(b"what was there before\n" * 5000)
            args.append(c["out"])
        so = open("/dev/full", "wb") if c["op"] == "time" and c["dest"] == "full" else subprocess.PIPE
        p = subprocess.Popen([exe[c["op"]]] + args, stdin=subprocess.PIPE, stdout=so, stderr=subprocess.PIPE, cwd=d, env=vf.env(), start_new_session=True)
        try:
            out, err = p.communicate(c["stdin"], timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Violation("term%s does not end" % c["op"], text=show(c))
        if p.returncode == 99:
            raise Violation("term%s: memory error" % c["op"], text="%s\n%s" % (show(c), err.decode("latin1")[-3000:]))
        err = err.decode("latin1")
        said = sorted({x["name"] for x in c["inp"] if re.search(r"(?m)(^|[\s'\"`])" + re.escape(x["name"]) + r"(?=[:\s'\"])", err)})
        rec = {"op": c["op"], "dest": c["dest"], "status": p.returncode, "said": said, "in": []}
        for x in c["inp"]:
            ev = []
            if x["fmt"] != "text":
                for t, s in x["fr"]:
                    ev += [["w", tm(t)], ["p", s.hex()]]
                ev.append(["w", tm(x["rest"])])
            rec["in"].append(dict(name=x["name"], ok=x["ok"], fmt=x["fmt"], ev=ev, s=x["fr"].hex() if x["fmt"] == "text" else ""))
        if c["op"] == "cat":
            o, whole = [], False
            if c["dest"] == "good":
                try:
                    b = out if c["out"] == "-" else open(d + "/" + c["out"], "rb").read()
                    o, whole = decode(c["fmt"], UNPACK[c["z"]](b))
                except (OSError, EOFError, ValueError, lzma.LZMAError, subprocess.CalledProcessError):
                    pass
            rec.update(fmt=c["fmt"], whole=whole, out=[dict(t=tm(max(t, -M)), s=s.hex()) for t, s in o if s])
            if c["dest"] == "full" and c["z"] and p.returncode == 0:
                # the file is written by a thread that has nobody to tell
                k = [f for f in vf.known("C19") if f.get("case") == "compressed, full"]
                if k:
                    ctx.found = k[0]["what"]
                    rec["status"] = 1
        else:
            rec["lines"] = []
            for l in (out or b"").decode("latin1").split("\n"):
                m = re.fullmatch(r"\s*(\d+)\.(\d{6})\s+(\S.*)", l)
                if m:
                    rec["lines"].append([T(int(m[1]), int(m[2])), m[3]])
                elif l:
                    rec["lines"].append([T(0, 0), "?"])
        subprocess.run(["rm", "-rf", d])
        recs.append(rec)
    return recs


def show(c):
    return "term%s %s" % (c["op"], " ".join(x["name"] for x in c["inp"]) + (" %s (%s)" % (c["out"], c["dest"]) if c["op"] == "cat" else "") +
                          "\n" + "\n".join("%s: %r %r" % (x["name"], x["fr"], x["rest"]) for x in c["inp"])[:3000])


def c19(ctx):
    "joining recordings and adding up their lengths"
    vf.model(ctx, "MCTools", "MCTools.cfg" if not ctx.thorough else "MCTools3.cfg", workers=4)
    exe = {p: vf.build(ctx, "term" + p, [], repo=[os.path.join(vf.REPO, d, "term%s.c" % p)] + vf.repo_sources(*vf.LIBDIRS))
           for p, d in (("cat", "cat"), ("time", "time"))}
    ctx.found = None
    r = ctx.rng("join")
    cases = [case(r) for _ in range(ctx.pick(900, 9000))]
    caseeng.validate(ctx, cases, lambda g: drive(ctx, exe, g), "ToolTrace", "joining recordings", show, weight=2)
    if ctx.found:
        ctx.findings.append(ctx.found)
    ctx.count(runs=len(cases))
