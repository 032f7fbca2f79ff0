"""C27: termrec."""
import bz2, gzip, lzma, os, re, struct
import caseeng, vf
from vf import CheckError, Violation

TECH = {"C27": "TLA+ specification of a session, which a TLA+ model of termrec's loop is shown by TLC to refine; the real termrec runs with a simulated terminal, command, clock and signals at chosen points, TLC validates what it shows, passes on and records"}

WRAPS = "select pselect poll ppoll read write gettimeofday clock_gettime time ioctl tcgetattr tcsetattr forkpty nl_langinfo kill wait waitpid".split()
PACK = {"": lambda b: b, ".gz": gzip.compress, ".bz2": bz2.compress, ".xz": lzma.compress}
UNPACK = {"": lambda b: b, ".gz": gzip.decompress, ".bz2": bz2.decompress, ".xz": lzma.decompress}
SIZE = re.compile(rb"(\x1b%G)?(?:\x1b\[8;(\d+);(\d+)t)?", re.S)
START = 10**15 + 123456


def build(ctx, san=True):
    return vf.build(ctx, "recdrv", ["recdrv.c"], repo=vf.repo_sources("rec", "common", *vf.LIBDIRS), san=san, flags=["-DHAVE_CONFIG_H"],
                    defs={"termrec.c": ["-Dmain=termrec_main"]}, link=["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])


def frames(b):
    "-> frames of a ttyrec, whether that's all"
    out, at = [], 0
    while at < len(b):
        if at + 12 > len(b):
            return out, False
        s, u, n = struct.unpack("<III", b[at:at + 12])
        if at + 12 + n > len(b):
            return out, False
        c = s * 10**6 + u - START
        d = b[at + 12:at + 12 + n]
        at += 12 + n
        m = SIZE.fullmatch(d)
        c = c if 0 <= c < 2**31 else -1
        if m and d:
            out.append(dict(kind="size", c=c, utf=bool(m[1]), size=[int(m[3] or 0), int(m[2] or 0)]))
        elif d:
            out.append(dict(kind="out", c=c, b=d.hex()))
    return out, True


OLD = struct.pack("<III", 5, 6, 3) + b"old"


def drive(ctx, exe, g):
    lines = []
    for c in g:
        c["dir"] = ctx.fresh("rec")
        os.mkdir(c["dir"])
        if c["append"]:
            open(c["dir"] + "/" + c["name"], "wb").write(PACK[c["ext"]](OLD))
        a = (["-r"] if c["raw"] else []) + (["-a"] if c["append"] else []) + ["-e", "command", c["name"]]
        lines.append("%s|%s|%s|%dx%d|%s" % (c["dir"], " ".join(a), c["charset"], *c["size"], ";".join(c["steps"])))
    p = vf.run([exe], ("\n".join(lines) + "\n").encode(), timeout=600)
    if p.hung or p.rc:
        raise CheckError("termrec's driver: " + p.why())
    recs, ev, left = [], [], iter(g)
    for x in p.out.decode("latin1").split("\n"):
        w = x.split(" ")
        if w[0] == "=":
            c = next(left)
            st = int(w[1])
            if st == 99:
                raise Violation("termrec: memory error", text="%s\n%s" % (show(c), p.err[-4000:]))
            name = c["dir"] + "/" + c["name"]
            fs, whole = [], False
            try:
                b = UNPACK[c["ext"]](open(name, "rb").read())
                if not c["append"] or b.startswith(OLD):
                    fs, whole = frames(b[len(OLD):] if c["append"] else b)
            except (OSError, EOFError, lzma.LZMAError, ValueError):
                pass
            recs.append(dict(utf=c["charset"] == "UTF-8", size=c["size0"] or c["size"], raw=c["raw"], frames=fs, whole=whole, ev=ev, status=st))
            ev = []
        elif w[0] in ("out", "in", "shown", "got"):
            ev.append([w[0], w[1]])
        elif w[0] == "t":
            ev.append(["t", int(w[1]) - START])
        elif w[0]:
            ev.append([w[0]] + [int(y) for y in w[1:]])
    if len(recs) != len(g):
        raise CheckError("termrec's driver: %d of %d, %s\n%s" % (len(recs), len(g), p.rc, p.err[-2000:] + p.out[-300:].decode("latin1")))
    return recs


def show(c):
    return "termrec%s%s %s, %s, %dx%d: %s" % (" -r" * c["raw"], " -a" * c["append"], c["name"], c["charset"], *c["size"], "; ".join(c["steps"])[:1500])


def data(r, big=False):
    k = r.random()
    if big and k < .1:
        n = r.choice([4096, 65535, 65536, 65537, 70000])
        b = bytes([r.randrange(97, 123)]) * n
        return (b[:-1] + b"\n").hex()
    if k < .6:
        return bytes(r.choice(b"abc \r\n\x07\x1b[31m\xc4\x85\x00\xff") for _ in range(r.randint(1, 12))).hex()
    return bytes(r.randrange(256) for _ in range(r.randint(1, 200))).hex()


SIGS = [1, 2, 3, 15, 20]


def size(r, no=0):
    return "0x0" if r.random() < no else "%dx%d" % (r.choice([80, 80, 132, 1, 65535, r.randint(1, 300)]), r.choice([25, 25, 24, 1, 65535, r.randint(1, 100)]))


def session(r, no):
    steps = [""]
    if r.random() < .15:
        steps = ["@%s:%s" % (r.choice("gif"), size(r, no))]
    big = r.random() < .15
    for _ in range(r.choice([0, 1, 2, 4, 8, 16])):
        a = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            a.append(r.choice(["o" + data(r, big)] * 6 + ["i" + data(r)] * 4 + ["r" + size(r, no)] * 4 + ["k%d" % r.choice(SIGS)] + ["E", "R"] +
                              ["w%d" % r.choice([1, 5, 100])] + ["p%d" % r.choice([1, 5])] + ["@%s:%s" % (r.choice("rwgi"), size(r, no))] +
                              ["@%s:k%d" % (r.choice("rwgi"), r.choice(SIGS))]))
        if r.random() < .5:
            a.insert(r.randrange(len(a) + 1), "t%d" % r.choice([1, 1000, 10**6, r.randint(0, 10**7)]))
        steps.append(" ".join(a))
    a = [r.choice(["x", "x", "x", "x", "z", "c o" + data(r)])]
    if r.random() < .5:
        a.insert(0, "o" + data(r, big))
    if r.random() < .5:
        a.insert(0, "i" + data(r))
    if r.random() < .2:
        a.insert(0, "r" + size(r, no))
    if r.random() < .5:
        steps.append(" ".join(a))
    else:
        steps += a
    return steps


CHILD = """stty -opost -echo
printf 'size '; stty size
%s
i=0
while [ $i -lt %d ]; do
    printf 'ready'
    read x
    printf 'got %%s, ' "$x"; stty size
    i=$((i+1))
done
printf 'bye'
"""


def real(ctx, exe, r):
    """termrec as it is, on a pseudoterminal, with a shell for the command"""
    import fcntl, select, subprocess, termios, time
    d = ctx.fresh("real")
    os.mkdir(d)
    sz = [r.randint(20, 200), r.randint(5, 100)]
    blob = bytes(r.randrange(256) for _ in range(r.choice([10, 1000, 100000])))
    open(d + "/blob", "wb").write(blob)
    n = r.randint(0, 3)
    open(d + "/child.sh", "w").write(CHILD % ("cat blob", n))
    m, s = os.openpty()
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", sz[1], sz[0], 0, 0))
    utf = r.random() < .5
    ext = r.choice(["", ".gz"])
    t0 = int(time.time() * 10**6)
    before = termios.tcgetattr(s)
    # whatever a shell takes for a command; or the shell itself
    cmd = r.choice(["sh child.sh"] * 2 + ["X=1 sh child.sh", "true; sh child.sh", "sh child.sh; true", "(sh child.sh)", "{ sh child.sh; }", "! sh child.sh",
                    "if true; then sh child.sh; fi", "true && sh child.sh", "false || sh child.sh", "sh \"child.sh\" # it", "cd . && sh ./child.sh",
                    "for i in child.sh\ndo sh $i\ndone", "true | sh child.sh <&1", "", ""])
    open(d + "/shell", "w").write("#!/bin/sh\nexec sh child.sh\n")
    os.chmod(d + "/shell", 0o755)
    p = subprocess.Popen([exe] + (["-e", cmd] if cmd else []) + ["r.ttyrec" + ext], stdin=s, stdout=s, stderr=subprocess.PIPE, cwd=d,
                         env=vf.env(LC_ALL="C.UTF-8" if utf else "C", SHELL=d + "/shell"), start_new_session=True,
                         preexec_fn=lambda: fcntl.ioctl(0, termios.TIOCSCTTY, 0))
    seen = b""

    def upto(what):
        nonlocal seen
        lim = time.time() + 30
        while what not in seen if what else True:
            if select.select([m], [], [], .02)[0]:
                seen += os.read(m, 65536)
            elif not what and p.poll() is not None:
                break
            if time.time() > lim:
                break
        at = seen.find(what) + len(what) if what and what in seen else len(seen)
        x, seen = seen[:at], seen[at:]
        return x
    ev = [["told", *sz], ["wait", 1]]

    def turn(want, told, final=False):
        "the command writes want; what there was instead goes to the trace"
        x = upto(None if final else want[-5:] if len(want) > 5 else want)
        ev.append(["out", want.hex()])
        ev.append(["go"])
        if told:
            ev.append(told)
        ev.append(["shown", x.hex()])
        if not final:
            ev.append(["wait", 1])
    first = b"size %d %d\n" % (sz[1], sz[0]) + blob
    bye = b"bye"
    turn(first + (b"ready" if n else bye), None, not n)
    for i in range(n):
        told = None
        if r.random() < .7:
            sz = [r.randint(20, 200), r.randint(5, 100)]
            ev.append(["size", *sz])
            fcntl.ioctl(m, termios.TIOCSWINSZ, struct.pack("HHHH", sz[1], sz[0], 0, 0))
            told = ["told", *sz]
        w = "".join(r.choice("abcXYZ019") for _ in range(r.randint(1, 50))).encode()
        os.write(m, w + b"\n")
        turn(b"got %s, %d %d\n" % (w, sz[1], sz[0]) + (b"ready" if i < n - 1 else bye), told, i == n - 1)
    try:
        rc = p.wait(30)
        err = p.stderr.read().decode("latin1")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        rc, err = -9, "does not end"
    ev += [["exit"], ["end", int(termios.tcgetattr(s) == before)]]
    os.close(s)
    os.close(m)
    fs, whole = [], False
    try:
        b = UNPACK[ext](open(d + "/r.ttyrec" + ext, "rb").read())
        fs, whole = frames(b)
    except (OSError, EOFError, ValueError):
        pass
    t1 = int(time.time() * 10**6)
    for f, (sec, us) in zip(fs, stamps(b) if fs else []):
        f["c"] = 0 if t0 <= sec * 10**6 + us <= t1 else -1
    return dict(utf=utf, size=[ev[0][1], ev[0][2]], raw=False, frames=fs, whole=whole, ev=ev, status=rc if "kill" not in err else 77)


def stamps(b):
    at = 0
    while at + 12 <= len(b):
        s, u, n = struct.unpack("<III", b[at:at + 12])
        if n:
            yield s, u
        at += 12 + n


def c27(ctx):
    if ctx.thorough:
        vf.model(ctx, "MCSession", "MCSession3.cfg", workers=8, heap="12g", timeout=1500)
    else:
        vf.model(ctx, "MCSession")
    if vf.tlc(ctx, "MCSession", "MCSessionWrite.cfg", workers=2).completed:
        raise CheckError("the model doesn't tell that giving up on a failed write loses output")
    exe = build(ctx)
    r = ctx.rng("c27")
    cases = []
    for i in range(ctx.pick(600, 20000)):
        ext = r.choice(["", "", "", ".gz", ".bz2", ".xz"])
        s = r.choice([[80, 25], [80, 25], [65535, 65535], [1, 1], [r.randint(1, 300), r.randint(1, 200)], [0, 0]])
        cases.append(dict(name="x.ttyrec" + ext, ext=ext, append=r.random() < .1, raw=r.random() < .15,
                          charset=r.choice(["UTF-8", "UTF-8", "ANSI_X3.4-1968", "ISO-8859-1"]), size=s, size0=None, steps=session(r, (s == [0, 0]) * .7)))
    caseeng.validate(ctx, cases, lambda g: drive(ctx, exe, g), "SessTrace", "termrec", show=show, weight=4)
    ctx.count(sessions=len(cases))
    exe = vf.build(ctx, "termrec", ["nokill.c"], repo=vf.repo_sources("rec", "common", *vf.LIBDIRS), flags=["-DHAVE_CONFIG_H"],
                   link=["-Wl,--wrap=kill"])
    runs = [dict(seed=r.randrange(1 << 30)) for i in range(ctx.pick(32, 300))]
    caseeng.validate(ctx, runs, lambda g: [real(ctx, exe, vf.random.Random(c["seed"])) for c in g], "SessTrace", "termrec on a pseudoterminal", weight=200)
    ctx.count(real_sessions=len(runs))
