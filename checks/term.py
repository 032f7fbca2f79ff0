"""C34: the user's terminal."""
import os, shutil, signal, struct
import caseeng, recfmt, vf
from formats import safe

TECH = {"C34": "TLA+ specification of the terminal's settings under signals and job control (TermMode), model-checked with the steps termplay takes; TLC validates runs of the real programs on a terminal against it"}
SIG = dict(INT=signal.SIGINT, QUIT=signal.SIGQUIT, TERM=signal.SIGTERM, HUP=signal.SIGHUP, PIPE=signal.SIGPIPE, TSTP=signal.SIGTSTP)
TYPED = dict(INT="03", QUIT="1c", TSTP="1a")


def build(ctx):
    play = vf.build(ctx, "termplay", ["trmwrap.c"], repo=vf.repo_sources("play", "common", *vf.LIBDIRS), link=["-Wl,--wrap=pthread_create"])
    rec = vf.build(ctx, "termrec", [], repo=vf.repo_sources("rec", "common", *vf.LIBDIRS), flags=["-DHAVE_CONFIG_H"])
    return vf.build(ctx, "trmdrv", ["trmdrv.c"], repo=[], san=False), play, rec


class Run:
    "what happens to a program: the acts as the specification has them, and as the driver does"
    def __init__(self, ctx, r, play, rec, files):
        self.rec = r.random() < .3
        self.exe = rec if self.rec else play
        self.set = r.choice([0, 0, 0, 1, 2, 3, 4, 8, 16, 32, 64, 128, 256, 512, r.randrange(1024)])
        self.stdin, self.stdout = r.choice(["t"] * 8 + ["p", "n"]), r.choice(["t"] * 5 + ["p"])
        self.nothread, self.steps = "", []
        self.tty = self.stdin == "t"
        k = r.random()
        self.kind = "refused" if k < .12 else "early" if k < .35 and self.tty else "run"
        getattr(self, "rec_args" if self.rec else "play_args")(ctx, r, files)
        if self.kind == "refused":
            self.add("ended")
        elif self.kind == "early":
            self.early(r)
        elif not self.tty:
            self.filter(r)
        elif self.rec:
            self.record(r)
        else:
            self.playing(r, files)

    def add(self, do, spec=None):
        self.steps.append((do, do if spec is None else spec))

    def pause(self, r):
        if r.random() < .5:
            self.add("sleep:%d" % r.choice([0, 0, 100, 1000, 5000, r.randint(0, 20000)]), "")

    def play_args(self, ctx, r, files):
        if self.kind == "refused":
            self.args = r.choice([["-s", "x", files["a"]], ["-s", "0", files["a"]], ["-f", "nosuch", files["a"]], [files["none"]], [], ["-x", files["a"]],
                                  [files["a"], files["a"]], ["tcp://localhost"], ["-h"], ["--help"], [files["dir"] + "/none/x.ttyrec.gz"]])
            self.help = self.args[:1] in (["-h"], ["--help"])
            if self.tty and r.random() < .3:
                self.args, self.help, self.nothread, self.stdout = [files["a"]], False, r.choice("12"), "t"
        else:
            self.args = r.choice([[files["a"]], [files["a"]], [files["b"]], [files["c"]], ["-f", r.choice(["ttyrec", "asciicast", "auto"]), files["wait"]]])
            if r.random() < .3:
                self.args = ["-s", r.choice(["0.01", "1", "1000"])] + self.args
            if r.random() < .2:
                self.args = ["-p"] + self.args

    def rec_args(self, ctx, r, files):
        out = ctx.fresh("rec", r.choice([".ttyrec", ".json", ".ttyrec.gz"]))
        if self.kind == "refused":
            self.args = r.choice([["-f", "nosuch", out], [files["none"] + "/x"], ["-x", out], [out, out], ["-h"], ["--help"], [files["dir"]]])
            self.help = self.args[:1] in (["-h"], ["--help"])
        else:
            self.cmd = r.choice(["cat", "cat", "stty raw -echo; exec cat", "echo hello; cat", "trap '' INT; cat", "printf '\\033[31mred'; exec cat"])
            if self.kind != "run" or not self.tty:
                self.cmd = r.choice(["cat", "true", "echo hello"])
            self.args = ["-e", self.cmd, out]

    def early(self, r):
        "signals at any time from the start"
        self.add("sleep:%d" % r.choice([0, 1000, 5000, 10000, r.randint(0, 30000), r.randint(0, 60000)]), "")
        n = r.choice([1, 1, 2, 3])
        for i in range(n):
            s = r.choice(["INT", "QUIT", "TERM", "HUP"])
            self.add("%s:%d" % (r.choice(["sig", "grp"]), SIG[s]), "ask")
            if i < n - 1:
                self.add("sleep:%d" % r.choice([0, 0, 50, 200, 1000]), "")
        if self.rec:
            self.insist()
        self.add("ended")

    def filter(self, r):
        "keys from something else"
        if self.stdin == "p":
            self.add("sleep:%d" % r.choice([0, 10000, 30000]), "")
            if r.random() < .5 and not self.rec:
                self.add("key:" + r.choice(["7871", "71", "51"]), "ask")
            else:
                self.add("eof", "ask")
        else:
            self.add("", "ask")
        self.add("ended")

    def record(self, r):
        self.add("raw")
        for _ in range(r.choice([0, 1, 2])):
            self.add("key:" + r.choice(["61", "616263", "0a", "12"]), "key")
            self.pause(r)
        k, raw, deaf = r.random(), "raw" in self.cmd, "trap" in self.cmd
        if k < .35 and not raw:
            self.add("key:0a04", "ask")
        elif k < .45 and not raw and not deaf:
            self.add("key:03", "ask")
        else:
            self.add("sleep:%d" % r.choice([0, 1000, 20000]), "")
            self.add("sig:%d" % SIG[r.choice(["TERM", "HUP", "QUIT", "TERM" if deaf else "INT"])], "ask")
        self.insist()
        self.add("ended")

    def insist(self):
        "what came before there was a command doesn't reach it"
        for _ in range(2):
            self.add("sleep:400000", "")
            self.add("sig:%d" % SIG["HUP"], "ask")

    def playing(self, r, files):
        self.add("raw")
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.random()
            if k < .4:
                self.add("key:" + r.choice(["20", "78", "1b5b43", "1b5b44", "72", "0a", "0d", "31", "66", "73", "1b5b357e", "40"]), "key")
                self.pause(r)
            else:
                way = r.choice(["key:1a", "sig:%d" % SIG["TSTP"], "grp:%d" % SIG["TSTP"]])
                self.add(way, "stop")
                self.add("stopped")
                self.pause(r)
                while r.random() < .3:
                    self.add("bg")
                    self.add("stopped")
                self.add("fg")
                self.add("raw")
        self.pause(r)
        k = r.random()
        if self.stdout == "p" and self.args[-1] == files["b"] and "0.01" not in self.args and k < .7:
            self.add("gone", "ask")
            self.add("key:72", "key")       # shows the beginning
        elif k < .3:
            self.add("key:" + r.choice(["71", "51"]), "ask")
        elif k < .45:
            self.add("key:" + TYPED[r.choice(["INT", "QUIT"])], "ask")
        else:
            for i in range(r.choice([1, 1, 1, 2, 3])):
                self.add("%s:%d" % (r.choice(["sig", "sig", "grp"]), SIG[r.choice(["INT", "QUIT", "TERM", "HUP", "PIPE"])]), "ask")
                if r.random() < .5:
                    self.add("sleep:%d" % r.choice([0, 10, 100]), "")
        self.add("ended")

    def line(self):
        return "|".join([str(self.set), self.stdin, self.stdout, self.nothread, ",".join(d for d, _ in self.steps if d), self.exe] + self.args)

    def show(self):
        return "%s %s, settings %d, stdin %s, stdout %s%s: %s" % (os.path.basename(self.exe), self.args, self.set, self.stdin, self.stdout,
                                                                 ", no thread " + self.nothread if self.nothread else "", ", ".join(d for d, _ in self.steps))


def ttyrec(r, n, size=50):
    b, t = b"", 1000 * 10**6
    for k in range(n):
        x = b"frame %d \x1b[3%dm" % (k, k % 8) * size
        b += struct.pack("<III", t // 10**6, t % 10**6, len(x)) + x
        t += r.choice([0, 1000, 10000, 300000])
    return b


def c34(ctx):
    vf.model(ctx, "MCTermMode", cfg=ctx.pick("MCTermMode", "MCTermMode6"))
    ways = ["plain", "late", "nested", "nocont", "bold", "threads", "reset"]
    for w, t in zip(ways, vf.parallel(lambda w: vf.tlc(ctx, "MCTermMode", WAY=w), ways)):
        if t.completed or "is violated" not in t.out:
            raise vf.CheckError("the model doesn't tell what is wrong with the way " + w)
    exe, play, rec = build(ctx)
    r = ctx.rng("term")
    d = ctx.path("runs")
    os.makedirs(d, exist_ok=True)
    files = dict(dir=d, a=d + "/a.ttyrec", b=d + "/b.ttyrec", c=d + "/c.json", none=d + "/nosuchfile", wait=d + "/fifo")
    os.mkfifo(files["wait"])            # nothing comes
    fifo = os.open(files["wait"], os.O_RDWR)
    open(files["a"], "wb").write(ttyrec(r, 20))
    open(files["b"], "wb").write(ttyrec(r, 2000, 3))
    open(files["c"], "w").write('{"version":2,"width":80,"height":24}\n[0.5, "o", "hello"]\n[900.0, "o", "late"]\n')
    cases = [Run(ctx, r, play, rec, files) for _ in range(ctx.pick(1800, 15000))]

    def run(g):
        p = vf.run([exe], ("\n".join(c.line() for c in g) + "\n").encode(), 100 + 25 * len(g), cwd=d, e=vf.env(SHELL="/bin/sh", HOME=d))
        if not p.ok:
            raise recfmt.Died(p)
        out, it = [], iter(p.out.decode().splitlines())
        for c in g:
            seen, end = [], None
            for l in it:
                w = l.split()
                if w[0] == "=":
                    end = list(map(int, w[1:]))
                    break
                seen.append((w[0], *map(int, w[1:])))
            if end is None or end[0] == 99:
                p.err += "\nended with status 99"
                raise recfmt.Died(p)
            steps, s = [], iter(seen)
            for do, spec in c.steps:
                if do in ("raw", "stopped", "ended"):
                    what, got, own, raw = next(s)
                    steps.append(dict(a=do, got=bool(got), own=bool(own), raw=bool(raw)))
                elif spec:
                    steps.append(dict(a=spec, got=True, own=False, raw=False))
            out.append(dict(kind=c.kind, help=getattr(c, "help", False), tty=c.tty, steps=steps, status=end[0], sig=end[1], told=bool(end[2])))
        return out
    caseeng.validate(ctx, cases, safe(exe, run), "TermTrace", "a program on a terminal", lambda c: c.show(), weight=5)
    os.close(fifo)
    shutil.rmtree(d)
