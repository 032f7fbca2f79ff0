"""C33: who streams from the network are connected to."""
import caseeng, recfmt, vf
from formats import safe

TECH = {"C33": "TLA+ specification of addresses and connections (Addr), model-checked; TLC validates recorded connections of the real code to simulated hosts"}
WRAP = "getaddrinfo freeaddrinfo socket connect".split()


def address(r):
    "-> what follows ://"
    word = lambda a, n: "".join(r.choice(a) for _ in range(n))
    name = lambda: word("abcXYZ019-._~%", r.choice([1, 3, 10, r.randint(1, 30)]))
    k = r.random()
    if k < .35:
        h = name()
    elif k < .5:
        h = ".".join(str(r.randrange(256)) for _ in range(4))
    elif k < .75:
        h = "[" + r.choice(["::1", "fe80::1%eth0", "::", "2001:db8::%d" % r.randrange(9999), "1:2:3:4:5:6:7:8", name(), ""]) + "]"
    elif k < .85:
        h = word("ab:[]0129", r.randint(0, 7))
    else:
        n = r.choice([60, 100, 118, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 140, 200, 253, 400])
        h = word("abc.", n)
        if r.random() < .3:
            h = "[" + h + "]"
    k = r.random()
    if k < .3:
        p = ""
    elif k < .75:
        p = ":" + r.choice(["1", "23", "80", "65535", "65534", "00080", "0000000000000000000000000023", str(r.randint(1, 65535))])
    else:
        p = ":" + r.choice(["", "0", "00", "65536", "65559", "99999", "4294967296", "4294967319", "18446744073709551616", "18446744073709551639",
                            "-1", "-23", "-65513", "-4294967273", "-18446744073709551593", "23x", "x23", "2 3", "0x17", "1e2", "telnet", "80:", ":80", "23]",
                            str(r.randint(65536, 2**70))])
    k = r.random()
    path = "" if k < .4 else "/" if k < .5 else "/" + r.choice(["Name", "a/b", "a:80", "[x]:1", ":23", "/", "x" * 300])
    return h + p + path


def c33(ctx):
    vf.model(ctx, "MCAddr", cfg=ctx.pick("MCAddr", "MCAddr5"))
    exe = vf.build(ctx, "adrdrv", ["adrdrv.c"], link=["-Wl," + ",".join("--wrap=" + w for w in WRAP)])
    r = ctx.rng("addr")
    cases = []
    for i in range(ctx.pick(2500, 20000)):
        proto = r.choice(["tcp", "telnet", "termcast"])
        write = r.random() < (.3 if proto == "tcp" else .1)
        ans = r.choice(["1", "1", "1", "01", "001", "11", "0", "00", "0010", "-", "i", "0i1", "x1", "x", "0x0i", "".join(r.choice("001xi") for _ in range(r.randint(1, 8)))])
        data = bytes(r.randrange(255) for _ in range(r.choice([0, 1, 7, 30, 3000]))).replace(b"\r", b"") if i % 3 else b""
        cases.append((proto, write, address(r), ans, data))

    def run(g):
        cap = lambda c: c[0] if len(c[2]) % 5 else c[0].title()
        lines = ["%s|%s|%s|%s" % (("WA" if c[1] else "RRRP")[len(c[4]) % (2 if c[1] else 4)], (cap(c) + "://" + c[2]).encode().hex(), c[3], c[4].hex()) for c in g]
        p = vf.run([exe], ("\n".join(lines) + "\n").encode(), 200, cwd="/")
        if not p.ok:
            raise recfmt.Died(p)
        recs, it = [], iter(p.out.decode().splitlines())
        for c in g:
            tries, res, data = [], None, None
            for l in it:
                w = l.split(" ")
                if w[0] == "try":
                    tries.append(dict(host=list(bytes.fromhex(w[1])), port=int(w[2]), addr=int(w[3])))
                elif w[0] == "=":
                    res = list(map(int, w[1:]))
                elif w[0] == "data":
                    data = bytes.fromhex(w[1])
                elif w[0] == "status":
                    if w[1] != "0" or res is None:
                        p.err = (p.err or "") + "\nended with status " + w[1]
                        raise recfmt.Died(p)
                    break
            recs.append(dict(proto=c[0], write=c[1], s=list(c[2].encode()), known=c[3] != "-", answer=[] if c[3] == "-" else list(c[3]),
                             tries=tries, res=res[0], told=bool(res[1]), left=res[2], data=data == c[4] or c[0] == "termcast" and data.startswith(c[4])))
        return recs
    caseeng.validate(ctx, cases, safe(exe, run), "AddrTrace", "opening a stream from the network", repr)
