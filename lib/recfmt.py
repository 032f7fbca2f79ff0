"""Files of recordings: made out of tokens, cut into tokens, played by the
real code (fmtdrv)."""
import os, struct
import vf
from vf import CheckError, Violation
from caseeng import T

# the one stream every text is cut from: no byte of it is zero
_S = bytearray()


def stream(n):
    while len(_S) < n:
        i = len(_S)
        x = (i * 2654435761 ^ (i >> 7) * 40503 ^ (i >> 16) * 977) & 0xffffffff
        x ^= x >> 13
        x = x * 1540483477 & 0xffffffff
        _S.append((x >> 15) % 255 + 1)
    return _S


def cut(a, n):
    return bytes(stream(a + n)[a:a + n])


def build(ctx):
    return vf.build(ctx, "fmtdrv", ["fmtdrv.c"], link=["-Wl,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=time"])


def run(exe, lines, timeout=200, what="the library"):
    r = vf.run([exe], ("\n".join(lines) + "\n").encode(), timeout, cwd="/")
    if not r.ok:
        raise Died(r)
    return r.out.decode().split("\n")


class Died(Exception):
    def __init__(self, r):
        super().__init__(r.why())
        self.r = r


def split(lines):
    "-> [(events as lines, result)] per command"
    out, cur = [], []
    for l in lines:
        if l[:2] == "= ":
            out.append((cur, int(l[2:])))
            cur = []
        elif l:
            cur.append(l)
    return out


def events(lines):
    "abstracts the text to pieces of the stream"
    ev, at = [], 0
    for l in lines:
        k, *a = l.split(" ")
        if k == "p":
            b = bytes.fromhex(a[0]) if a[0] != "negative" else None
            if b is not None and b == cut(at, len(b)):
                ev.append(["p", len(b)])
                at += len(b)
            else:
                ev.append(["p", -1])
        else:
            ev.append([k, T(int(a[0]), int(a[1]))])
    return ev


def raw_events(lines):
    ev = []
    for l in lines:
        k, *a = l.split(" ")
        if k == "p":
            ev.append(["p", list(bytes.fromhex(a[0])) if a[0] != "negative" else [-1]])
        else:
            ev.append([k, T(int(a[0]), int(a[1]))])
    return ev


# ---- ttyrec

def ttyrec_bytes(tok, cutat=None):
    "tokens with absolute values -> bytes"
    out, at = b"", 0
    parts = []
    for t in tok:
        if t[0] == "h":
            parts.append(struct.pack("<III", t[1], t[2], t[3]))
        elif t[0] == "x":
            parts.append(cut(at, t[1]))
            at += t[1]
    out = b"".join(parts)
    return out if cutat is None else out[:cutat]


def ttyrec_tokens(b):
    "bytes -> tokens as Rec.tla has them; text must be that of the stream"
    out, i, at = [], 0, 0
    while i < len(b):
        if len(b) - i < 12:
            out.append(["e", len(b) - i])
            break
        s, u, n = struct.unpack("<III", b[i:i + 12])
        i += 12
        out.append(["h", T(s, u), min(n, 2**31 - 1)])
        x = b[i:i + n]
        if x != cut(at, len(x)):
            out.append(["bad", 0])
            break
        if x:
            out.append(["x", len(x)])
        at += len(x)
        i += n
    return out


# ---- nh_recorder

def nh_bytes(tok):
    parts, at = [], 0
    for t in tok:
        if t[0] == "z":
            parts.append(b"\0" + struct.pack("<I", t[1]))
        else:
            parts.append(cut(at, t[1]))
            at += t[1]
    return b"".join(parts)


def nh_tokens(b):
    out, i, at = [], 0, 0
    while i < len(b):
        if b[i]:
            j = b.find(b"\0", i)
            j = len(b) if j < 0 else j
            if b[i:j] != cut(at, j - i):
                out.append(["bad", 0])
                break
            out.append(["x", j - i])
            at += j - i
            i = j
        elif len(b) - i < 5:
            out.append(["e", len(b) - i])
            break
        else:
            out.append(["z", min(struct.unpack("<I", b[i + 1:i + 5])[0], 2**31 - 1)])
            i += 5
    return out
