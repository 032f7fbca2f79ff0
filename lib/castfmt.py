"""asciicast files: cut into JSON tokens for Asciicast.tla, and generated."""
import json, re

NUM = re.compile(rb"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?")
WORD = re.compile(rb"true|false|null")


def tokens(b):
    out, i = [], 0
    while i < len(b):
        c = b[i:i + 1]
        if c in b" \t\r\n":
            i += 1
        elif c in b"{}[],:":
            out.append([c.decode()])
            i += 1
        elif c == b'"':
            units, i, whole, ok = string(b, i + 1)
            out.append(["s", units, whole] if ok else ["?"])
        elif WORD.match(b, i):
            m = WORD.match(b, i)
            out.append(["k", m.group().decode()])
            i = m.end()
        elif NUM.match(b, i):
            m = NUM.match(b, i)
            ip, fp, ex = m.group(1), (m.group(2) or b".")[1:], (m.group(3) or b"e0")[1:]
            out.append(["n", int(m.group().startswith(b"-")), [x - 48 for x in ip], [x - 48 for x in fp], max(-10**6, min(10**6, int(ex)))])
            i = m.end()
            if b[i:i + 1] and b[i:i + 1] not in b" \t\r\n,]}":
                out[-1] = ["?"]         # 01, 1., 1x and so on
                while b[i:i + 1] and b[i:i + 1] not in b" \t\r\n,]}":
                    i += 1
        else:
            out.append(["?"])
            i += 1
    return out


def string(b, i):
    units, raw, ok = [], bytearray(), True
    while i < len(b):
        c = b[i]
        if c == 34:
            return units, i + 1, True, ok and utf8(raw)
        if c == 92:
            if i + 1 >= len(b):
                i += 1
                break
            e = b[i + 1]
            if e == 117:
                h = b[i + 2:i + 6]
                if re.fullmatch(rb"[0-9a-fA-F]{4}", h):
                    units.append(1000 + int(h, 16))
                    i += 6
                    raw += b"u"
                    continue
                if i + 2 + len(h) < len(b) or not re.fullmatch(rb"[0-9a-fA-F]*", h):
                    ok = False
                i += 2
                continue
            units.append(256 + e)
            raw += b"x"
            i += 2
            continue
        if c < 32:
            ok = False
        units.append(c)
        raw.append(c)
        i += 1
    return units, i, False, ok


def utf8(b):
    try:
        bytes(b).decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


CHARS = ["a", "b", " ", "0", "\"", "\\", "/", "\n", "\r", "\t", "\b", "\f", "\x1b", "\0", "\x01", "\x1f", "\x7f", "{", "]", ",", "n", "u0041",
         "\x80", "\xe9", "\u07ff", "\u0800", "\u4e2d", "\ud7ff", "\ue000", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff"]


def text(r, n):
    return "".join(r.choice(CHARS) if r.random() < .7 else chr(r.randint(97, 122)) for _ in range(n))


def quote(r, s, plain=.6):
    "one of the ways to write s in JSON"
    out = []
    for ch in s:
        c = ord(ch)
        short = {8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 34: '"', 92: "\\", 47: "/"}.get(c)
        must = c < 32 or c in (34, 92)
        if not must and r.random() < plain:
            out.append(ch)
        elif short and r.random() < .7:
            out.append("\\" + short)
        elif not must and r.random() < .5:
            out.append(ch)
        else:
            for k in ([c] if c < 65536 else [0xd800 + ((c - 65536) >> 10), 0xdc00 + ((c - 65536) & 1023)]):
                h = "%04x" % k
                out.append("\\u" + (h.upper() if r.random() < .5 else h))
    return '"' + "".join(out) + '"'


def number(r, us):
    "microseconds, as a JSON number"
    s, f = us // 1000000, us % 1000000
    k = r.random()
    if k < .3 or us == 0:
        t = "%d.%06d" % (s, f)
        if r.random() < .5 or us == 0:
            t = t.rstrip("0").rstrip(".")
        return t if t else "0"
    if k < .4:
        return "%d.%06d%s" % (s, f, "".join(r.choice("0123456789") for _ in range(r.randint(1, 12))))
    if k < .6 and us < 9 * 10**12:
        return "%d%s-6" % (us, r.choice("eE"))
    if k < .75:
        # d.ddde+k
        d = str(us)
        e = len(d) - 7
        m = d[0] + "." + (d[1:] or "0")
        if e >= 0 and len(m) - 2 > 6:
            return "%d.%06d" % (s, f)
        return "%s%s%s%d" % (m, r.choice("eE"), "" if e < 0 else r.choice(["+", ""]), e)
    if k < .85 and f == 0:
        z = 0
        while s and s % 10 == 0:
            s, z = s // 10, z + 1
        return "%de%d" % (s, z) if z else "%d.0e0" % s
    return "%d.%06d%s" % (s, f, r.choice(["", "e0", "E+0", "e-0"]))


def ws(r, often=.3):
    return "".join(r.choice(" \t\n\r") for _ in range(r.choice([1, 1, 2, 5]))) if r.random() < often else ""


def value(r, depth):
    k = r.random()
    if depth and k < .5:
        w = lambda: ws(r)
        return "{" + ",".join(w() + quote(r, text(r, r.randint(0, 4))) + w() + ":" + w() + value(r, depth - 1) + w() for _ in range(r.randint(0, 3))) + w() + "}"
    if k < .6:
        return "null"
    if k < .8:
        return r.choice([str(r.randint(0, 10**9)), "0.5", "1.25e3", "3E-2", "0"])
    return quote(r, text(r, r.randint(0, 8)))


def doc(r, events, ver, big=0):
    "-> the tokens of a well-formed file as text pieces"
    w, h = r.choice([(80, 24), (80, 25), (2, 1), (132, 50), (511, 255), (r.randint(2, 300), r.randint(1, 100))])
    f = [("width", str(w)), ("height", str(h))]
    if r.random() < .6:
        f.append(("timestamp", r.choice([str(r.randint(1, 2**33)), "%d.%d" % (r.randint(1, 2**31), r.randint(0, 999999))])))
    for name in ("title", "command", "env", "theme", "idle_time_limit", "x", "shell", "stdout2", "widths", "versio", ""):
        if r.random() < .2:
            f.append((name, value(r, 3)))
    if ver == 2 and r.random() < .1:
        f.append(("stdout", value(r, 1)))
    r.shuffle(f)
    if ver == 1:
        f.insert(r.randint(0, len(f)), ("version", "1"))
    else:
        f.insert(0 if r.random() < .5 else r.randint(0, len(f)), ("version", "2"))
    sp = r.choice([0, .3, .9])
    p = ["{"]
    for i, (k, v) in enumerate(f):
        p += ([","] if i else []) + [quote(r, k, .98 if r.random() < .9 else .2), ":", v]
    ev = []
    for us, kind, s in events:
        ev.append(["[", number(r, us), ","] + ([quote(r, kind, .95), ","] if ver == 2 else []) + [quote(r, s, r.choice([.1, .6, .95])), "]"])
    if ver == 1:
        p += [",", '"stdout"', ":", "["]
        for i, e in enumerate(ev):
            p += ([","] if i else []) + e
        p += ["]", "}"]
    else:
        p.append("}")
        for e in ev:
            p += ["\n"] + e
        if r.random() < .7:
            p.append("\n")
    return p, sp


def render(r, p, sp):
    return "".join(ws(r, sp) + x for x in p) + ws(r, sp)
