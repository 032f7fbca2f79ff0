"""Runs of the real code that are each one line of a trace: records them, has
TLC decide each line, confirms what it rejects by running it again."""
import json, os, re
import vf
from vf import CheckError, Violation


def T(s, u):
    "a time, as Time.tla has it"
    return [s >> 16, s & 0xffff, max(-2**31 + 1, min(u, 2**31 - 1))]


def _tlc(ctx, lines, module, ev):
    f = ctx.fresh("trace", ".ndjson")
    with open(f, "w") as o:
        for x in lines:
            o.write(json.dumps(x, separators=(",", ":")) + "\n")
    t = vf.tlc(ctx, module, TRACE=f, heap="2500m", **ev)
    os.unlink(f)
    m = re.search(r'<<\s*"MISMATCH",\s*(\d+)', t.out)
    if m:
        i = t.out.find('"MISMATCH"')
        return int(m.group(1)), re.split(r'<<"STEPS"|\nError', t.out[i - 2:i + 1500])[0], t
    m = re.search(r'<<"STEPS", (\d+), (\d+)>>', t.out)
    if not m or m.group(1) != m.group(2) or not t.completed:
        raise CheckError("TLC did not finish %s:\n%s" % (module, t.out[-3000:]))
    return 0, "", t


def validate(ctx, cases, run, module, what, show=str, weight=1, **ev):
    """run(list of cases) -> a list of records, one per case; or raises
    Violation for a crash.  A rejected case is run again, alone."""
    if not cases:
        return
    n = max(1, min(vf.CPUS - 1, int(len(cases) * weight) // 400, len(cases)))
    groups = [cases[i::n] for i in range(n)]

    def work(g):
        recs = run(g)
        if len(recs) != len(g):
            raise CheckError("%d records for %d cases" % (len(recs), len(g)))
        lines, owner = [], []           # a case may be several lines
        for c, x in zip(g, recs):
            x = x if isinstance(x, list) else [x]
            lines += x
            owner += [c] * len(x)
        at, why, t = _tlc(ctx, lines, module, ev)
        return (owner[at - 1], why, t) if at else (None, len(g), t)

    res = vf.parallel(work, groups)
    for case, why, t in res:
        if case is None:
            continue
        for again in range(3):
            recs = run([case])
            at, why2, t2 = _tlc(ctx, recs[0] if isinstance(recs[0], list) else recs, module, ev)
            if at:
                raise Violation("%s: the specification does not allow %s" % (what, " ".join(why2.split())),
                                text="%s\n\nrecorded: %s\n" % (show(case), json.dumps(recs)[:20000]),
                                files={"case.json": json.dumps(recs[0])})
        raise CheckError("a rejection was not repeated: %s\n%s" % (show(case), why))
    for case, k, t in res:
        ctx.count(traces_validated_against_impl=k, states=t.distinct, transitions=t.generated)
    for c in cases[:2]:
        ctx.sample(show(c)[:600])
