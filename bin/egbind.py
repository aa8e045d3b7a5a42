"""How tightly a trace specification binds the code: alters one recorded value at a time and
counts which alterations the specification rejects.  Used by egcheck (evidence), and on its
own to look for values that no clause looks at:
    python3 bin/egbind.py GENERATOR FAMILY TRACESPEC PROP   (PROP "" for every clause)
"""
import json
import os
import random
import re
import sys
import tempfile

import egtlc

HEX = re.compile(r"^[0-9A-F]{2,}$")


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, x


def shape(path):
    return ".".join("*" if isinstance(p, int) else p for p in path)


def altered(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1 if v < 2**31 - 1 else v - 1
    if isinstance(v, str):
        if v in ("ok", "error", "crash", "hang", "true", "false", "refused"):
            return {"true": "false", "false": "true", "refused": "true"}.get(v)
        if HEX.match(v) and v != "00":
            i = len(v) // 2
            return v[:i] + ("1" if v[i] != "1" else "2") + v[i + 1:]
        if v.isdigit():
            return str(int(v) + 1)
        return v + "x"
    return None


def put(x, path, v):
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v


def candidates(lines, per_shape, rng):
    """One altered copy of a trace per (operation, place) - at most per_shape of each."""
    seen = {}
    order = list(range(len(lines)))
    rng.shuffle(order)
    for i in order:
        if len(lines[i]) > 400000:
            continue
        doc = json.loads(lines[i])
        for j, e in enumerate(doc["ev"]):
            if e.get("r", {}).get("st") != "ok":
                continue
            ls = list(leaves(e["r"]))
            rng.shuffle(ls)
            for path, v in ls:
                key = (e["op"], shape(path))
                if seen.get(key, 0) >= per_shape or path == ("st",):
                    continue
                w = altered(v)
                if w is None or w == v:
                    continue
                seen[key] = seen.get(key, 0) + 1
                d2 = json.loads(lines[i])
                put(d2["ev"][j]["r"], path, w)
                d2["ev"] = d2["ev"][:j + 1]
                yield key, (v, w), json.dumps(d2)


def judge(module, prop, docs, work):
    """Which of the altered traces are rejected."""
    f = os.path.join(work, "bind.ndjson")
    open(f, "w").write("\n".join(docs) + "\n")
    cfg = egtlc.TRACE_CFG.replace("POSTCONDITION AllConsumed\n", "")
    rc, text = egtlc.run(module, cfg, {"eg.trace": f, "eg.prop": prop}, extra=["-continue"], timeout=600)
    bad = set()
    for part in text.split("Error: Invariant Accepted is violated")[1:]:
        part = part.split("Error: Invariant")[0]
        tr = re.findall(r"/\\ tr = (\d+)", part)
        if tr:
            bad.add(int(tr[-1]))
    if "The error occurred when TLC was evaluating" in text or "unexpected exception" in text:
        tr = re.findall(r"/\\ tr = (\d+)", text)
        if tr:
            k = int(tr[-1])
            bad.add(k)
            if len(docs) > 1:
                rest = [d for i, d in enumerate(docs) if i + 1 != k]
                more = judge(module, prop, rest, work)
                idx = [i + 1 for i in range(len(docs)) if i + 1 != k]
                bad |= {idx[m - 1] for m in more}
    return bad


def demonstrate(module, prop, lines, work, seed, n=12):
    rng = random.Random("%s-%s" % (prop, seed))
    pool = []
    for c in candidates(lines, 1, rng):
        pool.append(c)
        if len(pool) >= 400:
            break
    rng.shuffle(pool)
    pool = pool[:n]
    if not pool:
        return {"altered": 0, "rejected": 0}
    bad = judge(module, prop, [c[2] for c in pool], work)
    return {"altered": len(pool), "rejected": len(bad),
            "not_constrained_by_this_property": sorted({"%s:%s" % pool[i][0] for i in range(len(pool)) if i + 1 not in bad})}


if __name__ == "__main__":
    import egcheck
    gen, want, module, prop = sys.argv[1:5]
    api = os.environ.get("API", "")
    work = tempfile.mkdtemp(prefix="egbind-")
    scen, trace = os.path.join(work, "s.json"), os.path.join(work, "t.ndjson")
    egtlc.generate(gen, scen, want, "quick", "1", extra={"eg.div": os.environ.get("DIV", "1")})
    flavour = "asan" if api else "std"
    egcheck.drive(egcheck.build(flavour, api), flavour, scen, trace, 300, api)
    lines = open(trace).read().splitlines()
    cs = list(candidates(lines, int(os.environ.get("PER", "2")), random.Random(1)))
    miss = {}
    tot = {}
    for a in range(0, len(cs), 300):
        part = cs[a:a + 300]
        bad = judge(module, prop, [c[2] for c in part], work)
        for i, c in enumerate(part):
            tot[c[0]] = tot.get(c[0], 0) + 1
            if i + 1 not in bad:
                miss.setdefault(c[0], []).append(c[1])
    print("altered %d places %d" % (len(cs), len(tot)))
    for k in sorted(miss):
        print("NOT REJECTED %s %s %d/%d e.g. %s" % (k[0], k[1], len(miss[k]), tot[k], str(miss[k][0])[:160]))
