"""Decides one property: model checking of the specification, then conformance of the code.

usage: egcheck.py PROPERTY [--thorough] [--replay FILE]"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

import egbind
import egbuild
import egtlc
from egprops import PROPS

VERIF = egbuild.VERIF
EVID = os.path.join(VERIF, "evidence")
LITE = {"group.cpp", "convert.cpp", "log.cpp", "precompute_buffers.cpp", "hash.cpp", "nonces.cpp", "hmac.cpp"}


def harness_sources():
    return sorted(os.path.basename(f) for f in glob.glob(VERIF + "/harness/*.cpp")
                  if os.path.basename(f) == "core.cpp" or os.path.basename(f).startswith("ops_"))


def build(flavour, api="", full=False):
    if flavour == "tsan" and not full:
        part = ["core.cpp", "ops_async.cpp", "ops_group.cpp", "ops_precompute.cpp"]
        try:
            return egbuild.build("egthr", part, "tsan", LITE)
        except egbuild.BuildError:  # the sources may have been divided differently
            return egbuild.build("egthr", part, "tsan")
    if api == "c":
        capi = sorted(os.path.basename(f) for f in glob.glob(VERIF + "/harness/capi_*.cpp"))
        try:
            return egbuild.build("egcapi", harness_sources() + capi, flavour)
        except egbuild.BuildError as e:
            missing = sorted(set(re.findall(r"(?:undefined reference to [`'\u2018]|[\u2018'])(eg_\w+)(?:['\u2019]| was not declared)", str(e))))
            if not missing:
                raise
            egbuild.build("egdrv", harness_sources(), flavour)  # the rest of the library builds
            raise Missing(missing)
    return egbuild.build("egdrv", harness_sources(), flavour)


def full_of(gen):
    return gen not in ("Gen_Group", "Gen_Precompute", "Gen_Tasks")


class Missing(Exception):
    """A function of the C interface that is declared nowhere or defined nowhere."""


def drive(exe, flavour, scen, trace, limit, api=""):
    env = dict(os.environ)
    if api:
        env["EGDRV_API"] = api
    if flavour == "tsan":
        env["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66"
        # keep address space layout predictable for ThreadSanitizer where the kernel allows it
        cmd = ["setarch", "-R", exe] if shutil.which("setarch") and setarch_ok() else [exe]
    else:
        cmd = [exe]
    if flavour == "asan":
        env["ASAN_OPTIONS"] = "detect_leaks=0 exitcode=66"
    jobs = "8" if flavour != "tsan" else "4"
    r = subprocess.run(cmd + [scen, trace, jobs, str(limit)], capture_output=True, text=True, env=env,
                       timeout=3600)
    if r.returncode != 0 or not os.path.exists(trace):
        raise RuntimeError("driver failed (rc %d): %s" % (r.returncode, r.stderr[-2000:]))


def setarch_ok():
    try:
        return subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0
    except OSError:
        return False


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.families, self.notes = [], [], [], []
        self.violation = None


def load_known(prop):
    """Known findings: lines 'KNOWN property=<id> match=<text> :: <description>'."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN property=%s " % prop):
                head, desc = line.rstrip("\n").split(" :: ", 1)
                out.append((head.split("match=", 1)[1], desc))
    return out


def conformance(prop, stage, tier, seed, work, res, deadline):
    gen, want, trm = stage["gen"], stage["want"], stage["trace"]
    flavour = stage.get("flavour", "std")
    api = stage.get("api", "")
    name = "%s-%s-%s%s" % (gen, want, flavour, api)
    scen = os.path.join(work, name + ".json")
    trace = os.path.join(work, name + ".ndjson")
    t0 = time.time()
    egtlc.generate(gen, scen, want, tier, seed, extra=stage.get("genprops"))
    t1 = time.time()
    exe = build(flavour, api, full_of(gen))
    t2 = time.time()
    limit = stage.get("limit", 300)
    drive(exe, flavour, scen, trace, limit, api)
    t3 = time.time()
    if tier == "thorough":
        timeout = 7200
    else:
        timeout = 800
    v = egtlc.validate(trm, trace, prop, timeout=timeout)
    t4 = time.time()
    lines = open(trace).read().splitlines()
    scens = json.load(open(scen))
    nev = sum(len(s["ops"]) for s in scens)
    res.families.append({"generator": gen, "family": want, "build": flavour, "interface": api or "c++", "scenarios": len(scens), "events": nev,
                         "trace_spec": trm, "states": v.states,
                         "seconds": {"generate": round(t1 - t0, 1), "build": round(t2 - t1, 1),
                                     "drive": round(t3 - t2, 1), "validate": round(t4 - t3, 1)}})
    if v.ok:
        res.states += v.states
        res.transitions += v.transitions
        res.traces += len(scens)
        res.events += nev
        if lines:
            i = int(seed or 1) % len(lines)
            res.samples.append({"family": want, "trace": lines[i][:1500]})
        if lines and (tier == "thorough" or not res.families[:-1]):
            # how tightly the trace specification binds: altered copies of the recorded values (evidence only)
            try:
                res.families[-1]["altered_traces"] = egbind.demonstrate(trm, prop, lines, work, seed, 40 if tier == "thorough" else 8)
            except Exception as e:
                res.notes.append("altered traces: %s" % str(e)[:200])
        return True
    # rejected: repeat before believing it
    sc = scens[v.tr - 1]
    ev = json.loads(lines[v.tr - 1])
    bad = ev["ev"][v.pos - 1] if v.pos and v.pos <= len(ev["ev"]) else {}
    if "harness:" in (v.why or ""):
        raise RuntimeError("harness mismatch: %s at %s" % (v.why, json.dumps(bad)[:600]))
    killed = bad.get("r", {}).get("st") in ("crash", "hang") and bad.get("r", {}).get("sig") in (9, 15)
    repeats = 0
    one = os.path.join(work, "one.json")
    onet = os.path.join(work, "one.ndjson")
    tries = stage.get("retries", 6)
    copies = 1 if flavour == "std" and not stage.get("racy") else 8
    for k in range(tries):
        json.dump([sc] * copies, open(one, "w"))
        drive(exe, flavour, one, onet, limit, api)
        w = egtlc.validate(trm, onet, prop)
        if not w.ok:
            repeats += 1
            v2 = w
            break
    if repeats == 0:
        # not reproduced by re-running; the recorded values themselves are re-judged once
        json_line = lines[v.tr - 1]
        open(onet, "w").write(json_line + "\n")
        w = egtlc.validate(trm, onet, prop)
        if w.ok or killed or bad.get("r", {}).get("st") in ("crash", "hang"):
            res.notes.append("unrepeated rejection ignored: %s %s" % (sc.get("id"), v.why))
            print("NOTE: a rejection did not repeat and is not reported: %s %s" % (sc.get("id"), v.why))
            return True
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, "replay-%s.json" % prop)
    json.dump({"property": prop, "generator": gen, "family": want, "trace_spec": trm, "build": flavour, "api": api,
               "clauses": v.why, "scenario": sc, "rejected_event_index": v.pos, "rejected_event": bad,
               "howto": "python3 /verif/bin/check %s --replay %s" % (prop, rp)}, open(rp, "w"), indent=1)
    res.violation = {"clauses": v.why, "scenario": sc.get("id"), "event": v.pos, "replay": rp}
    print("rejected: scenario %s event %s (%s) clauses %s" % (sc.get("id"), v.pos, bad.get("op"), v.why))
    print("  recorded: %s" % json.dumps(bad)[:1200])
    return False


def models(prop, tier, res):
    for m in PROPS[prop].get("models", []):
        if m.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        cfg = m["cfg"]
        if tier == "thorough" and "cfg_thorough" in m:
            cfg = m["cfg_thorough"]
        t = time.time()
        if m.get("expect_violation"):
            rc, text = egtlc.run(m["module"], cfg, m.get("props"), timeout=m.get("timeout", 600))
            if "is violated" not in text and "was violated" not in text:
                raise RuntimeError("negative model %s was not rejected\n%s" % (m["module"], text[-2000:]))
            d, g = egtlc.stats(text)
            res.models.append({"module": m["module"], "note": m.get("note", ""), "negative_control": True, "states": d})
            continue
        d, g, text = egtlc.model_check(m["module"], cfg, m.get("props"), timeout=m.get("timeout", 3000),
                                       extra=m.get("extra"))
        res.states += d
        res.transitions += g
        res.models.append({"module": m["module"], "note": m.get("note", ""), "states": d, "transitions": g,
                           "seconds": round(time.time() - t, 1)})


def evidence(prop, tier, seed, res, wall):
    os.makedirs(EVID, exist_ok=True)
    spec = PROPS[prop]
    cov = {"states": max(res.states, 1), "transitions": max(res.transitions, 1),
           "traces_validated_against_impl": res.traces, "events_validated": res.events,
           "families": res.families, "models": res.models, "samples": res.samples[:4] or [{"note": "none"}],
           "notes": res.notes}
    doc = {"property": prop, "tier": tier, "seed": int(seed or 1), "level": "model_checking", "coverage": cov,
           "assumptions": spec.get("assumptions", []) + [
               "SHA-256, HMAC and big-integer primitives of the Java runtime (cross-checked by MC_Prim)",
               "TLC and the C++ tool chain are correct"],
           "wall_s": round(wall, 1), "violations": 1 if res.violation else 0}
    if res.violation:
        doc["coverage"]["violation"] = res.violation
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(doc, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    if prop not in PROPS:
        print("unknown property " + prop)
        return 2
    work = tempfile.mkdtemp(prefix="egcheck-")
    t0 = time.time()
    res = Result()
    try:
        if "--replay" in argv:
            rp = json.load(open(argv[argv.index("--replay") + 1]))
            exe = build(rp["build"], rp.get("api", ""), full_of(rp.get("generator", "")))
            one, onet = os.path.join(work, "one.json"), os.path.join(work, "one.ndjson")
            json.dump([rp["scenario"]] * (1 if rp["build"] == "std" else 8), open(one, "w"))
            drive(exe, rp["build"], one, onet, 300, rp.get("api", ""))
            v = egtlc.validate(rp["trace_spec"], onet, prop)
            print("accepted" if v.ok else "rejected: %s" % v.why)
            return 0 if v.ok else 1
        ok = True
        for stage in PROPS[prop]["stages"]:
            if stage.get("tier", "quick") == "thorough" and tier != "thorough":
                continue
            seeds = [seed]
            if tier == "thorough":
                seeds += ["%d" % (int(seed) + 1000 + i) for i in range(stage.get("more_seeds", 2))]
            for s in seeds:
                if not conformance(prop, stage, tier, s, work, res, t0 + 800):
                    ok = False
                    break
            if not ok:
                break
        if ok:
            models(prop, tier, res)
        for match, desc in load_known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, desc))
        evidence(prop, tier, seed, res, time.time() - t0)
        if res.violation:
            print("VIOLATION property=%s replay=%s" % (prop, res.violation["replay"]))
            return 1
        print("OK property=%s traces=%d events=%d states=%d wall=%.1fs" % (
            prop, res.traces, res.events, res.states, time.time() - t0))
        return 0
    except Missing as e:
        os.makedirs(EVID, exist_ok=True)
        rp = os.path.join(EVID, "replay-%s.json" % prop)
        json.dump({"property": prop, "missing_functions": e.args[0],
                   "howto": "a C program that calls these functions does not build"}, open(rp, "w"), indent=1)
        res.violation = {"clauses": "P21:function of the C interface is missing: %s" % e.args[0], "replay": rp}
        evidence(prop, tier, seed, res, time.time() - t0)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    except egbuild.BuildError as e:
        print("ERROR (build): %s" % e)
        return 3
    except Exception as e:
        traceback.print_exc()
        print("ERROR: %s" % e)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
