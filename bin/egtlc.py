"""Running TLC on the specification modules."""
import os
import re
import shutil
import subprocess
import tempfile

import egbuild

VERIF = egbuild.VERIF
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, cfg, props=None, workers=8, timeout=800, extra=None, heap="6g"):
    """Runs TLC; cfg is the text of the configuration. Returns (returncode, output)."""
    work = tempfile.mkdtemp(prefix="egtlc-")
    try:
        cfgf = os.path.join(work, module + ".cfg")
        open(cfgf, "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", egbuild.classes() + ":" + JARS,
               "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + work]
        for k, v in (props or {}).items():
            cmd.append("-D%s=%s" % (k, v))
        cmd += ["tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE",
                "-config", cfgf] + (extra or []) + [os.path.join(SPEC, module + ".tla")]
        env = dict(os.environ)
        env.setdefault("VERIF_SEED", "1")
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=work, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on " + module)
        text = "\n".join(x for x in (r.stdout + r.stderr).split("\n") if not x.startswith("Loading "))
        return r.returncode, text
    finally:
        shutil.rmtree(work, ignore_errors=True)


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


def generate(module, out, want, tier, seed, timeout=600, extra=None):
    p = {"eg.out": out, "eg.want": want, "eg.tier": tier, "VERIF_SEED": seed}
    p.update(extra or {})
    rc, text = run(module, "", p, workers=1, timeout=timeout)
    if rc != 0 or not os.path.exists(out):
        raise TlcError("generation with %s failed (rc %d)\n%s" % (module, rc, text[-3000:]))


TRACE_CFG = """INIT Init
NEXT Next
INVARIANT Accepted
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
"""


class Verdict:
    def __init__(self, ok, states, transitions, tr=None, pos=None, why=None, text=""):
        self.ok, self.states, self.transitions = ok, states, transitions
        self.tr, self.pos, self.why, self.text = tr, pos, why, text


def validate(module, trace, prop, timeout=800, extra=None):
    p = {"eg.trace": trace, "eg.prop": prop}
    p.update(extra or {})
    rc, text = run(module, TRACE_CFG, p, timeout=timeout)
    d, g = stats(text)
    if rc == 0:
        return Verdict(True, d, g, text=text)
    if "Invariant Accepted is violated" in text:
        tr = re.findall(r"/\\ tr = (\d+)", text)
        pos = re.findall(r"/\\ l = (\d+)", text)
        why = re.findall(r"/\\ why = (\{.*?\})\s*(?:\n/\\|\n\n|\Z)", text, re.S)
        if tr and pos and why:
            return Verdict(False, d, g, int(tr[-1]), int(pos[-1]), " ".join(why[-1].split()), text)
    m = re.search(r"The error occurred when TLC was evaluating|TLC threw an unexpected exception|attempted to ", text)
    if m and "java.lang.OutOfMemory" not in text and "StackOverflow" not in text:
        # a recorded value for which the clauses have no meaning: the event is not one of the specification
        tr = re.findall(r"/\\ tr = (\d+)", text)
        pos = re.findall(r"/\\ l = (\d+)", text)
        if tr and pos:
            reason = re.search(r"Error: (?!The behavior)(.*(?:\n(?!Error|\n).*){0,6})", text)
            return Verdict(False, d, g, int(tr[-1]), int(pos[-1]) + 1,
                           "{recorded value outside the specification: %s}" % (" ".join(reason.group(1).split())[:300] if reason else ""), text)
    raise TlcError("TLC failed on %s (rc %d)\n%s" % (module, rc, text[-9000:]))


def model_check(module, cfg, props=None, timeout=800, extra=None, workers=8, heap="12g"):
    rc, text = run(module, cfg, props, workers=workers, timeout=timeout, extra=extra, heap=heap)
    d, g = stats(text)
    if rc != 0:
        raise TlcError("model %s: rc %d\n%s" % (module, rc, text[-9000:]))
    return d, g, text
