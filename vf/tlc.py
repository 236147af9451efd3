"""Runs TLC: exhaustive models, and trace validation in parallel shards."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from .build import BUILD, VERIF, JARS

SPEC = os.path.join(VERIF, "spec")
JOBS = 8
SPECS = {"TraceDist": "DSpec"}


class TLCError(Exception):
    pass


def _java(heap):
    return ["java", "-Xss512m", "-Xmx%s" % heap, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vf.FloatOverrides",
            "-cp", "%s/java:%s" % (BUILD, JARS), "tlc2.TLC", "-noGenerateSpecTE"]


def _cfg(path, spec="Spec", constants=None, invariants=(), properties=(), constraint=None, action_constraint=None,
         view=None, post=None):
    t = ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK FALSE"]
    for k, v in (constants or {}).items():
        t.append("CONSTANT %s %s" % (k, v if v.startswith("<-") else "= " + v))
    t += ["INVARIANT %s" % i for i in invariants] + ["PROPERTY %s" % p for p in properties]
    if constraint: t.append("CONSTRAINT %s" % constraint)
    if action_constraint: t.append("ACTION_CONSTRAINT %s" % action_constraint)
    if view: t.append("VIEW %s" % view)
    if post: t.append("POSTCONDITION %s" % post)
    with open(path, "w") as f:
        f.write("\n".join(t) + "\n")


def _stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model(module, name=None, workers=1, timeout=600, heap="4g", **cfg):
    """Exhaustively checks a model.  Returns dict(states, generated, out, lines) or raises TLCError."""
    d = tempfile.mkdtemp(prefix="mc-%s-" % (name or module), dir=BUILD)
    try:
        c = os.path.join(d, "m.cfg")
        _cfg(c, **cfg)
        r = subprocess.run(_java(heap) + ["-workers", str(workers), "-fp", "1", "-metadir", os.path.join(d, "meta"),
                                          "-config", c, module + ".tla"],
                           cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        gen, dis = _stats(r.stdout)
        if r.returncode != 0 or "Model checking completed. No error" not in r.stdout:
            raise TLCError("model %s: exit %d\n%s" % (name or module, r.returncode, r.stdout[-4000:]))
        return {"states": dis, "generated": gen, "out": r.stdout}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def printed(out, tag):
    """The strings printed by PrintT("<tag> ...")."""
    pre = '"%s ' % tag
    return [l[len(pre):-1].replace('\\"', '"').replace("\\\\", "\\") for l in out.splitlines()
            if l.startswith(pre) and l.endswith('"')]


def _one(module, constants, path, timeout, heap):
    d = tempfile.mkdtemp(prefix="tv-", dir=BUILD)
    try:
        c = os.path.join(d, "t.cfg")
        _cfg(c, spec=SPECS.get(module, "Spec"), constants=constants, post="Accepted")
        r = subprocess.run(_java(heap) + ["-workers", "1", "-fp", "1", "-metadir", os.path.join(d, "meta"), "-config", c,
                                          module + ".tla"], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, env=dict(os.environ, TRACE=path))
        if r.returncode != 0 and "The error occurred when TLC was evaluating" in r.stdout and "StackOverflow" not in r.stdout \
                and "OutOfMemory" not in r.stdout and re.search(r"^/\\ l = \d+", r.stdout, re.M):
            # the event has no meaning in the specification (a missing field, an index outside a sequence, ...)
            l = int(re.findall(r"^/\\ l = (\d+)", r.stdout, re.M)[-1])
            rej = [json.loads(x) for x in printed(r.stdout, "REJECT")]
            return rej + [{"line": l, "names": ["does-not-fit"]}], (l, l)
        if r.returncode != 0:
            raise TLCError("trace %s against %s: exit %d\n%s" % (path, module, r.returncode, r.stdout[-5000:]))
        rej = [json.loads(x) for x in printed(r.stdout, "REJECT")]
        return rej, _stats(r.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, constants, lines, timeout=700, jobs=JOBS, heap="2g", boundary=b'{"op":"reset"'):
    """Validates trace lines (bytes) in shards cut at history boundaries.
    Returns (rejections, states, generated, histories); a rejection is {line (1-based), names}."""
    hist, cur = [], []
    for l in lines:
        if l.startswith(boundary) and cur:
            hist.append(cur); cur = []
        cur.append(l)
    if cur:
        hist.append(cur)
    total = sum(len(x) for h in hist for x in h) or 1
    n = max(1, min(jobs, len(hist), total // 20000 + 1))
    shards, acc, k = [[]], 0, 0
    starts, pos = [0], 0
    for h in hist:
        if acc > total * (len(shards)) / n and len(shards) < n:
            shards.append([]); starts.append(pos)
        shards[-1].extend(h)
        acc += sum(len(x) for x in h); pos += len(h)
    d = tempfile.mkdtemp(prefix="shards-", dir=BUILD)
    try:
        paths = []
        for i, s in enumerate(shards):
            p = os.path.join(d, "%d.ndjson" % i)
            with open(p, "wb") as f:
                f.write(b"".join(s))
            paths.append(p)
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda p: _one(module, constants, p, timeout, heap), paths))
        rej, st, gen = [], 0, 0
        for off, (r, (g, dd)) in zip(starts, res):
            rej += [{"line": x["line"] + off, "names": x["names"]} for x in r]
            st += dd; gen += g
        return rej, st, gen, len(hist)
    finally:
        shutil.rmtree(d, ignore_errors=True)
