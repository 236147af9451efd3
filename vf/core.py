"""The machinery shared by the checks: driving the real code, validating traces, reporting."""
import hashlib, json, os, random, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc

KNOWN = os.path.join(B.VERIF, "known_findings.json")


RESET = b'{"op":"reset"'


# Checks that are cheap explore more than the volumes they name.
SCALE = {p: 3 for p in "C03 C04 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C19 C20 C24 C25 C27".split()}
DEEP = 8            # and so much more than the thorough volumes they name


class CheckError(Exception):
    pass


def histories(script):
    """Cuts a script at its 'reset' commands."""
    out = []
    for l in script:
        if l == "reset" or not out:
            out.append([])
        out[-1].append(l)
    return out


def _watch(cmd, out, log, stall, env, cwd):
    """Runs cmd until it ends or its trace has not grown for `stall` seconds."""
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=cwd)
    size, last, step = -1, time.time(), 0.02
    while True:
        try:
            return p.wait(step)
        except subprocess.TimeoutExpired:
            step = min(0.5, step * 1.5)
        n = os.path.getsize(out)
        if n != size:
            size, last = n, time.time()
        elif time.time() - last > stall:
            p.kill(); p.wait()
            return None


def run_driver(driver, script, stall, env=None, jobs=8):
    """Runs the script on the real code; returns the trace lines (bytes).  Histories are spread over processes.
    A process that ends early, or stops making progress for `stall` seconds, leaves a Crash event that names the history (h)
    it was in and the first history (next) of the process whose trace follows."""
    hs = histories(script)
    if isinstance(driver, str):
        driver = [os.path.join(B.BUILD, driver)]
    n = max(1, min(jobs, len(hs), sum(map(len, hs)) // 40 + 1))
    # contiguous chunks, so that the concatenated trace is in script order
    size = sum(len(h) for h in hs) / n
    chunks, first, acc = [[]], [0], 0
    for i, h in enumerate(hs):
        if acc > size * len(chunks) and len(chunks) < n:
            chunks.append([]); first.append(i)
        chunks[-1] += h
        acc += len(h)
    first.append(len(hs))
    d = tempfile.mkdtemp(prefix="drv-", dir=B.BUILD)
    e = dict(os.environ, OMP_NUM_THREADS="1", OMP_PROC_BIND="false", KOKKOS_DISABLE_WARNINGS="1")
    e.update(env or {})

    def one(i):
        s, o = os.path.join(d, "%d.script" % i), os.path.join(d, "%d.ndjson" % i)
        with open(s, "w") as f:
            f.write("\n".join(chunks[i]) + "\n")
        open(o, "w").close()
        work = os.path.join(d, "w%d" % i); os.makedirs(work)
        end = ""
        with open(os.path.join(d, "%d.log" % i), "w+b") as log:
            rc = _watch(driver + [s, o], o, log, stall, e, work)
            log.seek(max(0, log.seek(0, 2) - 2000)); said = log.read().decode(errors="replace")
        if rc == 3:
            raise CheckError("driver %s: %s" % (driver, said))
        if rc is None:
            end = "no progress for %d s" % stall
        elif rc != 0:
            end = "exit %d: %s" % (rc, said[-600:])
        with open(o, "rb") as f:
            lines = f.readlines()
        if lines and not lines[-1].endswith(b"\n"):
            lines.pop()
        if end:
            seen = sum(l.startswith(RESET) for l in lines)
            lines.append(json.dumps({"op": "Crash", "how": end, "h": first[i] + max(seen, 1) - 1, "next": first[i + 1]}, separators=(",", ":")).encode() + b"\n")
        return lines
    try:
        with ThreadPoolExecutor(len(chunks)) as ex:
            return [l for ls in ex.map(one, range(len(chunks))) for l in ls]
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.states = self.generated = self.traces = self.events = 0
        self.samples, self.assumptions, self.violations, self.known, self.notes = [], [], [], [], {}
        self.models = []
        self.t0 = time.time()
        self.ops = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        """A volume."""
        if self.prop not in SCALE: return thorough if self.thorough else quick
        return thorough * DEEP if self.thorough else min(thorough, quick * SCALE[self.prop])

    def bound(self, quick, thorough):
        """A bound on the size of what is explored."""
        return thorough if self.thorough else quick

    def model(self, module, name=None, **kw):
        t = time.time()
        r = tlc.model(module, name, **kw)
        self.states += r["states"]; self.generated += r["generated"]
        self.models.append({"module": module, "name": name or module, "constants": kw.get("constants"), "distinct_states": r["states"],
                            "states_generated": r["generated"], "invariants": list(kw.get("invariants", ())),
                            "properties": list(kw.get("properties", ())), "seconds": round(time.time() - t, 1)})
        return r

    def conform(self, driver, module, constants, script, stall=100, env=None, jobs=8, label=""):
        """Runs script on the code, validates its trace against the specification, records violations."""
        if self.violations and time.time() - self.t0 > 400:
            return                                      # the verdict stands; leave time to report it
        lines = run_driver(driver, script, stall, env, jobs)
        rej, st, gen, nh = tlc.validate(module, constants, lines, jobs=jobs)
        self.states += st; self.generated += gen; self.traces += nh; self.events += len(lines)
        hs = histories(script)
        for l in lines:
            op = l[7:l.index(b'"', 7)].decode()
            self.ops[op] = self.ops.get(op, 0) + 1
        if len(self.samples) < 6 and len(lines) > 1:
            k = self.rng.randrange(len(lines))
            self.samples.append({"label": label, "script": hs[self.rng.randrange(len(hs))][:12], "event": lines[k].decode()[:600]})
        if not rej:
            return
        # which history is each rejected line in?
        idx, h = [], -1
        for l in lines:
            if l.startswith(RESET):
                h += 1
            idx.append(max(h, 0))
            if l.startswith(b'{"op":"Crash"'):
                c = json.loads(l); idx[-1] = c["h"]; h = c["next"] - 1
        seen = {}
        for r in rej:
            ev = json.loads(lines[r["line"] - 1])
            key = (tuple(sorted(r["names"])), ev.get("op"))
            seen.setdefault(key, []).append((idx[r["line"] - 1], r, ev))
        for key, items in sorted(seen.items(), key=lambda x: str(x[0])):
            kf = self._known(key, items)
            items = [i for i in items if i not in kf]
            if not items:
                continue
            hi, r, ev = items[0]
            sub = hs[hi]
            if not self._again(driver, module, constants, sub, stall, env, jobs, r["names"]):
                sub = script                            # the history alone does not show it: keep everything
                if time.time() - self.t0 > 300 or not self._again(driver, module, constants, sub, stall, env, jobs, r["names"]):
                    self.notes["unrepeatable"] = self.notes.get("unrepeatable", 0) + 1
            self.violations.append(self._save(driver, module, constants, sub, env, r["names"], ev, len(items), label))
            if len(self.violations) >= 8 or time.time() - self.t0 > 600:
                return

    def _again(self, driver, module, constants, script, stall, env, jobs, names):
        lines = run_driver(driver, script, stall, env, jobs)
        return any(set(x["names"]) & set(names) for x in tlc.validate(module, constants, lines, jobs=jobs)[0])

    def _known(self, key, items):
        out = []
        if not os.path.exists(KNOWN):
            return out
        for k in json.load(open(KNOWN))["findings"]:
            if k["property"] != self.prop:
                continue
            for it in items:
                if set(it[1]["names"]) <= set(k["names"]) and all(it[2].get(f) == v for f, v in k.get("event", {}).items()):
                    out.append(it)
                    if k["what"] not in self.known:
                        self.known.append(k["what"])
        return out

    def _save(self, driver, module, constants, script, env, names, ev, n, label):
        d = os.path.join(B.BUILD, "replay"); os.makedirs(d, exist_ok=True)
        data = {"property": self.prop, "driver": driver, "module": module, "constants": constants, "script": script,
                "env": env, "names": names, "event": ev, "count": n, "label": label}
        h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        return {"replay": p, "names": names, "op": ev.get("op"), "event": json.dumps(ev)[:1500], "count": n}

    def evidence(self, level="model_checking"):
        d = os.path.join(B.VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.generated, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "events_by_operation": dict(sorted(self.ops.items())), "models": self.models,
               "samples": self.samples}
        cov.update(self.notes)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
                       "violations": len(self.violations)}, f, indent=1)


def fl(x):
    """A float for a script line: exact."""
    return float(x).hex() if x == x and abs(x) != float("inf") else repr(float(x))
