"""Context object handed to every check: accumulates coverage, decides, reports."""
import json, os, random, shutil, sys, time
import vlib
from vlib import Infra, log


class Violation(Exception):
    def __init__(self, replay):
        self.replay = replay


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.work = os.path.join(vlib.BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "model_states": 0, "model_transitions": 0, "trace_events": 0, "runs": []}
        self.assumptions = []
        self.known = load_known(pid)
        self.n = 0

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def sub(self, name):
        self.n += 1
        d = os.path.join(self.work, "%02d-%s" % (self.n, name))
        os.makedirs(d, exist_ok=True)
        return d

    # --- the specification alone ------------------------------------------------
    def model(self, module, cfg, name="model", timeout=600, workers=vlib.NCPU, args=(), heap="6g"):
        r = vlib.model_check(module, cfg, self.sub(name), workers=workers, timeout=timeout, args=args, heap=heap)
        self.cov["model_states"] += r.distinct
        self.cov["model_transitions"] += r.generated
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["runs"].append({"module": module, "distinct": r.distinct, "generated": r.generated,
                                 "depth": r.depth})
        return r

    # --- the code against the specification -------------------------------------
    def conform(self, driver, module, lines, name="trace", reset=("new",), timeout=None, consts="", chunk=None,
                env=None, ntraces=None, heap="2g", flags=vlib.ASAN, tag="", vtimeout=700):
        exe = vlib.build(driver, flags, tag)
        timeout = timeout or self.pick(120, 300)
        d = self.sub(name)
        script = os.path.join(d, "script")
        with open(script, "w") as f:
            f.write("\n".join(lines) + "\n")
        trace = os.path.join(d, "trace.ndjson")
        rc = vlib.run_driver(exe, script, trace, timeout=timeout, env=env)
        if rc != 0:   # crash or hang: only believed if it happens again
            log("running the driver again")
            rc2 = vlib.run_driver(exe, script, trace, timeout=timeout * 2, env=env)
            if rc2 != 0:
                log("repeated")
        nev = sum(1 for _ in open(trace))
        if nev == 0:
            raise Infra("driver %s recorded nothing" % driver)
        v = vlib.validate(module, trace, d, reset=reset, consts=consts, chunk=chunk, heap=heap, timeout=vtimeout)
        nt = ntraces if ntraces is not None else sum(
            1 for l in open(trace) if reset is None or any(l.startswith('{"e":"%s"' % x) for x in reset))
        self.cov["traces_validated_against_impl"] += nt
        self.cov["trace_events"] += v.events
        self.cov["states"] += v.states
        self.cov["transitions"] += v.events
        self.cov["runs"].append({"module": module, "driver": driver, "events": v.events, "traces": nt})
        with open(trace) as f:
            ls = f.readlines()
        for i in sorted({0, len(ls) // 2}):
            if len(self.cov["samples"]) < 8:
                self.cov["samples"].append(ls[i].strip()[:400])
        if not v.ok:
            f, got, tl, err = v.bad
            ok2, got2, _, err2 = vlib.validate_one(module, f, f + ".again", consts, vtimeout, heap)
            if ok2 or got2 != got:
                raise Infra("rejection of %s not repeatable (%s/%s)" % (f, got, got2))
            start = got
            while start > 0 and reset is not None and not any(
                    tl[start].startswith('{"e":"%s"' % x) for x in reset):
                start -= 1
            if reset is None:
                start = got
            rdir = os.path.join(vlib.VERIF, "evidence")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s.replay" % self.pid)
            with open(rp, "w") as g:
                g.write("# property %s: the recorded behaviour of the code below is not one of %s.tla\n" %
                        (self.pid, module))
                g.write("# driver %s, seed %s, tier %s; the LAST line is the event no action allows.\n" %
                        (driver, self.seed, self.tier))
                for l in tl[start:got + 1]:
                    g.write(l + "\n")
                if err:
                    g.write("# TLC: " + err.replace("\n", "\n# ") + "\n")
            log("rejected event: " + (tl[got] if got < len(tl) else "?")[:1500])
            raise Violation(os.path.relpath(rp, vlib.VERIF))
        return trace

    def finish(self, violations):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(vlib.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def load_known(pid):
    p = os.path.join(vlib.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l.strip())
    return out
