"""Runs one property's check: design model checking, behaviours generated from the
specification and random histories, executed on the library, validated against the
specification.  Exit 0 / 1 (+ VIOLATION line); anything else means 'no verdict'."""
import os, sys, json, time, random, traceback, subprocess
import vcommon
from vcommon import Machinery, Scratch, VERIF, EVID

KNOWN = os.path.join(VERIF, "known_findings.json")


class Suite:
    """cases(ctx) -> list of {"id","ops",...}; post(trace) -> trace (facts extraction)"""
    def __init__(self, sub, module, cases, post=None, cfg=None, timeout=20, flavor="std", note=""):
        self.sub, self.module, self.cases, self.post = sub, module, cases, post
        self.cfg, self.timeout, self.flavor, self.note = cfg, timeout, flavor, note


class Model:
    def __init__(self, module, cfg=None, thorough_cfg=None, timeout=300, what="", env=None):
        self.module, self.cfg, self.tcfg, self.timeout, self.what = module, cfg, thorough_cfg, timeout, what
        self.env = env


class Prop:
    def __init__(self, pid, suites, models=(), level="model_checking", assumptions=()):
        self.pid, self.suites, self.models, self.level, self.assumptions = pid, suites, models, level, assumptions


class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.thorough = tier == "thorough"
        self.gen_states = 0
        self.gen_transitions = 0

    def rng(self, salt):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, salt))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def behaviours(self, module, **kw):
        hs, (g, d) = vcommon.generate(module, seed=self.seed, **kw)
        self.gen_states += d
        self.gen_transitions += g
        return hs


def known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k.get("property") == pid and k.get("status") == "known"]


def short(o, n=300):
    s = json.dumps(o)
    return s if len(s) <= n else s[:n] + "..."


def execute(suite, cases, ctx):
    traces = vcommon.drive(suite.sub, cases, ctx.scratch, suite.timeout, suite.flavor)
    if suite.post:
        traces = [suite.post(t) for t in traces]
    return traces


def run(prop, tier, seed):
    t0 = time.time()
    scratch = Scratch()
    ctx = Ctx(prop.pid, tier, seed, scratch)
    violations, kf, cov, samples = [], [], {}, []
    states = trans = validated = 0
    events = 0
    replay_dir = os.path.join(EVID, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    for f in os.listdir(replay_dir):
        if f.startswith(prop.pid + "-"):
            os.unlink(os.path.join(replay_dir, f))
    try:
        models = []
        for m in prop.models:
            cfg = m.tcfg if (tier == "thorough" and m.tcfg) else m.cfg
            g, d = vcommon.model_check(m.module, cfg, m.timeout if tier == "quick" else 3 * m.timeout, env=m.env)
            states += d
            trans += g
            models.append({"model": m.module, "config": cfg or m.module + ".cfg", "distinct_states": d, "transitions": g, "checks": m.what})
        kn = known(prop.pid)
        suites = []
        for si, suite in enumerate(prop.suites):
            cases = suite.cases(ctx)
            for i, c in enumerate(cases):
                c["id"] = i + 1
            known_cases = [k for k in kn if k.get("suite") == si]
            traces = execute(suite, cases, ctx)
            res = vcommon.validate(suite.module, traces, scratch, suite.cfg)
            states += res.states
            trans += res.transitions
            validated += res.validated
            events += sum(len(t["ev"]) for t in traces)
            suites.append({"driver": suite.sub, "trace_spec": suite.module, "cases": len(cases),
                           "events": sum(len(t["ev"]) for t in traces), "rejected": len(res.rejected),
                           "operations": opcount(traces), "what": suite.note})
            if traces:
                samples.append({"suite": suite.module, "case": json.loads(short_case(cases[0]))})
            reported = 0
            for (i, reached, note) in res.rejected[:6]:
                # confirm: the same case on its own must be rejected again
                t2 = execute(suite, [cases[i]], ctx)
                r2 = vcommon.validate(suite.module, t2, scratch, suite.cfg, shards=1)
                if not r2.rejected:
                    raise Machinery("rejection of case %d of %s did not reproduce" % (i, suite.module))
                (_, reached, note) = r2.rejected[0]
                ev = t2[0]["ev"][reached - 1] if 0 < reached <= len(t2[0]["ev"]) else None
                path = os.path.join(replay_dir, "%s-%d-%d.json" % (prop.pid, si, i))
                with open(path, "w") as f:
                    json.dump({"property": prop.pid, "suite": si, "driver": suite.sub, "trace_spec": suite.module,
                               "case": cases[i], "rejected_event_index": reached, "rejected_event": ev, "note": note}, f, indent=1)
                violations.append((path, reached, ev, note))
                reported += 1
            if len(res.rejected) > reported:
                violations.append((None, 0, None, "%d further rejections of %s" % (len(res.rejected) - reported, suite.module)))
            # listed findings: executed on their own, must still fail (else the entry is stale)
            for k in known_cases:
                c = dict(k["case"], id=1)
                t2 = execute(suite, [c], ctx)
                r2 = vcommon.validate(suite.module, t2, scratch, suite.cfg, shards=1)
                if r2.rejected:
                    kf.append("KNOWN-FINDING: property=%s %s" % (prop.pid, k["what"]))
        cov = {"states": states + ctx.gen_states, "transitions": trans + ctx.gen_transitions,
               "traces_validated_against_impl": validated, "events_validated": events,
               "models": models, "suites": suites, "samples": samples[:6]}
        ev = {"property": prop.pid, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
              "assumptions": list(prop.assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        tmp = os.path.join(EVID, prop.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(EVID, prop.pid + ".json"))
        for line in kf:
            print(line)
        print("%s: %d states, %d transitions, %d traces (%d events) validated, %d rejected, %.1fs" %
              (prop.pid, cov["states"], cov["transitions"], validated, events, len(violations), time.time() - t0))
        for path, reached, e, note in violations:
            if path:
                print("VIOLATION property=%s replay=%s" % (prop.pid, path))
                print("   event %d: %s %s" % (reached, short(e, 600), note))
            else:
                print("   " + note)
        return 1 if violations else 0
    finally:
        scratch.close()


def opcount(traces):
    c = {}
    for t in traces:
        for e in t["ev"]:
            k = e.get("op", "?") + ("!" if e.get("err") else "")
            c[k] = c.get(k, 0) + 1
    return c


def short_case(c):
    s = json.dumps(c)
    if len(s) <= 1500:
        return s
    return json.dumps({"id": c.get("id"), "truncated": s[:1200]})
