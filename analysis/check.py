"""Driver: python3 analysis/check.py <property> [--tier quick|thorough]

exit 0: the property holds on everything analysed (known findings are printed)
exit 1: VIOLATION lines
exit 2: the analysis could not decide (never counts as a pass)
"""
import collections
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from engine import AnalysisBroken

ROOT = build.ROOT
MODULES = {}
for mod, ids in (
        ("props_div", "D01 D04 D05"),
        ("props_cache", "D07"),
        ("props_remove", "D08"),
        ("props_insert", "D06"),
        ("props_list", "D09"),
        ("props_mask", "D02"),
        ("props_queue", "Q01 Q02"),
        ("props_tour", "Q04 Q05"),
        ("props_pair", "P01 P02 P03 P04 P05 P06"),
        ("props_hash", "H01 H02"),
        ("props_api", "A01 A02 A03 C04"),
        ("props_cli", "C01 C02 C03")):
    for i in ids.split():
        MODULES[i] = mod


class Ctx(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.counts = collections.defaultdict(int)
        self.obligations = 0
        self.discharged = 0
        self.assumptions = []
        self.rules = []
        self.analysed = []
        self._seen = set()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, n=1, ok=True):
        self.obligations += n
        if ok:
            self.discharged += n

    def report(self, rule, where, message, path=(), config="", function=""):
        k = (rule, where)
        if k in self._seen:
            return
        self._seen.add(k)
        self.violations.append({"property": self.pid, "rule": rule, "where": where,
                                "message": message, "path": list(path), "config": config,
                                "function": function})

    def need(self, k, n=1):
        """fail when fewer instances than expected were analysed"""
        if self.counts.get(k, 0) < n:
            raise AnalysisBroken("only %d instances of '%s' were found (at least %d expected): "
                                 "the analysed constructs are missing" % (self.counts.get(k, 0), k, n))


def known(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[len("finding:"):].split(" ", 3)[:4] if "=" in x)
                if d.get("property") == pid:
                    out[(d.get("rule"), d.get("where"))] = l
    return out


def main(argv):
    pid = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        build.tool()
        m = importlib.import_module(MODULES[pid])
        getattr(m, pid)(ctx)
        if not ctx.obligations:
            raise AnalysisBroken("no obligations were generated")
    except (AnalysisBroken, build.CompileError) as e:
        if not ctx.violations:
            sys.stderr.write("NO-ANSWER property=%s: %s\n" % (pid, e))
            return 2
        sys.stderr.write("note: analysis incomplete: %s\n" % e)
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            return 2
    kn = known(pid)
    new = []
    hit = set()
    for v in ctx.violations:
        k = (v["rule"], v["where"])
        if k in kn:
            if k not in hit:
                print("KNOWN-FINDING: property=%s %s at %s" % (pid, v["rule"], v["where"]))
            hit.add(k)
        else:
            new.append(v)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {
        "obligations": ctx.obligations, "discharged": ctx.obligations - len(ctx.violations)
        if ctx.discharged == ctx.obligations else ctx.discharged,
        "checker_cmd": "python3 analysis/check.py %s --tier %s" % (pid, tier),
        "trusted_base": ctx.trusted if hasattr(ctx, "trusted") else
        ["clang 18 front end and IR generation", "the analyser in /verif/analysis",
         "the documented meaning of the standard library and memtailor calls (harness/shadow.h)"],
        "rules": ctx.rules, "measured": ctx.counts, "analysed": ctx.analysed[:400],
        "explanation": "static analysis of the sources under " + build.REPO + " as found on this run",
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": getattr(ctx, "level", "proof"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": ctx.assumptions}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(ROOT, "evidence", pid + ".violations.json")
        json.dump(new, open(rp, "w"), indent=1)
        for v in new:
            print("%s: %s: %s" % (v["where"], v["rule"], v["message"]))
            if v["config"] or v["function"]:
                print("  in %s [%s]" % (v["function"], v["config"]))
            for s in v["path"][-12:]:
                print("    " + s)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d wall=%.1fs %s" % (
        pid, ctx.obligations, time.time() - t0,
        " ".join("%s=%s" % x for x in sorted(ctx.counts.items())[:12])))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
