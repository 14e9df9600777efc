"""Runs monitors over the entry points of harness files in parallel."""
import gc
import importlib
import resource
import concurrent.futures
import concurrent.futures.process
import build
from engine import Engine, AnalysisBroken
from model import Model


MEMORY = 5 << 30        # bytes per process


def _job(job):
    """job: dict(src, defs, roots, monitor 'mod:cls', kw, eh, model)"""
    out = {"label": job["label"], "reports": [], "events": {}, "stats": {}, "roots": [], "error": None}
    gc.disable()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    try:
        fs = build.module(job["src"], job["defs"], eh=job.get("eh", False), opt=job.get("opt", "-O1"),
                          extra=job.get("extra", ()))
        mod, cls = job["monitor"].split(":")
        cls = getattr(importlib.import_module(mod), cls)
        mdl = Model
        if job.get("model"):
            mm, mc = job["model"].split(":")
            mdl = getattr(importlib.import_module(mm), mc)
        prep = getattr(cls, "prepare", None)
        shared = prep(fs, job) if prep else {}
        names = [n for n in sorted(fs) if n.startswith("vp_root_")]
        want = job.get("roots")
        if want is not None:
            missing = [n for n in want if "vp_root_" + n not in fs]
            if missing:
                raise AnalysisBroken("missing entry points " + ",".join(missing))
            names = ["vp_root_" + n for n in want]
        for n in names:
            mon = cls(n[len("vp_root_"):], fs, job, shared)
            e = Engine(fs[n], mon, mdl(), job["label"])
            try:
                e.run()
            except AnalysisBroken:
                out["reports"].extend(e.reports.values())
                raise
            fin = getattr(mon, "finish", None)
            if fin:
                fin(e)
            out["roots"].append(n)
            out["reports"].extend(e.reports.values())
            for k, v in e.events.items():
                out["events"][k] = out["events"].get(k, 0) + v
            for k, v in e.stats.items():
                out["stats"][k] = out["stats"].get(k, 0) + v
    except (AnalysisBroken, build.CompileError) as x:
        out["error"] = "%s [%s]" % (x, job["label"])
    except Exception:
        import traceback
        out["error"] = "%s [%s]" % (traceback.format_exc(), job["label"])
    return out


def run(ctx, jobs, rules=None):
    """rules: only these rules count for the property"""
    with concurrent.futures.ProcessPoolExecutor(min(8, max(1, len(jobs)))) as p:
        try:
            res = list(p.map(_job, jobs))
        except concurrent.futures.process.BrokenProcessPool:
            raise AnalysisBroken("an analysis process died")
    err = None
    labels = set()
    for r in res:
        if r["error"]:
            err = err or r["error"]
        for n in r["roots"]:
            ctx.analysed.append(r["label"] + ":" + n)
        labels.add(r["label"])
        ctx.count("entry_points", len(r["roots"]))
        for k, v in r["stats"].items():
            ctx.count(k, v)
        for k, v in r["events"].items():
            ctx.count(k, v)
        for v in r["reports"]:
            if rules is not None and v["rule"] not in rules:
                continue
            ctx.report(v["rule"], v["where"], v["message"], v["path"], v["config"], v["function"])
    ctx.count("configurations", len(labels))
    if err and not ctx.violations:
        raise AnalysisBroken(err)
    return res
