"""The divisor cache of the k-d tree (D07)."""
import run
import props_div
from engine import *
from model import Model
from terms import *


def cache_cell(fs):
    """offset of the remembered divisor: the one pointer member of the finder that a query sets"""
    f = fs.get("vp_root_find")
    if f is None:
        raise AnalysisBroken("no query function")
    offs = set()
    for b in f.blocks:
        for i in b:
            if i["op"] == "store" and i.get("vty") == "ptr":
                d = f.defs.get(i["ptr"])
                if i["ptr"] == "a0":
                    offs.add(0)
                elif d is not None and d["op"] == "getelementptr" and d["base"] == "a0" and not d["idx"]:
                    offs.add(d["off"])
    if len(offs) != 1:
        raise AnalysisBroken("the place where the last divisor is kept was not found: %s" % sorted(offs))
    return offs.pop()


class Cache(props_div.Sound):
    """After an operation that changes what is stored nothing is remembered
    as the divisor of the last query; a query remembers only what it found."""
    prepare = staticmethod(lambda fs, job: cache_cell(fs))

    def __init__(self, root, fs, job, shared):
        props_div.Sound.__init__(self, root, fs, job, shared)
        self.at = shared

    def call(self, eng, st, ins, name, args, res):
        pass

    def start(self, eng, st):
        st.mon["c"] = "kept"

    def dirty(self, eng, st, a):
        b = eng.base_of(eng.norm(st, a))
        if len(b) == 1 and b[0].tag == "al":
            return
        st.mon["d"] = 1

    def before(self, eng, st, ins, name, args):
        if name in ("vpa_E_copy", "vpa_E_assign", "vpa_E_dtor"):
            self.dirty(eng, st, args[0])
        if name in ("vpi_alg_partition", "vpi_alg_sort", "vpi_arena_free_all"):
            st.mon["d"] = 1

    def store(self, eng, st, ins, addr, val):
        if offset_between(addr, mk("a", 0)) != self.at:
            return
        eng.count("cache_updates_checked")
        if val is ZERO or eng.truth(st, EQ0(val)) is True:
            st.mon["c"] = "null"
        else:
            st.mon["c"] = "set"
            st.mon.pop("d", None)
            if self.root.startswith("find") and (val is STALE or not self.confirmed(eng, st, val)):
                eng.report(st, ins, "remembers-unconfirmed",
                           "an entry is remembered as divisor for later queries without having been found to be one")

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        m = st.mon
        if self.root.startswith("remove") and val is not None and val is not STALE and \
                (val is ZERO or not is_int(val) and eng.truth(st, val) is False):
            return          # nothing was removed (that the answer is right is D08)
        if m["c"] == "null" or any(
                f.tag == "f" and f.args[0] == "usecache" and v is False for f, v in st.facts.items()):
            return
        if self.root == "ctor":
            eng.report(st, ins, "cache-not-cleared", "a new finder does not start with nothing remembered")
            return
        if not m.get("d"):
            return
        eng.report(st, ins, "stale-cache",
                   "the stored entries have been changed or moved but the divisor of an earlier query is still "
                   "remembered; the next query may answer with it")


def D07(ctx):
    ctx.rules.append("on every path through an operation of the k-d tree that constructs, assigns, destroys or moves "
                     "stored entries the remembered divisor is reset afterwards (or the configuration does not use "
                     "it); a query stores there only an entry its divisibility test has just confirmed; a new tree "
                     "has none")
    def roots(d):
        r = ["ctor", "find", "findconst", "insert", "insertrange", "rebuild", "clear"]
        if d["REMOVALS"] == "1":
            r += ["removemul", "removemulquiet", "removeelem"]
        return r
    js = props_div.jobs(ctx, "Cache", roots, kinds=(1,))
    for j in js:
        j["monitor"] = "props_cache:Cache"
    run.run(ctx, js)
    ctx.need("configurations", 8)
    ctx.need("cache_updates_checked", 100)
    ctx.need("exits_checked", 100)
    ctx.ob(ctx.counts["cache_updates_checked"] + ctx.counts["exits_checked"])
