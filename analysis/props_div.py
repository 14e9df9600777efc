"""Properties of the divisor finders."""
import run
import cover
from engine import *
from model import Model
from terms import *


def configs(tier="thorough"):
    out = []
    for mask in (0, 1):
        for linked in (0, 1):
            out.append((0, "KIND=0 MASK=%d TREEMASK=0 PACKED=0 LEAF=1 REMOVALS=1 LINKED=%d" % (mask, linked)))
    for packed in (0, 1):
        for mask, tree in ((0, 0), (1, 0), (1, 1)):
            for leaf in (1, 2):
                for rem in (0, 1):
                    out.append((1, "KIND=1 MASK=%d TREEMASK=%d PACKED=%d LEAF=%d REMOVALS=%d LINKED=0"
                                % (mask, tree, packed, leaf, rem)))
    if tier == "quick":
        # every value of every switch, and every pair that meets in one template
        q = []
        for k, c in out:
            d = dict(x.split("=") for x in c.split())
            if k == 0 or (d["MASK"], d["TREEMASK"], d["REMOVALS"]) in (("1", "1", "1"), ("0", "0", "0")) or \
                    (d["MASK"], d["TREEMASK"], d["REMOVALS"], d["LEAF"]) == ("1", "0", "1", "2"):
                q.append((k, c))
        return q
    return out


HEAVY = ("removemul", "removemulquiet", "removeelem", "insert", "insertrange")


def label(c):
    d = dict(x.split("=") for x in c.split())
    if d["KIND"] == "0":
        return "DivList masks=%s %s" % (d["MASK"], "linked list" if d["LINKED"] == "1" else "array")
    return "KDTree %s masks=%s tree-masks=%s leaf=%s removals=%s" % (
        "packed" if d["PACKED"] == "1" else "binary", d["MASK"], d["TREEMASK"], d["LEAF"], d["REMOVALS"])


def jobs(ctx, monitor, roots, kinds=(0, 1), filt=None, norebuild=False, **kw):
    out = []
    for k, c in configs(ctx.tier):
        if k not in kinds:
            continue
        d = dict(x.split("=") for x in c.split())
        if filt and not filt(d):
            continue
        rs = [r for r in roots(d) if r]
        if ctx.tier == "quick" and "removemul" in rs and "removemulquiet" in rs:
            rs.remove("removemulquiet")
        heavy = [[r] for r in rs if k and r in HEAVY]
        for rs in heavy + [[r for r in rs if not (k and r in HEAVY)]]:
            if not rs:
                continue
            j = dict(src="h_div.cpp", defs=c.split() + (["NOREBUILD"] if norebuild else []), roots=rs, monitor="props_div:" + monitor,
                     label=label(c), cfg=d)
            j.update(kw)
            out.append(j)
    # the big ones first
    out.sort(key=lambda j: (j["roots"][0] in HEAVY, j["cfg"]["KIND"], j["cfg"]["REMOVALS"], j["cfg"]["TREEMASK"],
                            j["cfg"]["LEAF"], j["roots"][0] != "insert"), reverse=True)
    return out


def query_roots(d):
    r = ["find", "findconst", "alldiv", "alldivconst", "allmul", "allmulconst"]
    if d["KIND"] == "0":
        r.append("findit")
    if d["REMOVALS"] == "1":
        r += ["removemul"]
    return r


# ---------------------------------------------------------------- D01
class Sound(Monitor):
    """Every answer handed out has been confirmed by the configuration's own
    divisibility test on exactly that element and the query."""

    def __init__(self, root, fs, job, shared):
        self.root = root
        self.div = not ("mul" in root)

    def merge_extra(self, eng, st):
        return frozenset(f for f, v in st.facts.items() if v and f.tag == "f" and f.args[0] == "divides")

    def confirmed(self, eng, st, e):
        c = eng.content(st, e)
        q = None
        for f, v in st.facts.items():
            if v and f.tag == "f" and f.args[0] == "divides":
                x, y = f.args[1:3]
                if not self.div:
                    x, y = y, x
                if x is c and self.is_query(eng, st, y):
                    return True
        # the same element under another name
        for f, v in st.facts.items():
            if v and f.tag == "f" and f.args[0] == "divides":
                x, y = f.args[1:3]
                if not self.div:
                    x, y = y, x
                if not self.is_query(eng, st, y):
                    continue
                if x.tag == "c" and c.tag == "c" and x.args[1] is c.args[1] and \
                        eng.truth(st, EQ(x.args[0], c.args[0])) is True:
                    return True
        return False

    def is_query(self, eng, st, t):
        # loaded from the monomial the caller passed
        if t.tag == "v":
            i = eng.fn.defs.get(t.args[0])
            return i is not None and i["op"] == "load" and i["ptr"] == "a1"
        return t.tag == "c" and t.args[0] is mk("a", 1)

    def call(self, eng, st, ins, name, args, res):
        if name in ("vpi_proceed", "vpi_pushback"):
            eng.count("reported_elements_checked")
            if not self.confirmed(eng, st, args[1]):
                eng.report(st, ins, "unconfirmed-report",
                           "an element is reported that the configuration was not asked about: no test "
                           "that this element %s the query is known to have succeeded here" %
                           ("divides" if self.div else "is a multiple of"))

    def ret(self, eng, st, ins, val):
        if not self.root.startswith("find"):
            return
        if val is None:
            raise AnalysisBroken("no result")
        if val is ZERO or eng.truth(st, EQ0(val)) is True:
            return
        eng.count("returned_elements_checked")
        if val is STALE or not self.confirmed(eng, st, val):
            eng.report(st, ins, "unconfirmed-result",
                       "an element is returned for which no successful divisibility test with the query is known")


def D01(ctx):
    ctx.rules.append("every element returned by findDivisor or handed to an output object of findAllDivisors, "
                     "findAllMultiples or removeMultiples carries a successful divides() outcome of the "
                     "configuration for exactly that element and the query on every path")
    res = run.run(ctx, jobs(ctx, "Sound", query_roots))
    ctx.need("configurations", 14)
    ctx.need("reported_elements_checked", 14)
    ctx.need("returned_elements_checked", 14)
    ctx.ob(ctx.counts["reported_elements_checked"] + ctx.counts["returned_elements_checked"])


# ---------------------------------------------------------------- D05
class Stop(Monitor):
    """After an output object has asked to stop nothing more is reported, and
    the traversal leaves no work behind for the next query."""

    def __init__(self, root, fs, job, shared):
        self.root = root

    def call(self, eng, st, ins, name, args, res):
        if name == "vpi_proceed":
            eng.count("report_calls_checked")
            if st.mon.get("stopped"):
                eng.report(st, ins, "reports-after-stop",
                           "an element is reported although an earlier proceed() returned false")
            s = eng.norm(st, res)
            st.mon["pr"] = st.mon.get("pr", frozenset()) | {res}
        if name == "vpi_vec_pushp":
            v = eng.norm(st, args[0])
            if any(a.tag == "al" for a, k in lin(v)[1]):
                return          # a local variable does not survive the call
            st.mon["stacks"] = st.mon.get("stacks", frozenset()) | {v}
            eng.count("stack_pushes_checked")
        if name.startswith("vpi_vec_"):
            # emptiness as known now; later branches may refine it
            v = eng.norm(st, args[0])
            st.mon["empty"] = frozenset((w, self.empty(eng, st, w) if eng.alias(st, v, None, w, None) != "no" else e)
                                        for w, e in st.mon.get("empty", ()))
        self.sync(eng, st)

    def sync(self, eng, st):
        s = st.mon.get("stacks")
        if s:
            old = dict(st.mon.get("empty", ()))
            new = {}
            for v in s:
                e = self.empty(eng, st, v)
                new[v] = old.get(v) if e is None else e
            st.mon["empty"] = frozenset(new.items())
        pr = st.mon.get("pr")
        if pr:
            keep = set()
            for t in pr:
                v = eng.truth(st, t) if t is not STALE else None
                if v is False:
                    st.mon["stopped"] = 1
                elif v is None and t is not STALE:
                    keep.add(t)
            if keep:
                st.mon["pr"] = frozenset(keep)
            else:
                del st.mon["pr"]

    def empty(self, eng, st, v):
        return eng.truth(st, EQ(eng.model.vbegin(*eng.model.ver(eng, st, v)),
                                eng.model.vend(*eng.model.ver(eng, st, v))))

    def branch(self, eng, st, ins, cond, val):
        self.sync(eng, st)

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        for v, e in st.mon.get("empty", ()):
            if e is not True:
                eng.report(st, ins, "leftover-work",
                           "the traversal returns while its stack of pending nodes may still hold nodes; "
                           "the next traversal would resume from them")


def D05(ctx):
    ctx.rules.append("proceed() == false is an absorbing state: no further proceed() on any path from it; at "
                     "every return the pending-node stack is known to be empty")
    def roots(d):
        r = query_roots(d) + ["forall", "forallconst", "insert"]
        if d["REMOVALS"] == "1":
            r += ["removemulquiet", "removeelem"]
        return r
    run.run(ctx, jobs(ctx, "Stop", roots))
    ctx.need("configurations", 14)
    ctx.need("report_calls_checked", 100)
    ctx.need("stack_pushes_checked", 100)
    ctx.ob(ctx.counts["report_calls_checked"] + ctx.counts["exits_checked"])


# ---------------------------------------------------------------- D04
class Cover(cover.Cover):
    pass


cover.Cover.MODEL = Model


def D04(ctx):
    ctx.rules.append("coverage typestate of every traversal: a node is left only when each subtree is scheduled or "
                     "excused by its split or mask and each entry has been tested or excused by mask or sort order; "
                     "popped nodes are looked at; hits are handed out")
    def roots(d):
        r = query_roots(d) + ["forall", "forallconst"]
        return r
    run.run(ctx, jobs(ctx, "Cover", roots, norebuild=True))
    ctx.need("configurations", 14)
    ctx.need("elements_checked", 100)
    ctx.ob(ctx.counts["elements_checked"] + ctx.counts["exits_checked"])
