"""Properties of the priority queues."""
import run
from engine import *
from model import Model
from terms import *


class QModel(Model):
    relations = {"vpra_compare_EE": ("compare", "EE-"), "vpra_cmplt": ("cmplt", "I-"),
                 "vpra_cmpeq": ("cmpeq", "I-")}

    def call(self, eng, st, ins, name, args):
        if name == "vpi_dedup":
            x, y = eng.content(st, args[1]), eng.content(st, args[2])
            tok = mk("v", uid(ins))
            eng.retire(st, tok)
            eng.set_content(st, ins, args[0], tok)
            return None
        if name.startswith("_ZN6mathic"):
            # a recursive call changes the objects it is given
            eng.count("recursive_calls")
            bases = set(b for a in args for b in eng.base_of(a))
            for a in list(st.mem):
                if not bases.isdisjoint(eng.base_of(a)):
                    del st.mem[a]
            return None
        return Model.call(self, eng, st, ins, name, args)


# ------------------------------------------------------------------ Heap
class LoadSpy(Monitor):
    def __init__(self):
        self.loads = set()
        self.copies = set()

    def load(self, eng, st, ins, addr, val):
        if addr.tag == "a" or addr.tag == "+":
            o = offset_between(addr, mk("a", 0))
            if o is not None:
                self.loads.add((o, ins["ty"]))

    def call(self, eng, st, ins, name, args, res):
        if name == "vpa_E_copy":
            self.copies.add(args[1])


def layout(fs, job):
    """which fields hold the array, the last leaf and the unit of an index,
    learned from size() and top()"""
    s = LoadSpy()
    Engine(fs["vp_root_empty"], s, QModel(), job["label"]).run()
    ints = [o for o, t in s.loads if t != "ptr"]
    t = LoadSpy()
    Engine(fs["vp_root_top"], t, QModel(), job["label"]).run()
    ptrs = [o for o, ty in t.loads if ty == "ptr"]
    if len(ints) != 1 or len(ptrs) != 1 or not t.copies:
        raise AnalysisBroken("cannot tell the fields of the heap apart: %s %s" % (s.loads, t.loads))
    c = [x for x in t.copies if not eng_private(x)]
    root = set(lin(x)[0] for x in c)
    if len(root) != 1:
        raise AnalysisBroken("cannot find the root slot")
    es = 8
    U = 8 if job["cfg"]["FAST"] == "1" else 1
    return {"last": ints[0], "array": ptrs[0], "root": root.pop() // 8 * U, "U": U, "S": es}


def eng_private(a):
    return any(x.tag in ("al", "a") for x, k in lin(a)[1] if k == 1)


class HeapMon(Monitor):
    """Common part: slots of the tree by index."""
    prepare = staticmethod(layout)

    def __init__(self, root, fs, job, shared):
        self.root = root
        self.L = shared
        self.U = shared["U"]

    def last(self, eng, st):
        a = addc(mk("a", 0), self.L["last"])
        v = st.mem.get(a)
        return v[0] if v else None

    def idx(self, eng, st, addr):
        """index of the slot at addr, or None"""
        a = addc(mk("a", 0), self.L["array"])
        v = st.mem.get(a)
        if v is None or addr is STALE:
            return None
        raw = addr
        d = sub(raw, eng.norm(st, v[0]))
        d2 = sub(eng.norm(st, raw), eng.norm(st, v[0]))
        base = [x for x, k in lin(eng.norm(st, v[0]))[1] if k == 1]
        for e in (sub(raw, v[0]), d2):
            if not any(x in base for x, k in lin(e)[1]) and \
                    not any(x.tag in ("al", "a") for x, k in lin(e)[1]):
                if self.U == 8:
                    return e
                c, items = lin(e)
                if c % 8 == 0 and all(k % 8 == 0 for _, k in items):
                    return unlin(c // 8, {x: k // 8 for x, k in items})
        return None

    def srcaddr(self, eng, st, addr):
        """the slot that an entry comes from, also when it came by way of a local copy"""
        if self.idx(eng, st, addr) is None:
            X = eng.content(st, addr)
            if X.tag == "c" and eng.content(st, X.args[0]) is X:
                i, last = self.idx(eng, st, X.args[0]), self.last(eng, st)
                if i is not None and last is not None:
                    d = eng.norm(st, sub(i, last))
                    if not (is_int(d) and d.args[0] > 0):
                        return X.args[0]
        return addr

    def srcidx(self, eng, st, addr):
        return self.idx(eng, st, self.srcaddr(eng, st, addr))

    def merge_extra(self, eng, st):
        x = set(st.eqs.items())
        hs = set(st.mon.get("H") or ())
        for k in ("hole", "placed"):
            if isinstance(st.mon.get(k), Term):
                hs.add(st.mon[k])
        ls = set()
        for h in hs:
            ls |= h.leaves
        if ls:
            x |= set(f for f, v in st.facts.items() if v and f.tag == "eq0" and not f.leaves.isdisjoint(ls))
        return frozenset(x)

    def samec(self, eng, st, a, b):
        """the same content token"""
        if a is b:
            return True
        return a.tag == "c" and b.tag == "c" and a.args[1] is b.args[1] and \
            eng.truth(st, EQ(a.args[0], b.args[0])) is True

    def take(self, eng, st, V, X):
        for t in list(V):
            if self.samec(eng, st, t, X):
                V.discard(t)
                return True
        return False

    def parent(self, eng, i):
        return scale(eng.divt(i, 2 * self.U), self.U)

    def eq(self, eng, st, a, b):
        return eng.truth(st, EQ(a, b)) is True

    def even(self, eng, st, i):
        if self.U == 1:
            b = EQ0(sub(i, scale(eng.divt(i, 2), 2)))
        else:
            b = EQ0(fn("and", *sorted((i, num(8)), key=lambda t: t.uid)))
        return eng.truth(st, b)


class Conserve(HeapMon):
    def start(self, eng, st):
        st.mon["V"] = frozenset()
        st.mon["H"] = frozenset()
        if self.root in ("push", "decreasetop"):
            st.mon["V"] = frozenset([eng.content(st, mk("a", 1))])
        # the fields are read at entry so that they have a name
        for o, ty in ((self.L["array"], "ptr"), (self.L["last"], "i64")):
            st.mem[addc(mk("a", 0), o)] = (mk("f", "field", num(o)), None)

    def store(self, eng, st, ins, addr, val):
        o = offset_between(addr, mk("a", 0))
        if o == self.L["last"]:
            old = self.last(eng, st)
            eng.count("range_changes_checked")
            d = None if old is None else offset_between(eng.norm(st, val), eng.norm(st, old))
            if d == self.U:
                st.mon["H"] = st.mon["H"] | {val}
            elif d == -self.U:
                H = [h for h in st.mon["H"] if self.eq(eng, st, h, old)]
                if H:
                    st.mon["H"] = st.mon["H"] - set(H)
                else:
                    st.mon["V"] = st.mon["V"] | {self.slot(eng, st, old)}
            elif d != 0:
                eng.report(st, ins, "size-jump", "the number of entries changes by something other than one")

    def slot(self, eng, st, i):
        v = st.mem[addc(mk("a", 0), self.L["array"])][0]
        return eng.content(st, add(v, scale(i, 1 if self.U == 8 else 8)))

    def pre(self, eng, st, ins, name, args):
        pass

    def call(self, eng, st, ins, name, args, res):
        if name == "vpa_E_assign":
            # the effect on contents has been applied: use what was before
            pass

    def before(self, eng, st, ins, name, args):
        if name != "vpa_E_assign":
            return
        i = self.idx(eng, st, args[0])
        if i is None:
            if not eng.private(args[0]) and not self.other_array(eng, args[0]):
                eng.report(st, ins, "unknown-write", "an entry is written to a place that is not a slot of the tree")
            return
        eng.count("slot_writes_checked")
        X = eng.content(st, args[1])
        V, H = set(st.mon["V"]), set(st.mon["H"])
        hit = [h for h in H if h is i or self.eq(eng, st, h, i)]
        if hit:
            H -= set(hit)
        else:
            V.add(eng.content(st, args[0]))
        if not self.take(eng, st, V, X):
            j = self.srcidx(eng, st, args[1])
            if j is None:
                eng.report(st, ins, "duplicated-entry",
                           "an entry is written to the tree that is still in the tree or was never pushed")
            else:
                H.add(j)
        st.mon["V"], st.mon["H"] = frozenset(V), frozenset(H)

    def other_array(self, eng, addr):
        """memory allocated here: a new array that is being filled"""
        b = [x for x, k in lin(addr)[1] if k == 1]
        return any(x.tag == "v" and eng.is_object(None, x) for x in b)

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        V, H = set(st.mon["V"]), set(st.mon["H"])
        if H:
            eng.report(st, ins, "duplicated-entry", "at return a slot of the tree still holds a second copy of an entry")
        if self.root == "pop":
            self.take(eng, st, V, eng.content(st, mk("a", 1)))
        elif self.root == "decreasetop":
            v = mk("f", "field", num(self.L["array"]))
            top = mk("c", addc(v, 8 * self.L["root"] // self.U), ZERO)
            self.take(eng, st, V, top)
        if V:
            eng.report(st, ins, "lost-entry", "at return an entry is no longer in the tree: it has been overwritten "
                       "or cut off without being kept")


class Order(HeapMon):
    def start(self, eng, st):
        for o, ty in ((self.L["array"], "ptr"), (self.L["last"], "i64")):
            st.mem[addc(mk("a", 0), o)] = (mk("f", "field", num(o)), None)
        st.mon["safe"] = 0       # the children of the hole do not exceed what comes there

    def before(self, eng, st, ins, name, args):
        if name != "vpa_E_assign":
            return
        i = self.idx(eng, st, args[0])
        if i is None:
            return
        eng.count("slot_writes_checked")
        src = self.srcaddr(eng, st, args[1])
        j = self.idx(eng, st, src)
        U = self.U
        if j is not None:
            st.mon.pop("upok", None)
            d = eng.norm(st, sub(j, scale(i, 2)))
            if self.eq(eng, st, j, self.parent(eng, i)) or j is self.parent(eng, i):
                # moved down: the parent must be smaller than the value that goes up
                self.check_below(eng, st, ins, i)
                if not self.fact_up(eng, st, src, True):
                    eng.report(st, ins, "parent-moved-down",
                               "an entry is moved below its place without having compared less than the entry "
                               "that rises")
                st.mon["hole"] = j
                st.mon["safe"] = 1
                st.mon.pop("placed", None)
                return
            if is_int(d) and d.args[0] in (0, U):
                sib = addc(src, 8 if d.args[0] == 0 else -8)
                a, b = eng.content(st, src), eng.content(st, sib)
                ok = self.lt(eng, st, a, b) is False or self.lt(eng, st, b, a) is True
                single = False
                if not ok and d.args[0] == 0:
                    last = self.last(eng, st)
                    single = self.eq(eng, st, j, last) or \
                        (self.eq(eng, st, i, self.parent(eng, addc(last, U))) and self.even(eng, st, last) is True)
                    ok = single
                if not ok:
                    eng.report(st, ins, "wrong-child-promoted",
                               "a child takes the place of its parent although its sibling is not known to be "
                               "no greater")
                st.mon["hole"] = j
                st.mon["safe"] = 1 if single else 0
                st.mon.pop("placed", None)
                return
            eng.report(st, ins, "unrelated-move", "an entry is moved between slots that are not parent and child")
            return
        # the value itself is placed
        X = eng.content(st, args[1])
        st.mon.pop("placed", None)
        ok = self.eq(eng, st, i, num(self.L["root"])) or self.eq(eng, st, i, st.mon.get("lastok", STALE))
        u = st.mon.pop("upok", None)
        if u and not ok:
            ok = self.eq(eng, st, u[0], self.parent(eng, i)) and self.samec(eng, st, u[1], X)
        last = self.last(eng, st)
        if not st.mon["safe"]:
            if not self.childless(eng, st, i):
                eng.report(st, ins, "placed-above-children",
                           "an entry is placed in a slot whose children it has not been compared with")
        if not ok:
            st.mon["placed"] = i

    def check_below(self, eng, st, ins, i):
        if not st.mon["safe"] and not self.childless(eng, st, i):
            eng.report(st, ins, "placed-above-children",
                       "the way up starts at a slot that still has children")

    def slot_addr(self, eng, st, i):
        v = st.mem[addc(mk("a", 0), self.L["array"])][0]
        return add(v, scale(i, 1 if self.U == 8 else 8))

    def lt(self, eng, st, a, b):
        if a is STALE or b is STALE:
            return None
        return eng.truth(st, fn("cmplt", fn("compare", a, b)))

    def fact_up(self, eng, st, addr, val, X=None):
        c = eng.content(st, addr)
        for f, v in st.facts.items():
            if f.tag == "f" and f.args[0] == "cmplt":
                k = f.args[1]
                if k.tag == "f" and k.args[0] == "compare":
                    x, y = k.args[1:3]
                    if X is not None and X not in (x, y):
                        continue
                    if x is c and v is val:
                        return True
                    # value < parent, strictly: parent is not less than value
                    if y is c and val is False and v is True:
                        return True
        return False

    def childless(self, eng, st, i):
        U = self.U
        last = self.last(eng, st)
        if last is None:
            return False
        if self.eq(eng, st, i, last):
            return True
        if eng.truth(st, SLT(last, scale(i, 2), "ult")) is True:
            return True
        F = self.parent(eng, addc(last, U))
        if eng.truth(st, SLT(i, F, "ult")) is False:
            e = eng.truth(st, EQ(i, F))
            if e is False or self.even(eng, st, last) is False:
                return True
        return False

    def branch(self, eng, st, ins, cond, val):
        for f, v in st.facts.items():
            if f.tag == "f" and f.args[0] == "cmplt" and f.args[1].tag == "f" and f.args[1].args[0] == "compare":
                x, y = f.args[1].args[1:3]
                if v:
                    x, y = y, x
                # x is not less than y
                if x.tag == "c":
                    p = self.idx(eng, st, x.args[0])
                    if p is not None and x.args[1] is st.ver.get(CONTENT, ZERO):
                        st.mon["upok"] = (p, y)
        h = st.mon.get("hole")
        if h is None:
            h = num(self.L["root"])
        if not st.mon["safe"]:
            if self.childless(eng, st, h):
                st.mon["safe"] = 1
                st.mon["hole"] = h

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        if st.mon.get("placed") is not None:
            eng.report(st, ins, "not-compared-upwards",
                       "an entry stays in a slot although it is not known that the slot above is not less")


class Growth(HeapMon):
    """Copying all slots into a new array."""
    offset_pairs = True

    def start(self, eng, st):
        self.src = mk("a", 1 if self.root == "ctcopy" else 0)
        self.arr = mk("f", "field", num(self.L["array"]))
        self.lastv = mk("f", "field", num(self.L["last"]))
        for o, v in ((self.L["array"], self.arr), (self.L["last"], self.lastv)):
            st.mem[addc(self.src, o)] = (v, None)
        st.mon["F"] = num(self.L["root"])

    def index(self, eng, st, addr, base, first):
        for e in (sub(addr, base), sub(eng.norm(st, addr), eng.norm(st, base))):
            if any(x.tag in ("al", "a") for x, k in lin(e)[1]) or e is STALE:
                continue
            if self.U == 8:
                return addc(e, first)
            c, items = lin(e)
            if c % 8 == 0 and all(k % 8 == 0 for _, k in items):
                return unlin(c // 8 + first, {x: k // 8 for x, k in items})
        return None

    def before(self, eng, st, ins, name, args):
        if name != "vpa_E_assign":
            return
        dst, src = args[0], args[1]
        if eng.private(dst):
            return
        eng.count("copied_slots_checked")
        db = [x for x, k in lin(dst)[1] if k == 1 and (x is self.arr or x.tag in ("v", "h", "m", "old"))]
        if self.arr in db:
            eng.report(st, ins, "writes-old-array", "the old array is written while the entries are copied")
            return
        if self.arr not in [x for x, k in lin(src)[1]]:
            return
        i = self.index(eng, st, src, self.arr, 0)
        if st.mon["F"] is STALE:
            return
        if i is None or not self.eq(eng, st, i, st.mon["F"]):
            st.mon["F"] = STALE
            eng.report(st, ins, "skips-slot", "the slots are not copied one after the other from the root on")
            return
        al = [x for x in db if eng.is_object(st, x)]
        if al:
            k = self.index(eng, st, dst, al[0], self.L["root"])
            if k is not None and not self.eq(eng, st, k, i):
                eng.report(st, ins, "copied-elsewhere", "a slot is not copied to the same place in the new array")
        eng.count("copied_slots_same_index", 1 if al else 0)
        st.mon["F"] = addc(i, self.U)

    def call(self, eng, st, ins, name, args, res):
        if name.startswith("_ZN6mathic"):
            st.mon["rec"] = 1

    def branch(self, eng, st, ins, cond, val):
        if self.eq(eng, st, self.lastv, ZERO):
            st.mon["zero"] = 1
            return
        for f, v in st.facts.items():
            if f.tag == "ult" and not v and f.args[1] is self.lastv and self.eq(eng, st, f.args[0], ZERO):
                st.mon["zero"] = 1      # not 0 < last
        F = st.mon["F"]
        if F is not STALE and eng.truth(st, SLT(self.lastv, F, "ult")) is True:
            st.mon["all"] = 1

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        F = st.mon["F"]
        if st.mon.get("zero") or st.mon.get("all"):
            return
        if F is STALE or not (eng.truth(st, SLT(self.lastv, F, "ult")) is True or
                              eng.truth(st, EQ(addc(self.lastv, self.U), F)) is True or
                              self.eq(eng, st, self.lastv, ZERO)):
            eng.report(st, ins, "not-all-copied", "the array is replaced although not every slot has been copied")


class GrowthJob(Growth):
    @staticmethod
    def prepare(fs, job):
        L = layout(fs, job)
        for r in ("ctincrease", "ctcopy"):
            f = fs["vp_root_" + r]
            calls = [i for b in f.blocks for i in b if i["op"] in ("call", "invoke")]
            if len(f.blocks) == 1 and len(calls) == 1 and calls[0]["callee"] in fs and \
                    calls[0]["args"] == ["a%d" % k for k in range(len(calls[0]["args"]))]:
                fs["vp_root_" + r] = fs[calls[0]["callee"]]
        return L


CONFIGS = ["KIND=0 DEDUP=0 FAST=0", "KIND=0 DEDUP=0 FAST=1"]


def jobs(mon, roots, configs=CONFIGS):
    out = []
    for c in configs:
        d = dict(x.split("=") for x in c.split())
        out.append(dict(src="h_queue.cpp", defs=c.split(), roots=list(roots), monitor="props_queue:" + mon,
                        model="props_queue:QModel", label="%s %s index%s" % (
                            "Heap" if d["KIND"] == "0" else "TourTree", "fast" if d["FAST"] == "1" else "slow",
                            " dedup" if d["DEDUP"] == "1" else ""), cfg=d))
    return out


def Q01(ctx):
    ctx.rules.append("hole typestate: every overwritten or cut-off slot is accounted for by a copy that is placed "
                     "again; at return the tree holds exactly the old entries plus the pushed / minus the returned one")
    run.run(ctx, jobs("Conserve", ("push", "pop", "decreasetop")))
    ctx.need("slot_writes_checked", 8)
    ctx.need("exits_checked", 6)
    ctx.ob(ctx.counts["slot_writes_checked"] + ctx.counts["exits_checked"])


def Q03(ctx):
    ctx.rules.append("growing or copying the array behind a heap copies slot i to slot i for every i from the root "
                     "to the last leaf before the array is replaced")
    run.run(ctx, jobs("GrowthJob", ("ctincrease", "ctcopy")))
    ctx.need("copied_slots_checked", 4)
    ctx.need("copied_slots_same_index", 4)
    ctx.need("exits_checked", 4)
    ctx.ob(ctx.counts["copied_slots_checked"] + ctx.counts["exits_checked"])


def Q02(ctx):
    ctx.rules.append("heap order is preserved by every slot write: a promoted child has won against its sibling, a "
                     "parent moved down has lost against the rising entry, the final slot is the root or below an "
                     "entry that is not less, and above entries that are not greater")
    run.run(ctx, jobs("Order", ("push", "pop", "decreasetop")))
    ctx.need("slot_writes_checked", 8)
    ctx.need("exits_checked", 6)
    ctx.ob(ctx.counts["slot_writes_checked"] + ctx.counts["exits_checked"])
