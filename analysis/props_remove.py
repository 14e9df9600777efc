"""Removals take out exactly what they say (D08)."""
import run
import props_div
import cover
from engine import *
from model import Model
from terms import *

cover.KIND["removemulquiet"] = "mul"


class Size(Monitor):
    def ret(self, eng, st, ins, val):
        self.val = val
        self.cell = [a for a, (v, t) in st.mem.items() if v is val]


def prepare(fs, job):
    L = dict(cover.layout(fs, job, Model))
    if job["cfg"]["KIND"] == "1":
        m = Size()
        Engine(fs["vp_root_size"], m, Model(), job["label"]).run()
        o = None if len(m.cell) != 1 else offset_between(m.cell[0], mk("a", 0))
        if o is None:
            raise AnalysisBroken("no layout: size")
        L["size"] = o
    return L


def contradicts(eng, st, a, b):
    return eng.truth(st, EQ(a, b)) is False


class Removal(cover.Cover):
    """Compaction typestate: 'w' is where the next kept element of the current
    node goes once something has been removed from it."""
    prepare = staticmethod(prepare)
    MODEL = Model
    # quantities that outlive the loop that takes the elements out
    outside = ("d0", "d2", "c2")

    def __init__(self, root, fs, job, shared):
        cover.Cover.__init__(self, root, fs, job, shared)
        self.quiet = root.endswith("quiet")
        self.array = not self.linked
        self.web, self.values = counters(fs["vp_root_" + root], root, self)

    def start(self, eng, st):
        cover.Cover.start(self, eng, st)
        self.fresh(st)

    def fresh(self, st):
        """removed from the current node but not counted yet, as the number of
        elements and as a distance"""
        st.mon["d1"] = 0        # removed one by one less counted one by one
        st.mon["d3"] = 0        # taken out one by one less counted one by one
        st.mon["d2"] = ZERO     # the distance itself, or
        st.mon["c2"] = ZERO     # what was counted
        st.mon.pop("d0", None)  # and how many there were before

    def arith(self, eng, st, ins, val):
        """a step of the counter the result is computed from"""
        k = self.web.get(ins["id"])
        if k is None:
            return
        self.decide(eng, st)
        if k == "leaf":
            d = val
        else:
            d = eng.operand(st, ins["ops"][k])
            if ins["op"] == "sub":
                d = sub(ZERO, d)
        eng.count("counter_steps_checked")
        st.mon["acc"] = val
        bad = d is STALE or d is UNDEF
        for k, sign in (("d2", -1), ("c2", 1)):
            x = st.mon[k]
            # a list is counted one by one
            st.mon[k] = STALE if x is STALE or bad or not self.array else eng.norm(st, add(x, d, sign))
        for k in ("d1", "d3"):
            self.count_one(st, k, None if bad or not is_int(d) else -d.args[0])

    def branch(self, eng, st, ins, cond, val):
        """asking the counter after the last removal: what contradicts what was
        removed does not happen"""
        cover.Cover.branch(self, eng, st, ins, cond, val)
        m = st.mon
        c = m.get("acc")
        if c is not None and c is not STALE:
            z = eng.truth(st, EQ0(c))
            if z is not None and z is bool(m.get("any")) and self.in_balance(eng, st):
                return False
        w, p = m.get("w"), m.get("ep")
        if w is not None and p is not None and not {"hit", "moved"} & m["did"] and self.same(eng, st, w, p):
            return False        # it comes after one that was removed
        if w is not None and not m.get("pops") and not m.get("cut"):
            # something was removed: the kept ones end before the old end
            E, F = self.last(eng, st, "e"), self.start_of(eng, st)
            if E is not None and E is not STALE and w is not STALE and (
                    self.same(eng, st, w, E) or self.beyond2(eng, st, w, E)):
                return False

    def in_balance(self, eng, st):
        m = st.mon
        if m["d1"] == 0:
            return True
        if self.linked:
            return False
        if m.get("w") is not None and not m.get("pops") and not m.get("cut"):
            return False
        return m["d3"] == 0 and bool(m.get("pops")) or self.zero(eng, st, m["d2"]) or \
            self.zero(eng, st, self.left(eng, st))

    def zero(self, eng, st, x):
        if x is STALE or x is None:
            return False
        return x is ZERO or eng.truth(st, EQ0(x)) is True or eng.truth(st, EQ0(Engine.mulc(x, self.S))) is True

    def left(self, eng, st):
        """how many there were less those kept less those counted"""
        m = st.mon
        if any(m.get(k) in (None, STALE) for k in ("d0", "w", "c2")):
            return None
        return sub(sub(m["d0"], fn("sdivx", sub(m["w"], self.start_of(eng, st)), num(self.S))), m["c2"])

    def count_one(self, st, key, k):
        x = st.mon[key]
        st.mon[key] = None if x is None or k is None or abs(x + k) > 2 else x + k

    def balanced(self, eng, st, ins):
        m = st.mon
        if self.web and not self.in_balance(eng, st):
            eng.report(st, ins, "wrong-count", "what is counted as removed is not what was removed")
        self.fresh(st)

    def decide(self, eng, st):
        m = st.mon
        was = "hit" in m["did"]
        cover.Cover.decide(self, eng, st)
        if "hit" in m["did"] and not was and m.get("ep") is not None:
            m["any"] = 1
            self.count_one(st, "d1", 1)
            if self.array and m.get("w") is None:
                m["w"] = m["ep"]
        if self.quiet and "hit" in m["did"]:
            m["did"] = m["did"] | {"rep", "eok"}

    def settle(self, eng, st, ins, r):
        m = st.mon
        if r == "e" and m.get("ep") is not None and self.array:
            self.decide(eng, st)
            did = m["did"]
            if "hit" not in did and m.get("w") is not None:
                eng.count("kept_elements_checked")
                if "moved" not in did:
                    eng.report(st, ins, "kept-element-lost",
                               "an element that is not a multiple is passed without being moved to the kept ones")
                elif "entrymask" in self.L and "mmoved" not in did:
                    eng.report(st, ins, "mask-left-behind", "a kept element is moved without its mask")
        cover.Cover.settle(self, eng, st, ins, r)
        if r == "e":
            m["did"] = m["did"] - {"moved", "mmoved"}
            m.pop("wm", None)

    def start_of(self, eng, st):
        return self.first(eng, st, "e")

    def tally(self, eng, st):
        """the current node has shrunk from eE to w"""
        m = st.mon
        F = self.start_of(eng, st)
        E, w = m.pop("eE2", None), m["w"]
        if E is None:
            E = self.last(eng, st, "e")
        if E is not None and E is not STALE and w is not STALE:
            # at least one was removed
            st.facts[EQ(eng.norm(st, E), eng.norm(st, w))] = False
        if E is None or E is STALE or w is STALE:
            m["d2"] = STALE
            return
        k = num(self.S)
        n = fn("sdivx", sub(E, F), k)
        m["d0"] = n if m.get("d0") is None else STALE
        if m["d2"] is not STALE:
            m["d2"] = eng.norm(st, add(m["d2"], sub(n, fn("sdivx", sub(w, F), k))))

    def visit(self, eng, st, ins, M, kinds):
        cover.Cover.visit(self, eng, st, ins, M, kinds)
        self.balanced(eng, st, ins)
        for k in ("w", "eE2", "pops", "more"):
            st.mon.pop(k, None)

    def leave(self, eng, st, ins):
        m = st.mon
        if m.get("N") is not None and self.tree and self.array:
            self.decide(eng, st)
            if m.get("ep") is not None:
                self.settle_last(eng, st, ins)
            w = m.get("w")
            if w is not None:
                eng.count("shrunk_arrays_checked")
                if not m.get("pops"):
                    eng.report(st, ins, "not-removed", "elements are reported as removed but none is taken out of the tree")
                else:
                    G = self.last(eng, st, "e")
                    if not (self.cfg["LEAF"] == "1" and m.get("pops")) and (G is None or G is STALE or not (
                            self.same(eng, st, G, w) or self.beyond2(eng, st, w, G))):
                        eng.report(st, ins, "not-removed",
                                   "the node still holds elements behind those to be kept")
        cover.Cover.leave(self, eng, st, ins)
        for k in ("w", "eE2", "pops", "more"):
            m.pop(k, None)

    def settle_last(self, eng, st, ins):
        pass

    def beyond2(self, eng, st, w, G):
        """w >= G is known"""
        F = self.start_of(eng, st)
        n = num(self.S)
        for x, y in ((sub(w, F), sub(G, F)), (w, G), (fn("sdivx", sub(w, F), n), fn("sdivx", sub(G, F), n))):
            for tg in ("ult", "slt"):
                if eng.truth(st, SLT(x, y, tg)) is False:
                    return True
        d = sub(G, F)
        for f, v in st.facts.items():
            if f.tag in ("ult", "slt") and v is False:
                x, y = f.args[0], f.args[1]
                if y is G and self.same(eng, st, x, w):
                    return True
                x, y = Engine.mulc(x, self.S) if y is fn("sdivx", d, n) else x, d if y is fn("sdivx", d, n) else y
                if y is d and self.same(eng, st, add(x, F), w):
                    return True
        return self.beyond(eng, st, w, G, self.S)

    def before(self, eng, st, ins, name, args):
        m = st.mon
        if name == "vpa_E_assign" and m.get("N") is not None and self.array:
            self.moved(eng, st, ins, args)
        if name == "vpa_E_dtor" and m.get("N") is not None and self.tree:
            self.dtor(eng, st, ins, args[0])
        if name == "vpi_list_erase" and self.linked:
            self.decide(eng, st)
            p = m.get("ep")
            eng.count("removals_checked")
            if p is None or not self.same(eng, st, p, args[1]) or "hit" not in m["did"]:
                eng.report(st, ins, "removes-other", "an element is taken out that is not known to be a multiple")
        if name in ("vpi_vec_resize", "vpi_vec_erase_range") and not self.tree and self.array:
            self.shrink(eng, st, ins, name, args)
        cover.Cover.before(self, eng, st, ins, name, args)

    def edge(self, eng, st, src, dst):
        """are there elements behind those to be kept? Kept as a flag since the
        comparison does not outlive the step of the loop"""
        cover.Cover.edge(self, eng, st, src, dst)
        m = st.mon
        if m.get("w") is not None and (src, dst) in eng.fn.retreat:
            # name the place by the loop variable that holds it
            for i in eng.fn.blocks[dst]:
                if i["op"] != "phi":
                    break
                for p, o in i["in"]:
                    t = eng.operand(st, o) if p == src and i["ty"] == "ptr" else None
                    if t is not None and t is not m["w"] and t.leaves and self.same(eng, st, t, m["w"]):
                        m["w"] = t
        if m.get("pops") and m.get("w") is not None and not m.get("more"):
            E, F, w = self.last(eng, st, "e"), self.start_of(eng, st), m["w"]
            if E is not None and E is not STALE and w is not STALE and (
                    contradicts(eng, st, w, E) or eng.truth(st, SLT(sub(w, F), sub(E, F), "ult")) is True or
                    eng.truth(st, SLT(w, E, "ult")) is True):
                m["more"] = 1

    def moved(self, eng, st, ins, args):
        m = st.mon
        b = eng.base_of(eng.norm(st, args[0]))
        if len(b) == 1 and b[0].tag == "al":
            return
        self.decide(eng, st)
        w, p = m.get("w"), m.get("ep")
        eng.count("moves_checked")
        if w is None or p is None or not self.same(eng, st, args[0], addc(w, self.eo)):
            eng.report(st, ins, "overwrites-kept", "an element is overwritten that has not been removed or moved away")
            return
        if not self.same(eng, st, args[1], addc(p, self.eo)) or "hit" in m["did"]:
            eng.report(st, ins, "keeps-other", "what is kept is not the element that was found not to be a multiple")
            return
        self.set(st, "moved")
        if m.get("wm") is not None and self.same(eng, st, m["wm"], w):
            self.set(st, "mmoved")
        m["w"] = addc(eng.operand(st, ins["args"][0]), self.S - self.eo)

    def store(self, eng, st, ins, addr, val):
        m = st.mon
        raw = eng.operand(st, ins["ptr"])
        if self.tree and offset_between(addr, mk("a", 0)) == self.L["size"]:
            eng.count("sizes_checked")
            old = self.cell(eng, st, addr)
            if not self.web or old is None or m.get("sized") or not any(
                    x in st.regs and st.regs[x] is not STALE and val is sub(old, st.regs[x]) for x in self.values):
                eng.report(st, ins, "wrong-size", "size() does not go down by the number of removed elements")
            m["sized"] = 1
        if m.get("N") is None or "entrymask" not in self.L or not self.array:
            return
        w, p = m.get("w"), m.get("ep")
        if w is None or p is None or ins.get("vty") == "ptr":
            return
        if self.same(eng, st, raw, addc(w, self.L["entrymask"])):
            x = self.cell(eng, st, addc(p, self.L["entrymask"]))
            if x is val:
                m["wm"] = w
        elif self.same(eng, st, raw, addc(w, self.L["entrymask"] - self.S)) and "moved" in m["did"]:
            x = self.cell(eng, st, addc(p, self.L["entrymask"]))
            if x is val:
                self.set(st, "mmoved")

    def dtor(self, eng, st, ins, a):
        m = st.mon
        b = eng.base_of(eng.norm(st, a))
        if len(b) == 1 and b[0].tag == "al":
            return
        self.decide(eng, st)
        eng.count("removals_checked")
        w = m.get("w")
        if w is None:
            eng.report(st, ins, "removes-other", "an element is taken out although none was found to be a multiple")
            return
        x = addc(a, -self.eo)
        self.count_one(st, "d3", 1)
        if not m.get("pops"):
            m["pops"] = 1
            E = m.get("eE2")
            # something was removed, so the kept ones end before the old end
            if E is not None and self.same(eng, st, addc(x, self.S), E):
                self.settle(eng, st, ins, "e") if m.get("ep") is not None and "efull" not in m["did"] else None
                self.tally(eng, st)
                return
        else:
            E = self.last(eng, st, "e")
            if m.pop("more", None) and E is not None and (
                    self.same(eng, st, x, E) or self.same(eng, st, addc(x, self.S), E)):
                return
        eng.report(st, ins, "removes-other", "an element is taken out that may be one of those to be kept")

    def shrink(self, eng, st, ins, name, args):
        m = st.mon
        self.decide(eng, st)
        eng.count("shrunk_arrays_checked")
        w = m.get("w")
        F, G = self.first(eng, st, "e"), self.last(eng, st, "e")
        if w is None:
            eng.report(st, ins, "removes-other", "elements are taken out although none was found to be a multiple")
            return
        if name == "vpi_vec_resize":
            ok = args[1] is fn("sdivx", sub(w, F), num(self.S)) or \
                self.same(eng, st, Engine.mulc(args[1], self.S), sub(w, F))
        else:
            ok = self.same(eng, st, args[1], w) and self.same(eng, st, args[2], G)
        if not ok:
            eng.report(st, ins, "removes-other",
                       "the list is not cut where the elements to be kept end")
        self.tally(eng, st)
        m["cut"] = 1

    def touch(self, eng, st, ins, r, addr, step=True):
        m = st.mon
        had = m.get("eE")
        x = cover.Cover.touch(self, eng, st, ins, r, addr, step)
        if r == "e" and m.get("eE") is not None and m.get("eE2") is None:
            m["eE2"] = m["eE"]
        return x

    def ret(self, eng, st, ins, val):
        m = st.mon
        if val is None:
            raise AnalysisBroken("no result")
        cover.Cover.ret(self, eng, st, ins, val)
        eng.count("results_checked")
        self.balanced(eng, st, ins)
        if self.tree and m.get("any") and not m.get("sized"):
            eng.report(st, ins, "wrong-size", "elements are removed but size() stays")
        if not self.tree and self.array and m.get("any") and not m.get("cut"):
            eng.report(st, ins, "not-removed", "elements were found to be multiples but the list is not cut")
        # where the result is that the counter is not zero it is right because the
        # counter is
        v = (val is not ZERO) if is_int(val) else None if self.web or val is STALE else eng.truth(st, val)
        if v is not bool(m.get("any")) and (v is not None or not self.web):
            eng.report(st, ins, "wrong-result", "the result does not tell whether something was removed")


def counters(f, root, mon):
    """the counter that the result is found from by comparing it with zero, or
    that size() goes down by: ({its additions: which operand is added},
    everything that holds it)"""
    web, phis = counter_of(f, of_result(f))
    if not web:
        web, phis = counter_of(f, of_branches(f))
    return web, phis


def of_branches(f):
    """counters compared with zero by a branch"""
    out = []
    for blk in f.blocks:
        c = f.defs.get(blk[-1].get("cond")) if isinstance(blk[-1].get("cond"), str) else None
        if c is not None and c["op"] == "icmp" and c["b"] == "c0" and c["oty"] == "i64":
            w, p = counter_of(f, [c["a"]])
            if w and any(cyclic(f, o, x) for x in w for o in f.defs[x]["ops"]):
                out.append(c["a"])
    return out


def of_result(f):
    todo, seen, grow = [], set(), []
    for blk in f.blocks:
        for i in blk:
            if i["op"] == "ret" and "val" in i:
                todo.append(i["val"])
    while todo:
        x = todo.pop()
        if not isinstance(x, str) or x in seen:
            continue
        seen.add(x)
        d = f.defs.get(x)
        if d is None:
            continue
        if d["op"] == "phi":
            todo += [o for p, o in d["in"]]
        elif d["op"] in ("zext", "trunc", "freeze"):
            todo += d["ops"]
        elif d["op"] == "select":
            todo += d["ops"][1:]
        elif d["op"] == "icmp" and d["pred"] in ("ne", "ugt", "sgt") and d["b"] == "c0":
            grow.append(d["a"])
    return grow


def counter_of(f, grow):
    todo, phis, ends = list(grow), set(), []
    while todo:
        x = todo.pop()
        if not isinstance(x, str) or x in phis or x in ends:
            continue
        d = f.defs.get(x)
        if d is None:
            continue
        if d["op"] == "phi":
            phis.add(x)
            todo += [o for p, o in d["in"]]
        elif d["op"] == "select":
            phis.add(x)
            todo += d["ops"][1:]
        elif d["op"] in ("zext", "trunc", "freeze"):
            phis.add(x)
            todo += d["ops"]
        else:
            ends.append(x)
            if d["op"] in ("add", "sub"):
                for k, o in enumerate(d["ops"]):
                    if cyclic(f, o, x):
                        todo.append(o)
    web = {}
    for x in ends:
        d = f.defs[x]
        if d["op"] not in ("add", "sub"):
            return {}, set()
        k = [n for n, o in enumerate(d["ops"]) if cyclic(f, o, x)]
        if len(k) > 1 or (k == [1] and d["op"] == "sub"):
            return {}, set()
        web[x] = "leaf" if not k else 1 - k[0]
    return web, phis | set(ends)


def cyclic(f, o, x):
    """is o computed from x by additions and joins?"""
    seen, todo = set(), [o]
    while todo:
        y = todo.pop()
        if y == x:
            return True
        d = f.defs.get(y) if isinstance(y, str) else None
        if d is None or y in seen:
            continue
        seen.add(y)
        if d["op"] == "phi":
            todo += [o for p, o in d["in"]]
        elif d["op"] == "select":
            todo += d["ops"][1:]
        elif d["op"] in ("add", "sub", "zext", "trunc", "freeze"):
            todo += d["ops"]
    return False


def D08(ctx):
    ctx.rules.append("removeMultiples visits every node and entry its splits and masks do not rule out; an entry is "
                     "taken out only after its own test found it to be a multiple; an entry that is not one is moved, "
                     "with its mask, to the place after the last kept one or left where it is; the node is cut exactly "
                     "where the kept ones end; what is counted is what was taken out, on every path; the result is "
                     "that count compared with zero and size() goes down by it")
    js = props_div.jobs(ctx, "Removal", lambda d: ["removemul", "removemulquiet"] if d["REMOVALS"] == "1" else [],
                        norebuild=True)
    for j in js:
        j["monitor"] = "props_remove:Removal"
    run.run(ctx, js)
    ctx.need("configurations", 5)
    ctx.need("elements_checked", 100)
    ctx.need("kept_elements_checked", 20)
    ctx.need("removals_checked", 50)
    ctx.need("shrunk_arrays_checked", 20)
    ctx.need("counter_steps_checked", 50)
    ctx.need("sizes_checked", 10)
    ctx.ob(ctx.counts["removals_checked"] + ctx.counts["kept_elements_checked"] + ctx.counts["results_checked"])
