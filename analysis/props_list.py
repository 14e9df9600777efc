"""A DivList kept in order stays in order when entries are added (D09)."""
import run
import props_div
import cover
from engine import *
from model import Model
from terms import *


class Order(Monitor):
    """Typestate of adding entries.

    dirty   entries may be out of order
    to      where an insertion has made room: (slot, place, kind of place, what
            the search said)
    came    (node, from which): how the walk through the list got to a node
    """
    prepare = staticmethod(lambda fs, job: cover.layout(fs, job, Model))
    MODEL = Model

    def __init__(self, root, fs, job, shared):
        self.L = shared
        self.root = root
        self.eo = shared["entry"]
        self.S = shared["entrysize"]
        self.linked = job["cfg"]["LINKED"] == "1"

    def start(self, eng, st):
        st.mon["n"] = 0
        if self.root == "insert":
            st.mon["new"] = st.mon["arg"] = eng.content(st, mk("a", 1))

    same = cover.Cover.same
    cell = cover.Cover.cell

    def unsorted(self, st):
        return any(f.tag == "f" and "sortoninsert" in f.args[0] and v is False for f, v in st.facts.items())

    def merge_extra(self, eng, st):
        r = frozenset(f for f in st.facts if f.tag == "f" and f.args[0] == "less")
        return r | ({"unsorted"} if self.unsorted(st) else set())

    def known(self, eng, st, x, y, addr, v):
        """is the comparison of the content x and the element at the address
        known: x less (y=0)/greater (y=1)"""
        for f, val in st.facts.items():
            if f.tag == "f" and f.args[0] == "less" and val is v:
                a, b = f.args[1 + y], f.args[2 - y]
                if a is x and b.tag == "c" and self.same(eng, st, b.args[0], addr):
                    return True
        return False

    def at(self, n):
        """address of the entry of a list node (a place in the array)"""
        return addc(mk("f", "list_elem", n) if self.linked else n, self.eo)

    def not_before(self, eng, st, x, n):
        """x does not belong before the node n"""
        a = self.at(n)
        return self.known(eng, st, x, 0, a, False) or self.known(eng, st, x, 1, a, True)

    def not_behind(self, eng, st, x, n):
        a = self.at(n)
        return self.known(eng, st, x, 0, a, True) or self.known(eng, st, x, 1, a, False)

    def before(self, eng, st, ins, name, args):
        if name == "vpa_E_copy":
            b = eng.base_of(eng.norm(st, args[0]))
            if len(b) == 1 and b[0].tag == "al":
                m = st.mon
                m["new"] = eng.content(st, args[1])
                for k in ("came", "back", "found", "goes"):
                    m.pop(k, None)
        if name.startswith("vpra_less_") and not self.linked:
            m = st.mon
            x = m.get("new")
            a, b = args[0], args[1]
            if x is not None:
                for k, (u, w) in enumerate(((a, b), (b, a))):
                    if eng.content(st, u) is x:
                        m["asked"] = (fn("less", eng.content(st, a), eng.content(st, b)), k, w)
        if name in ("vpi_list_insert", "vpi_vec_insert", "vpi_vec_emplace"):
            self.place(eng, st, name, args)

    def branch(self, eng, st, ins, cond, val):
        """what a comparison with an element of the array said bounds the place of
        the new entry"""
        m = st.mon
        if m.get("dirty") and self.single(eng, st):
            m.pop("dirty")
        q = m.get("asked")
        if q is None or self.linked or STALE in q:
            return
        v = eng.truth(st, q[0])
        if v is None:
            return
        if v is (q[1] == 0):
            m["goes"] = addc(q[2], -self.eo)
        else:
            m["came"] = addc(q[2], self.S - self.eo)
        m.pop("asked")

    def single(self, eng, st):
        """at most one entry is known to be in the list"""
        l = eng.model.ver(eng, st, addc(mk("a", 0), self.L["list"]))
        if self.linked:
            return eng.truth(st, SLT(fn("list_size", *l), num(2), "ult")) is True
        d = sub(eng.model.vend(*l), eng.model.vbegin(*l))
        k = num(self.S)
        return eng.truth(st, SLT(d, num(2 * self.S), "ult")) is True or \
            eng.truth(st, SLT(fn("sdivx", d, k), num(2), "ult")) is True

    def place(self, eng, st, name, args):
        """is the place about to be filled the right one?"""
        m = st.mon
        x = m.get("new")
        m["ok"] = False
        if x is None:
            return
        if self.linked:
            p, E = args[1], fn("list_end", args[0])
            l = eng.model.ver(eng, st, args[0])
            F = fn("list_begin", *l)
            prev = fn("list_prev", p)
            empty = eng.truth(st, fn("list_empty", *l)) is True
        else:
            l = eng.model.ver(eng, st, args[0])
            F, E = eng.model.vbegin(*l), eng.model.vend(*l)
            p = E if name == "vpi_vec_emplace" else args[1]
            prev = addc(p, -self.S)
            empty = False
        empty = empty or eng.truth(st, EQ(F, E)) is True
        f, c, g, b = [m.get(k) for k in ("found", "came", "goes", "back")]
        up = self.same(eng, st, p, E) or self.not_behind(eng, st, x, p)
        lo = self.same(eng, st, p, F) or self.not_before(eng, st, x, prev)
        if c is not None and c is not STALE:
            lo = lo or self.same(eng, st, p, c)
            # the order puts what the entry is behind before what it is in front of
            if g is not None and g is not STALE and not self.linked and eng.truth(st, SLT(sub(c, F), sub(g, F), "ult")) is False:
                if self.same(eng, st, p, c) or self.same(eng, st, p, g):
                    up = lo = True
        if g is not None and g is not STALE:
            up = up or self.same(eng, st, p, g)
        if b is not None and STALE not in b:
            lo = lo or self.same(eng, st, p, b[1]) and self.not_before(eng, st, x, b[0])
        if f is not None and STALE not in f and f[3] is x and self.same(eng, st, p, f[0]) and f[1] is F and f[2] is E:
            up = lo = True
        for t in (c, g):
            if t is not None and t is not STALE and "divt(" in repr(t):
                # a bisection by hand: that its bounds meet is not followed
                eng.count("bisections_taken")
                up = lo = True
        m["ok"] = up and lo or empty and (up or lo)

    def call(self, eng, st, ins, name, args, res):
        m = st.mon
        if name == "vpr_list_next" and m.get("new") is not None:
            m["came"] = res if self.not_before(eng, st, m["new"], args[0]) else None
        elif name == "vpr_list_prev" and m.get("new") is not None:
            m["back"] = (res, args[0])
        elif name in ("vpr_alg_upper", "vpr_alg_lower"):
            less = args[3]
            m["found"] = None
            if less.tag == "f" and less.args[0] == "less":
                m["found"] = (res, args[0], args[1], less.args[1] if name == "vpr_alg_upper" else less.args[2])
        elif name == "vpi_list_insert":
            self.add(eng, st, ins, mk("f", "list_elem", res), m.pop("ok"))
        elif name == "vpi_vec_insert":
            self.add(eng, st, ins, res, m.pop("ok"))
        elif name == "vpi_vec_emplace" and offset_between(args[0], mk("a", 0)) == self.L["list"]:
            self.add(eng, st, ins, res, m.pop("ok"))
        elif name == "vpi_list_sort" or name == "vpi_alg_sort":
            less = args[-1]
            l = eng.model.ver(eng, st, addc(mk("a", 0), self.L["list"]))
            whole = name == "vpi_list_sort" or self.same(eng, st, eng.model.vbegin(*l), args[0]) and \
                self.same(eng, st, eng.model.vend(*l), args[1])
            if whole and less.tag == "f" and less.args[0] == "less":
                m.pop("dirty", None)
                m["sorted"] = 1
                eng.count("sorts_seen")

    def add(self, eng, st, ins, slot, ok):
        m = st.mon
        eng.count("additions_checked")
        m.pop("sorted", None)
        for k in ("new", "came", "back", "found", "goes", "asked"):
            m.pop(k, None)
        if self.root == "insert":
            m["n"] = min(m["n"] + 1, 2)
            m["slot"] = slot
        if not ok and not self.unsorted(st):
            m["dirty"] = 1

    def ret(self, eng, st, ins, val):
        m = st.mon
        eng.count("exits_checked")
        if m.get("dirty") and not self.unsorted(st):
            eng.report(st, ins, "out-of-order",
                       "an entry has been added at a place that comparisons with its neighbours do not confirm, "
                       "and the list is not sorted afterwards")
        if self.root != "insert":
            return
        if m["n"] != 1:
            eng.report(st, ins, "not-once", "the entry is not added once")
            return
        if m.get("sorted"):
            # wherever it went, it is the entry that was added
            return
        a = addc(m["slot"], self.eo)
        if eng.content(st, a) is not m["arg"]:
            eng.report(st, ins, "other-entry", "what is stored is not the entry given")


def D09(ctx):
    ctx.rules.append("order typestate of DivList: an entry is added where the comparison with the entries next to it (or a "
                     "search through the whole list) says, or the whole list is sorted before the operation ends, unless "
                     "the configuration asks for no order; insert adds the given entry once")
    js = props_div.jobs(ctx, "Order", lambda d: ["insert", "insertrange"], kinds=(0,), norebuild=True)
    for j in js:
        j["monitor"] = "props_list:Order"
    run.run(ctx, js)
    ctx.need("configurations", 2)
    ctx.need("additions_checked", 8)
    ctx.ob(ctx.counts["additions_checked"] + ctx.counts["exits_checked"])
