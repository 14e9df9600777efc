"""Inserting puts the new element where queries look for it (D06)."""
import run
import props_div
import cover
from engine import *
from model import Model
from terms import *


def subset(t, m):
    """does every bit set in t have m set? t, m words"""
    ws = sorted(cover.words(t, cover.words(m, set())), key=repr)
    if len(ws) > 8:
        return None

    def ev(t, d):
        if t in d:
            return d[t]
        if t.tag == "int":
            if t.args[0] == 0:
                return 0
            if t.args[0] in (-1, 0xffffffff):
                return 1
            raise ValueError
        if t.tag == "f" and t.args[0] in ("and", "or", "xor") and len(t.args) == 3:
            a, b = ev(t.args[1], d), ev(t.args[2], d)
            return {"and": a & b, "or": a | b, "xor": a ^ b}[t.args[0]]
        c, items = lin(t)
        if c == -1 and len(items) == 1 and items[0][1] == -1:
            return 1 - ev(items[0][0], d)
        raise ValueError
    try:
        for n in range(1 << len(ws)):
            d = {w: n >> i & 1 for i, w in enumerate(ws)}
            if ev(t, d) and not ev(m, d):
                return False
        return True
    except ValueError:
        return None


def fresh(m):
    """the nodes allocated so far"""
    return [m[k] for k in ("n0", "n1", "n2") if m.get(k) is not None and m[k] is not STALE]


class InsertModel(Model):
    """Where in a node an address may lie: in its fields, among its elements or
    (packed) among its children. What a node's end of elements points to lies
    among elements, of whichever node."""

    def region(self, eng, st, a):
        mon = eng.mon
        L = mon.L
        c, items = lin(a)
        bs = [x for x, k in items if k == 1]
        if len(bs) != 1 or any(k != 1 for x, k in items):
            # an element at a distance
            ch = st.mon.get("ch")
            for n in fresh(st.mon):
                # as far into a new node as the child is into the current one
                if ch is not None and ch is not STALE and offset_between(sub(a, n), sub(ch, st.mon["at"])) is not None:
                    return "child", n
            es = [x for x, k in items if k == 1 and self.what(eng, x) == "elem"]
            return ("elem", None) if len(es) == 1 else (None, None)
        b = bs[0]
        if b.tag in ("a", "al"):
            return b, None
        m = st.mon
        w = None if any(offset_between(a, n) is not None for n in fresh(m)) else self.what(eng, b)
        if b.tag == "m" and isinstance(b.args[1], Term):
            for n in [m.get("at")] + fresh(m):
                if n is not None and n is not STALE and offset_between(b.args[1], n) == L["end"]:
                    w = "elem"
        if w is not None:
            key = L["end"] if w == "elem" else L.get("cend", 0)
            for n in [m.get("at")] + list(fresh(m)):
                if n is not None and n is not STALE:
                    v = st.mem.get(addc(n, key))
                    if v and v[0] is not STALE and eng.base_of(v[0]) == [b]:
                        return w, n
            return w, None
        known = [m[k] for k in ("at", "par") if m.get(k) is not None and m[k] is not STALE] + list(fresh(m))
        if mon.packed and m.get("par") is not None and m["par"] is not STALE and a is not m["par"] and \
                eng.base_of(m["par"]) == [b] and eng.base_of(m["at"]) != [b]:
            known = [x for x in known if x is not m["par"]]
            o = offset_between(a, m["par"])
            if o is not None and 0 <= o < L["childsize"]:
                return "child", m["par"]
        for n in known:
            o = offset_between(a, n)
            if o is None:
                continue
            if L["begin"] <= o < L["end"]:
                return "elem", n
            if mon.packed and o >= L["cbegin"]:
                return "child", n
            if o >= 0:
                return "head", n
        return None, None

    def what(self, eng, x):
        """elements or children are what an atom points to"""
        c = self.__dict__.setdefault("_what", {})
        while x.tag == "old":
            x = x.args[0]
        if x not in c:
            c[x] = self.what_(eng, x)
        return c[x]

    def what_(self, eng, x):
        L = eng.mon.L
        f = eng.fn
        if x.tag == "f":
            return "elem" if x.args[0].startswith("alg_") else None
        if x.tag not in ("v", "h") or x.args[0] not in f.defs:
            return None
        out = set()
        if x.tag == "h":
            # by the length of its steps
            for _, o in f.defs[x.args[0]].get("in", ()):
                d = f.defs.get(o) if isinstance(o, str) else None
                if d is not None and d["op"] == "getelementptr" and d["base"] == x.args[0] and not d["idx"] and \
                        L.get("childsize") != eng.mon.S:
                    if abs(d["off"]) == eng.mon.S:
                        return "elem"
                    if abs(d["off"]) == L.get("childsize"):
                        return "child"
        for o in f.origins(x.args[0]) | {x.args[0]}:
            d = f.defs.get(o)
            if d is None:
                out.add(None)
            elif d["op"] == "load":
                g = f.defs.get(d["ptr"])
                o = g["off"] if g is not None and g["op"] == "getelementptr" and g["base"] != "a0" and not g["idx"] else None
                out.add("elem" if o == L["end"] else "child" if o == L.get("cend") else None)
            elif d["op"] == "call":
                out.add("elem" if d["callee"].startswith(("vpr_alg", "vpi_alg_part")) else "alloc")
            elif d["op"] in ("phi", "getelementptr", "select"):
                pass
            else:
                out.add(None)
        out.discard("alloc")
        return out.pop() if len(out) == 1 else None

    def apart(self, eng, st, a, b):
        x, n = self.region(eng, st, a)
        y, k = self.region(eng, st, b)
        if x is None or y is None:
            return False
        if x != y:
            return True
        return n is not None and k is not None and n is not k and \
            eng.mon.distinct(eng, st, n, k)


class Insert(Monitor):
    """Typestate of one insertion.

    at      the node the descent has come to; k0/k1 what was loaded from its two
            children (binary), ch the child looked at (packed)
    due     a node mask that still has to be lowered to that of the new element
    h       the slot that may be overwritten (its element is kept elsewhere)
    put     the slot the new element is in, node X, and what happened to its mask
    """
    prepare = staticmethod(lambda fs, job: cover.layout(fs, job, Model))
    MODEL = InsertModel
    # nodes outlive the loops that fill them
    outside = ("n0", "n1", "n2", "mid", "pb", "pe")
    offset_pairs = True

    def __init__(self, root, fs, job, shared):
        self.L = shared
        self.cfg = job["cfg"]
        self.packed = self.cfg["PACKED"] == "1"
        self.eo = shared["entry"]
        self.S = shared["entrysize"]
        self.mask = "entrymask" in shared
        self.tmask = "nodemask" in shared

    def start(self, eng, st):
        st.mon["new"] = eng.content(st, mk("a", 1))

    same = cover.Cover.same
    off = cover.Cover.off
    cell = cover.Cover.cell

    def is_new(self, eng, st, a):
        return eng.content(st, a) is st.mon["new"]

    def local(self, eng, st, a):
        b = eng.base_of(eng.norm(st, a))
        return len(b) == 1 and b[0].tag == "al"

    def fresh_node(self, eng, st, a):
        b = eng.base_of(eng.norm(st, a))
        return len(b) == 1 and b[0].tag in ("new", "r", "v") and b[0]

    def distinct(self, eng, st, n, k):
        """two of: the current node, the node above, and new nodes"""
        m = st.mon
        if eng.truth(st, EQ(n, k)) is not None:
            return eng.truth(st, EQ(n, k)) is False
        fr = fresh(m)
        def kind(x):
            return "new" if any(x is y for y in fr) else "at" if x is m.get("at") else "par" if x is m.get("par") else None
        a, b = kind(n), kind(k)
        return a is not None and b is not None and (a != b or a == "new") and m.get("at") is not None

    # ---- the descent
    def greater(self, eng, st, base):
        """is exponent of the split < exponent of the new element known?"""
        e = self.cell(eng, st, addc(base, self.L["exp"]))
        w = self.cell(eng, st, addc(base, self.L["var"]))
        if e is None or w is None:
            return None
        for f, v in st.facts.items():
            if f.tag == "slt" and f.args[0] is e:
                q = f.args[1]
                if q.tag == "f" and q.args[0] == "exp" and q.args[1] is st.mon["new"] and (
                        q.args[2] is w or q.args[2] is eng.norm(st, w)):
                    return v
        return None

    def choose(self, eng, st, ins, base, greater):
        self.verdict(eng, st, ins, self.greater(eng, st, base) is greater)

    def verdict(self, eng, st, ins, ok):
        eng.count("routing_decisions_checked")
        if not ok:
            eng.report(st, ins, "wrong-subtree",
                       "the new element is passed on to a subtree without its exponent having been found to be on "
                       "that side of the split")

    def entry_masks(self, eng, st):
        out = list(st.mon.get("em", ()))
        for a, v in st.cont.items():
            if v is st.mon["new"] and self.local(eng, st, a):
                x = self.cell(eng, st, addc(a, self.L["entrymask"] - self.eo))
                if x is not None:
                    out.append(x)
        return out

    def lowered(self, eng, st, v):
        return v is not None and v is not STALE and any(subset(v, x) for x in self.entry_masks(eng, st))

    def owe(self, eng, st, ins, base):
        """the element goes below base: its mask has to be lowered"""
        self.paid(eng, st, ins)
        if self.tmask:
            a = addc(base, self.L["nodemask"])
            eng.count("node_masks_checked")
            if not self.lowered(eng, st, self.cell(eng, st, a)):
                st.mon["due"] = a

    def arrive(self, eng, st, node):
        m = st.mon
        for k in ("k0", "k1", "cell", "way", "need", "nx", "par", "side"):
            m.pop(k, None)
        m["at"] = node
        if m.get("em") is None and self.mask:
            m["em"] = frozenset(self.entry_masks(eng, st))
        if self.packed:
            m["ch"] = self.first_child(eng, st, node)

    def paid(self, eng, st, ins):
        if st.mon.pop("due", None) is not None:
            eng.report(st, ins, "mask-not-lowered",
                       "the element goes below a node whose mask is not lowered to it")

    def first_child(self, eng, st, node):
        a = addc(node, self.L["cbegin"])
        return a

    def phis(self, eng, st, src, dst):
        for i in eng.fn.blocks[dst]:
            if i["op"] != "phi":
                break
            if i["ty"] == "ptr":
                for p, o in i["in"]:
                    if p == src:
                        t = eng.operand(st, o)
                        if t is not STALE and t is not UNDEF:
                            yield i, t

    def edge(self, eng, st, src, dst):
        m = st.mon
        at = m.get("at")
        if at is None or at is STALE or m.get("put") is not None or m.get("split") or m.get("X") is not None or \
                m.get("pos") is not None:
            return
        if not self.packed:
            for i, t in self.phis(eng, st, src, dst):
                d = offset_between(t, at)
                if d == self.L["gt"] or d == self.L["le"]:
                    # the address of a child: judged if it is loaded from there
                    a = addc(at, self.L["nodemask"]) if self.tmask else None
                    m["cell"] = t
                    m["nx"] = (at, d)
                    m["way"] = (self.greater(eng, st, at) is (d == self.L["gt"]))
                    m["need"] = None if a is None or self.lowered(eng, st, self.cell(eng, st, a)) else a
                    return
                if t is m.get("k0") or t is m.get("k1"):
                    self.choose(eng, st, i, at, t is m.get("k1"))
                    self.owe(eng, st, i, at)
                    side = self.L["gt"] if t is m.get("k1") else self.L["le"]
                    self.arrive(eng, st, t)
                    m["par"], m["side"] = at, side
                    return
        else:
            c = m.get("ch")
            if c is None or c is STALE:
                return
            for i, t in self.phis(eng, st, src, dst):
                if self.off(eng, st, t, c) == self.L["childsize"]:
                    self.choose(eng, st, i, c, False)
                    self.owe(eng, st, i, c)
                    m["ch"] = t
                    return

    def load(self, eng, st, ins, addr, val):
        m = st.mon
        self.decide(eng, st)
        if self.mask and self.local(eng, st, addr) and self.is_new(eng, st, addc(addr, self.eo - self.L["entrymask"])):
            m["em"] = m.get("em", frozenset()) | {val}
        if ins.get("ty") != "ptr" or m.get("put") is not None:
            return
        raw = eng.operand(st, ins["ptr"])
        if offset_between(addr, mk("a", 0)) == self.L["root"] and m.get("at") is None:
            self.arrive(eng, st, val)
            m["cell"] = addr
            return
        at = m.get("at")
        if at is None or at is STALE:
            return
        if not self.packed:
            if m.get("cell") is not None and (raw is m["cell"] or self.same(eng, st, addr, m["cell"])):
                c = m["cell"]
                w = m.pop("way", None)
                if w is not None:
                    self.verdict(eng, st, ins, w)
                    self.paid(eng, st, ins)
                    eng.count("node_masks_checked", 1 if self.tmask else 0)
                    a = m.pop("need", None)
                    if a is not None:
                        m["due"] = a
                nx = m.pop("nx", None)
                self.arrive(eng, st, val)
                m["cell"] = c
                if nx is not None:
                    m["par"], m["side"] = nx
                return
            p = m.get("par")
            if p is not None and p is not STALE:
                d = self.off(eng, st, addr, p)
                if d in (self.L["le"], self.L["gt"]):
                    # at is the child on that side and only there
                    st.facts[EQ(val, at)] = d == m["side"]
                    return
            d = self.off(eng, st, addr, at)
            if d == self.L["le"]:
                m["k0"] = val
            elif d == self.L["gt"]:
                m["k1"] = val
        else:
            c = m.get("ch")
            if c is not None and c is not STALE and self.off(eng, st, addr, c) == self.L["link"]:
                self.choose(eng, st, ins, c, True)
                self.owe(eng, st, ins, c)
                self.arrive(eng, st, val)
                m["par"], m["side"] = addc(raw, -self.L["link"]), self.L["link"]

    def store(self, eng, st, ins, addr, val):
        m = st.mon
        if offset_between(addr, mk("a", 0)) == self.L["root"] and m.get("at") is not None and \
                m["at"] is not STALE and eng.truth(st, EQ0(m["at"])) is True:
            self.arrive(eng, st, val)
            m["cell"] = addr
        if self.tmask and m.get("at") is not None and m["at"] is not STALE:
            for i, x in enumerate([m["at"]] + fresh(m)):
                if self.off(eng, st, addr, x) == self.L["entriesmask"]:
                    m["lm"] = m.get("lm", frozenset()) - {i} | ({i} if self.lowered(eng, st, val) else set())
        if m.get("par") is not None and offset_between(addr, mk("a", 0)) == self.L["root"]:
            x = self.cell(eng, st, addr)
            if x is None or not self.same(eng, st, x, val):
                eng.report(st, ins, "root-replaced", "a node from below the root is made the root")
        d = m.get("due")
        n = m.get("need")
        if n is not None and self.same(eng, st, addr, n) and self.lowered(eng, st, val):
            m["need"] = None
        if d is not None and self.same(eng, st, addr, d) and self.lowered(eng, st, val):
            del m["due"]

    # ---- the place
    def nodes(self, eng, st, slot):
        """the nodes whose elements end at the slot"""
        out = []
        for a, (v, w) in st.mem.items():
            if not is_int(v) and self.same(eng, st, v, slot):
                out.append(addc(a, -self.L["end"]))
        return out

    def made(self, eng, st, x):
        """allocated by this operation"""
        return any(self.same(eng, st, x, y) for y in fresh(st.mon))

    def call(self, eng, st, ins, name, args, res):
        m = st.mon
        if name == "vpi_arena_alloc" and res is not None:
            m["n%d" % len(fresh(m))] = res
        if name == "vpi_alg_partition":
            m["split"] = 1
            m["mid"], m["pb"], m["pe"] = res, args[0], args[1]
            self.predicate(eng, st, ins, args[2], args[3])
        if name in ("vpr_alg_upper", "vpr_alg_lower"):
            if self.same(eng, st, args[0], args[1]):
                st.facts[EQ(res, args[0])] = True
            # which way round the comparison is decides what the result means
            less = args[3]
            w = args[2]
            if less.tag == "f" and less.args[0] == "less" and len(less.args) >= 3:
                x, y = less.args[1], less.args[2]
                n = m["new"]
                ok = x is n if name == "vpr_alg_upper" else y is n
                if ok and x is not y:
                    m["pos"] = (args[0], args[1], res)
        if name == "vpi_alg_sort" and m.get("at") is not None:
            less = args[4]
            if less.tag == "f" and less.args[0] == "less" and m.get("put") is None:
                at = m["at"]
                e = self.cell(eng, st, addc(at, self.L["end"]))
                if self.same(eng, st, args[0], addc(at, self.L["begin"])) and e is not None and self.same(eng, st, args[1], e):
                    m["srt"] = m.get("srt", frozenset()) | {"old"}
                elif any(self.off(eng, st, args[0], n) == self.L["begin"] for n in fresh(m)):
                    m["srt"] = m.get("srt", frozenset()) | {"new"}

    def unsorted(self, st):
        """the elements are known to need no order"""
        return any(f.tag == "f" and "sortoninsert" in f.args[0] and v is False for f, v in st.facts.items()) or any(
            f.tag == "eq" and v is True and any(x.tag == "f" and "sortoninsert" in x.args[0] for x in f.args if hasattr(x, "tag"))
            for f, v in st.facts.items())

    def merge_extra(self, eng, st):
        return ("unsorted",) if self.unsorted(st) else ()

    def ordered(self, eng, st, ins):
        m = st.mon
        eng.count("positions_checked")
        if self.unsorted(st):
            return
        p = m.get("pos")
        at = m.get("at")
        X = m.get("X")
        if X is None:
            return
        b = addc(X, self.L["begin"])
        if self.same(eng, st, m["put"], b) and self.same(eng, st, m["e0"], b):
            return      # the only element
        for f, v in st.facts.items():
            if f.tag == "and" and v is False and any(x.tag == "f" and "sortoninsert" in x.args[0] for x in f.args):
                # if the order matters, then the other does not hold
                s2 = st.copy()
                for x in f.args:
                    if not (x.tag == "f" and "sortoninsert" in x.args[0]):
                        eng.assume(s2, x, False)
                if self.same(eng, s2, m["put"], b) and self.same(eng, s2, m["e0"], b):
                    return
        if p is None or not self.same(eng, st, p[2], m["put"]) or not self.same(eng, st, p[0], addc(X, self.L["begin"])) or \
                not self.same(eng, st, p[1], m["e0"]):
            eng.report(st, ins, "out-of-order",
                       "the new element is put into the ordered elements of a node at a place that is not the one that "
                       "the search among all of them has found")

    def predicate(self, eng, st, ins, w, p):
        """what the two parts of a division differ in"""
        m = st.mon
        le = p.tag == "not"
        q = p.args[0] if le else p
        a = addc(w, self.eo)
        if q.tag == "slt" and len(q.args) == 2 and q.args[1].tag == "f" and q.args[1].args[0] == "exp" and \
                q.args[1].args[1].tag == "c" and q.args[1].args[1].args[0] is a:
            m["sx"], m["sv"], m["sle"] = q.args[0], q.args[1].args[2], le
        elif not is_int(p):
            eng.report(st, ins, "parts-mixed",
                       "a node is not divided into the elements up to a split and the elements above it")

    def before(self, eng, st, ins, name, args):
        m = st.mon
        if name not in ("vpa_E_copy", "vpa_E_assign") or self.local(eng, st, args[0]):
            return
        raw = eng.operand(st, ins["args"][0])
        slot = addc(raw, -self.eo)
        h = m.get("h")
        if m.get("split"):
            self.decide(eng, st)
            if m.get("dead") or self.dead(eng, st):
                m["dead"] = 1
                return
        if m.get("split") and m.get("dec") is None and not self.is_new(eng, st, args[1]):
            # dividing a node
            if m.get("has") is None and m.get("n0") is not None and not self.same(eng, st, m["pb"], m["mid"]):
                src = addc(args[1], -self.eo)
                for k, v in (("mid", True), ("pb", False)):
                    if self.same(eng, st, src, m[k]) and self.region(eng, st, slot, m["n0"]):
                        m["has"] = v    # the first part stays/the new node has it
            return
        if self.is_new(eng, st, args[1]):
            eng.count("placements_checked")
            if m.get("put") is not None:
                eng.report(st, ins, "placed-twice", "the new element is stored a second time")
                return
            if h is not None:
                if not self.same(eng, st, slot, h):
                    eng.report(st, ins, "overwrites-element",
                               "the new element is put where an element is that has not been moved away")
            else:
                self.first(eng, st, ins, slot)
            m["put"] = slot
            m.pop("h", None)
            self.justify(eng, st, ins)
            self.ordered(eng, st, ins)
            return
        src = addc(eng.operand(st, ins["args"][1]), -self.eo)
        eng.count("moves_checked")
        if h is not None:
            if self.same(eng, st, src, h) and self.same(eng, st, slot, addc(h, self.S)):
                m["h"] = src        # done before
            elif self.same(eng, st, slot, h):
                m["h"] = src
            else:
                eng.report(st, ins, "overwrites-element", "an element is overwritten that has not been moved away")
            return
        if m.get("put") is not None:
            eng.report(st, ins, "overwrites-element", "elements are moved after the new one has been placed")
        elif self.same(eng, st, src, addc(slot, -self.S)):
            self.first(eng, st, ins, slot)
            m["h"] = src
        else:
            eng.report(st, ins, "overwrites-element", "an element is copied to another place without need")

    def first(self, eng, st, ins, slot):
        """the elements of some node are extended by the slot"""
        m = st.mon
        c = self.nodes(eng, st, slot) or self.nodes(eng, st, addc(slot, self.S))
        c = [x for x in c if self.same(eng, st, x, m.get("at", STALE)) or self.made(eng, st, x)]
        if len(c) != 1:
            eng.report(st, ins, "not-behind-elements",
                       "the place taken is not the one behind the elements of the node")
            return
        m["X"] = c[0]
        m["e0"] = slot

    def whole(self, eng, st, a, b):
        """the part from a to b has no elements"""
        if a is STALE or b is STALE or a is None or b is None:
            return False
        if self.same(eng, st, a, b):
            return True
        d = eng.norm(st, sub(b, a))
        return any(f.tag == "ult" and v is False and eng.norm(st, sub(f.args[1], f.args[0])) is d for f, v in st.facts.items())

    def dead(self, eng, st):
        """splits have elements, the new one included, on both sides: not all
        the old ones are on the side the new one is on"""
        m = st.mon
        x = m.get("dec")
        if x is None or x is STALE:
            return False
        if self.packed:
            low = not x
        else:
            low = self.same(eng, st, x, m["at"])
        return self.whole(eng, st, m.get("mid"), m.get("pe")) if low else self.whole(eng, st, m.get("pb"), m.get("mid"))

    def decide(self, eng, st):
        """after a split: which of the two nodes the comparison with the new
        split sends the new element to"""
        m = st.mon
        if not m.get("split") or m.get("dec") is not None:
            return
        at = m["at"]
        if self.packed:
            for a, (v, w) in st.mem.items():
                if w is not None and v is not STALE and not is_int(v) and self.same(eng, st, v, at):
                    g = self.greater(eng, st, addc(a, -self.L["link"]))
                    if g is not None:
                        m["dec"] = g
                        m["N"] = addc(a, -self.L["link"])
                        return
        else:
            for n in fresh(m):
                g = self.greater(eng, st, n)
                x = self.cell(eng, st, addc(n, self.L["gt"] if g else self.L["le"]))
                if g is not None and x is not None:
                    m["dec"] = x
                    m["N"] = n
                    return

    def branch(self, eng, st, ins, cond, val):
        p = st.mon.get("par")
        if p is not None and p is not STALE and eng.truth(st, EQ0(p)) is True:
            return False
        self.decide(eng, st)
        if st.mon.get("put") is None and self.dead(eng, st):
            return False

    def justify(self, eng, st, ins):
        """is X where a query looks for the new element?"""
        m = st.mon
        X = m.get("X")
        if X is None:
            return
        at = m["at"]
        if m.get("split"):
            self.decide(eng, st)
            x = m.get("dec")
            eng.count("sides_checked")
            if x is None or not (x is self.same(eng, st, X, at) if self.packed else self.same(eng, st, x, X)):
                eng.report(st, ins, "wrong-side",
                           "after a split the element is put on a side that its exponent has not been found to belong to")
            return
        if not self.same(eng, st, X, at):
            eng.report(st, ins, "wrong-node", "the element is put into another node than the descent has led to")
        elif self.packed:
            c = m.get("ch")
            e = self.cell(eng, st, addc(at, self.L["cend"]))
            if not self.made(eng, st, at) and (c is None or c is STALE or e is None or not self.same(eng, st, c, e)):
                eng.report(st, ins, "subtree-not-considered",
                           "the element is kept in a node although it may belong to one of its children")

    def ret(self, eng, st, ins, val):
        m = st.mon
        eng.count("exits_checked")
        self.paid(eng, st, ins)
        if m.get("dead"):
            return
        if m.get("put") is None:
            eng.report(st, ins, "not-inserted", "the operation ends without the element being stored")
            return
        X = m.get("X")
        if m.get("split") and not self.unsorted(st):
            eng.count("divisions_checked")
            if m.get("srt", frozenset()) != {"old", "new"}:
                eng.report(st, ins, "left-unsorted", "a node is divided without both parts being put in order again")
        if m.get("split"):
            self.linked(eng, st, ins)
        if X is None:
            return
        if self.mask:
            x = self.cell(eng, st, addc(m["put"], self.L["entrymask"]))
            eng.count("element_masks_checked")
            if x is None or not any(x is y for y in self.entry_masks(eng, st)):
                eng.report(st, ins, "element-mask-lost", "the new element is stored without its own mask")
        e = self.cell(eng, st, addc(X, self.L["end"]))
        if e is None or not self.same(eng, st, e, addc(m["e0"], self.S)):
            eng.report(st, ins, "size-wrong", "the number of elements of the node does not go up by one")
        if self.tmask:
            eng.count("array_masks_checked")
            if not any(i in m.get("lm", ()) and self.same(eng, st, X, x) for i, x in enumerate([m["at"]] + fresh(m))):
                eng.report(st, ins, "mask-not-lowered",
                           "the mask of the elements of the node is not lowered to that of the new one")


    def region(self, eng, st, a, n):
        o = offset_between(a, n)
        return o is not None and self.L["begin"] <= o < self.L["end"]

    def linked(self, eng, st, ins):
        """the node a split has made is where the node was, with both parts
        below it and its mask lowered"""
        m = st.mon
        N = m.get("N")
        eng.count("links_checked")
        if N is None or N is STALE:
            return
        if self.tmask and (m.get("dec") is True or not self.packed):
            if not self.lowered(eng, st, self.cell(eng, st, addc(N, self.L["nodemask"]))):
                eng.report(st, ins, "mask-not-lowered",
                           "after a split the mask above the node the element is in is not lowered to that of the element")
        at = m["at"]
        if m.get("sle") is not None:
            e, v = self.cell(eng, st, addc(N, self.L["exp"])), self.cell(eng, st, addc(N, self.L["var"]))
            if e is not None and v is not None and m["sx"] is not STALE and m["sv"] is not STALE:
                eng.count("splits_checked")
                if not self.same(eng, st, e, m["sx"]) or not self.same(eng, st, v, m["sv"]):
                    eng.report(st, ins, "other-split",
                               "the split kept in the tree is not the one the elements have been divided by")
        if m.get("sle") is not None and m.get("has") is not None:
            # is the part with the lower exponents where they are looked for?
            if self.packed:
                low = False
            else:
                x = self.cell(eng, st, addc(N, self.L["le"]))
                low = None if x is None else self.same(eng, st, x, at)
            eng.count("orientations_checked")
            if low is not None and low is not (m["has"] is m["sle"]):
                eng.report(st, ins, "parts-swapped",
                           "the elements with the greater exponents are where those with the smaller ones are looked for")
        if self.packed:
            top = [n for n in fresh(m) if not self.same(eng, st, n, at)][-1:]
            if not top:
                return
            top = top[0]
        else:
            top = N
            both = [self.cell(eng, st, addc(N, self.L[k])) for k in ("le", "gt")]
            if None in both or not any(self.same(eng, st, x, at) for x in both) or self.same(eng, st, both[0], both[1]) or \
                    not all(self.same(eng, st, x, at) or self.made(eng, st, x) for x in both):
                eng.report(st, ins, "part-lost", "after a split one of the parts is not below the new node")
        p = m.get("par")
        if p is STALE:
            return
        a = addc(mk("a", 0), self.L["root"]) if p is None else addc(p, m["side"])
        x = self.cell(eng, st, a)
        if x is None or not self.same(eng, st, x, top):
            eng.report(st, ins, "not-linked", "the node made by a split is not put where the divided node was")


def D06(ctx):
    ctx.rules.append("insertion typestate: the descent goes into a subtree only when the comparison of the new element's "
                     "exponent with the split it is about says so, and every node mask passed is lowered; the element goes "
                     "into the node the descent (or the comparison with a new split) has led to, behind its elements or "
                     "into the hole the moved elements have left, at the place the search has found when the order matters; "
                     "the node has one element more, its mask and the element's own mask in place")
    js = props_div.jobs(ctx, "Insert", lambda d: ["insert"], kinds=(1,), norebuild=True)
    for j in js:
        j["monitor"] = "props_insert:Insert"
        j["model"] = "props_insert:InsertModel"
        if j["cfg"]["LEAF"] == "1":
            # nothing in an insertion depends on there being room for one
            # element only, but then the end of the elements looks like a field
            j["cfg"]["LEAF"] = "3"
            j["defs"] = [x.replace("LEAF=1", "LEAF=3") for x in j["defs"]]
            j["label"] = props_div.label(" ".join(x for x in j["defs"] if "=" in x))
    run.run(ctx, js)
    ctx.need("configurations", 8)
    ctx.need("routing_decisions_checked", 16)
    ctx.need("placements_checked", 16)
    ctx.need("sides_checked", 16)
    ctx.need("divisions_checked", 8)
    ctx.ob(ctx.counts["routing_decisions_checked"] + ctx.counts["placements_checked"] + ctx.counts["exits_checked"])
