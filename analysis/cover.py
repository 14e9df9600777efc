"""Traversal coverage of the divisor finders.

The layout of nodes and entries comes from accessor functions in the harness
(vp_acc_*) that are compiled against the sources being analysed.
"""
from engine import *
from terms import *


def split_addr(t):
    """(atom, constant) of an address atom + constant"""
    c, items = lin(t)
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0], c
    return None, None


class Acc(Monitor):
    def __init__(self):
        self.val = None

    def ret(self, eng, st, ins, val):
        self.val = val
        self.cell = None
        for a, (v, t) in st.mem.items():
            if v is val:
                self.cell = a
        if self.cell is None and val is not None and not is_int(val) and offset_between(val, mk("a", 0)) is None:
            at = [a for a, (v, t) in st.mem.items() if v in val.leaves]
            if len(at) == 1:
                self.cell = at[0]


def layout(fs, job, model):
    """offsets by name"""
    L = {}
    for n in fs:
        if not n.startswith("vp_acc_"):
            continue
        m = Acc()
        Engine(fs[n], m, model(), job["label"]).run()
        k = n[len("vp_acc_"):]
        if m.val is None:
            raise AnalysisBroken("no layout: " + n)
        if is_int(m.val):
            L[k] = m.val.args[0]
        else:
            a = m.val
            if offset_between(a, mk("a", 0)) is None:
                a = m.cell
            o = None if a is None else offset_between(a, mk("a", 0))
            if o is None:
                raise AnalysisBroken("no layout: %s is %s" % (n, m.val))
            L[k] = o
    return L


def bitimplies(t, x, y):
    """does every bit set in t have x set and y clear? t over x and y only"""
    def ev(t, bx, by):
        if t is x:
            return bx
        if t is y:
            return by
        if t.tag == "int":
            if t.args[0] == 0:
                return 0
            if t.args[0] in (-1, 0xffffffff):
                return 1
            raise ValueError
        if t.tag == "f" and t.args[0] in ("and", "or", "xor") and len(t.args) == 3:
            a, b = ev(t.args[1], bx, by), ev(t.args[2], bx, by)
            return {"and": a & b, "or": a | b, "xor": a ^ b}[t.args[0]]
        c, items = lin(t)
        if c == -1 and len(items) == 1 and items[0][1] == -1:
            return 1 - ev(items[0][0], bx, by)      # ~a == -1 - a
        raise ValueError
    c, items = lin(t)
    if c == 0 and sorted(k for _, k in items) == [-1, 1]:
        # zero when two words are the same
        p, q = [a for a, k in items]
        t = fn("xor", p, q)
    try:
        return all(not ev(t, a, b) or (a == 1 and b == 0) for a in (0, 1) for b in (0, 1))
    except ValueError:
        return None


def words(t, out):
    """the operands of a bitwise term"""
    if t.tag == "int":
        return out
    if t.tag == "f" and t.args[0] in ("and", "or", "xor") and len(t.args) == 3:
        words(t.args[1], out)
        words(t.args[2], out)
        return out
    c, items = lin(t)
    if c == -1 and len(items) == 1 and items[0][1] == -1:
        return words(items[0][0], out)
    if c == 0 and sorted(k for _, k in items) == [-1, 1]:
        for a, k in items:
            words(a, out)
        return out
    out.add(t)
    return out


KIND = {"find": "div", "findconst": "div", "findit": "div", "alldiv": "div", "alldivconst": "div",
        "allmul": "mul", "allmulconst": "mul", "removemul": "mul", "forall": "all", "forallconst": "all"}


class Cover(Monitor):
    prepare = staticmethod(lambda fs, job: layout(fs, job, Cover.MODEL))
    MODEL = None

    def __init__(self, root, fs, job, shared):
        self.root = root
        self.L = shared
        self.kind = KIND[root]
        self.cfg = job["cfg"]
        self.tree = self.cfg["KIND"] == "1"
        self.packed = self.tree and self.cfg["PACKED"] == "1"
        self.linked = not self.tree and self.cfg["LINKED"] == "1"
        self.eo = shared["entry"]
        self.S = shared["entrysize"]
        self.ret_decides = root.startswith("find")

    def start(self, eng, st):
        m = st.mon
        m["did"] = frozenset()       # what has been settled of the current node
        m["cand"] = frozenset()
        if not self.tree:
            m["N"] = mk("a", 0)
            m["root"] = 1

    def merge_extra(self, eng, st):
        """a loop variable that is known to sit at the frontier stays known to"""
        out = set()
        for k in ("eL", "eH", "cL", "cH", "w"):
            t = st.mon.get(k)
            if t is None or t is STALE:
                continue
            for a, v in st.eqs.items():
                if a.tag == "h" and self.off(eng, st, a, t) is not None:
                    out.add((a, v))
        return frozenset(out)

    # ---- small helpers
    def same(self, eng, st, a, b):
        return a is b or (a is not STALE and b is not STALE and eng.truth(st, EQ(a, b)) is True)

    def off(self, eng, st, a, b):
        """a - b if constant"""
        if a is None or b is None or a is STALE or b is STALE:
            return None
        d = offset_between(a, b)
        if d is None:
            d = offset_between(eng.norm(st, a), eng.norm(st, b))
        return d

    def cell(self, eng, st, a):
        v = st.mem.get(eng.norm(st, a)) or st.mem.get(a)
        return v[0] if v else None

    def set(self, st, *what):
        st.mon["did"] = st.mon["did"] | set(what)

    def stopped(self, eng, st):
        return st.mon.get("stop")

    # ---- ranges: entries ("e") and children ("c") of the current node
    def first(self, eng, st, r):
        if r == "c":
            return addc(st.mon["N"], self.L["cbegin"])
        if self.tree:
            return addc(st.mon["N"], self.L["begin"])
        v = addc(mk("a", 0), self.L["list"])
        if self.linked:
            return fn("list_begin", *eng.model.ver(eng, st, v))
        return eng.model.vbegin(*eng.model.ver(eng, st, v))

    def last(self, eng, st, r):
        if r == "c":
            return self.cell(eng, st, addc(st.mon["N"], self.L["cend"]))
        if self.tree:
            return self.cell(eng, st, addc(st.mon["N"], self.L["end"]))
        v = addc(mk("a", 0), self.L["list"])
        if self.linked:
            return fn("list_end", v)
        return eng.model.vend(*eng.model.ver(eng, st, v))

    def size(self, r):
        return self.L["childsize"] if r == "c" else self.S

    def touch(self, eng, st, ins, r, addr, step=True):
        """addr lies in an element of range r that is being looked at; True if it does"""
        m = st.mon
        S = self.size(r)
        p = m.get(r + "p")
        if p is not None:
            d = self.off(eng, st, addr, p)
            if d is not None and 0 <= d < S:
                return True
        lo, hi = m.get(r + "L"), m.get(r + "H")
        F = self.first(eng, st, r) if lo is None else lo
        d = self.off(eng, st, addr, F)
        if d is not None and 0 <= d < S:
            if step and r == "e" and m.get("eE") is None:
                G = self.last(eng, st, r)
                if G is not None and G is not STALE:
                    m["eE"] = G         # where the entries end when the scan starts
            if step:
                self.settle(eng, st, ins, r)
                m[r + "p"] = addc(addr, -d)
                m[r + "L"] = addc(addr, S - d)
                self.pending(eng, st, r)
            return True
        G = self.last(eng, st, r) if hi is None else hi
        if step and r == "e" and m.get("eE") is None and G is not None and G is not STALE:
            m["eE"] = G         # where the entries end when the scan starts
        d = self.off(eng, st, addr, G)
        if d is not None and -S <= d < 0:
            if step:
                self.settle(eng, st, ins, r)
                m[r + "p"] = addc(addr, -d - S)
                m[r + "H"] = addc(addr, -d - S)
                self.pending(eng, st, r)
            return True
        return False

    def touch_node(self, eng, st, ins, n, step=True):
        """linked list"""
        m = st.mon
        p = m.get("ep")
        if p is not None and self.same(eng, st, p, n):
            return True
        F = m.get("eL")
        if F is None:
            F = self.first(eng, st, "e")
        if self.same(eng, st, n, F):
            if step:
                self.settle(eng, st, ins, "e")
                m["ep"] = n
                m["eL"] = fn("list_next", n)
                self.pending(eng, st, "e")
            return True
        return False

    def pending(self, eng, st, r):
        st.mon["did"] = st.mon["did"] - {r + "ok", "hit", "rep"}
        self.decide(eng, st)

    def settle(self, eng, st, ins, r):
        m = st.mon
        if m.get(r + "p") is None:
            return
        self.decide(eng, st)
        did = m["did"]
        if m.get("stop"):
            pass
        elif r == "e":
            eng.count("elements_checked")
            if "hit" in did and "rep" not in did:
                eng.report(st, ins, "hit-not-reported",
                           "an element that was found to be an answer is left without being reported")
            elif r + "ok" not in did:
                eng.report(st, ins, "element-skipped",
                           "the scan moves on from an element although neither the divisibility test nor its mask "
                           "has ruled it out")
        else:
            eng.count("subtrees_checked")
            if r + "ok" not in did:
                eng.report(st, ins, "subtree-skipped",
                           "the traversal moves on from a subtree that has neither been scheduled nor ruled out by "
                           "its split or its mask")
        del m[r + "p"]
        m["did"] = m["did"] - {r + "ok", "hit", "rep"}

    def entry_of(self, p):
        """address of the entry object of element p"""
        if self.linked:
            return addc(fn("list_elem", p), self.eo)
        return addc(p, self.eo)

    def beyond(self, eng, st, F, G, S):
        """F >= G because of a comparison of indices or addresses"""
        d = sub(F, G)
        if d.tag == "int":
            return d.args[0] >= 0
        for f, v in st.facts.items():
            if f.tag in ("ult", "slt") and not v and not f.args[0].leaves.isdisjoint(d.leaves):
                e = sub(f.args[0], f.args[1])
                if e is d or Engine.mulc(e, S) is d:
                    return True
        return False

    def complete(self, eng, st, r):
        m = st.mon
        if r + "full" in m["did"]:
            return True
        lo, hi = m.get(r + "L"), m.get(r + "H")
        F = self.first(eng, st, r) if lo is None else lo
        G = self.last(eng, st, r) if hi is None else hi
        if r == "e" and hi is None and m.get("eE") is not None:
            G = m["eE"]
        if G is not None and self.same(eng, st, F, G):
            return True
        if G is not None and F is not STALE and G is not STALE and self.beyond(eng, st, F, G, self.size(r)):
            return True
        if r == "e" and self.tree and self.cfg["LEAF"] == "1" and (lo is not None or hi is not None):
            return True
        if r == "e" and self.kind == "div":
            u = m.get("up")
            if u is not None and self.same(eng, st, F, u):
                return True
        return False

    def kind_of(self, eng, st):
        """binary tree: is the current node known to be a leaf or not?"""
        m = st.mon
        if not self.tree or self.packed:
            return "leaf"
        if m.get("kind") is None:
            x = self.cell(eng, st, addc(m["N"], self.L["leaf"]))
            v = None if x is None else eng.truth(st, EQ0(x))
            if v is None and x is not None:
                for f, w in st.facts.items():
                    if f.tag == "eq0" and x in f.leaves:
                        t = f.args[0]
                        if t is x or (t.tag == "f" and t.args[0] in ("and", "trunc") and x in t.args):
                            v = w
            if v is not None:
                m["kind"] = "interior" if v else "leaf"
        return m.get("kind")

    # ---- what is known about the pending things
    def decide(self, eng, st):
        m = st.mon
        did = set(m["did"])
        N = m.get("N")
        if N is None:
            return
        if m.get("ep") is not None and ("eok" not in did or "hit" in did):
            self.decide_entry(eng, st, did)
        if self.tree:
            if self.packed:
                if m.get("cp") is not None and "cok" not in did:
                    v = self.split(eng, st, m["cp"])
                    if v is False and self.kind == "div":
                        did.add("cok")
                    if self.kind != "all" and self.rejected(eng, st, addc(m["cp"], self.L.get("nodemask", 0)), "nodemask"):
                        did |= {"cok", "waived"}
                if m.get("cp") is not None and self.kind == "mul" and "cok" in did and \
                        self.split(eng, st, m["cp"]) is True:
                    did.add("waived")
            else:
                v = self.split(eng, st, N)
                if v is False and self.kind == "div":
                    did.add("gt")
                if v is True and self.kind == "mul":
                    did.add("le")
                if self.kind != "all" and self.rejected(eng, st, addc(N, self.L.get("nodemask", 0)), "nodemask"):
                    did.add("waived")
            if self.kind != "all" and self.rejected(eng, st, addc(N, self.L.get("entriesmask", 0)), "entriesmask"):
                did.add("efull")
            if self.packed and "cfull" not in did and self.complete(eng, st, "c"):
                did.add("cfull")
        if "efull" not in did:
            m["did"] = frozenset(did)
            if self.complete(eng, st, "e"):
                did.add("efull")
        m["did"] = frozenset(did)
        if "efull" in did:
            if m.get("ep") is not None and "eok" in did and ("hit" not in did or "rep" in did):
                eng.count("elements_checked")
                m["did"] = m["did"] - {"eok", "hit", "rep"}
                m.pop("ep")
            for k in ("eL", "eH", "eE"):
                m.pop(k, None)

    def decide_entry(self, eng, st, did):
        m = st.mon
        p = m["ep"]
        e = self.entry_of(p)
        c = eng.content(st, e)
        if self.kind == "all":
            if "rep" in did:
                did.add("eok")
            return
        for f, v in st.facts.items():
            if f.tag == "f" and f.args[0] == "divides":
                x, y = f.args[1:3]
                if self.kind == "mul":
                    x, y = y, x
                if x is c or (x.tag == "c" and c.tag == "c" and x.args[1] is c.args[1] and
                              self.same(eng, st, x.args[0], c.args[0])):
                    if v:
                        did.add("hit")
                        if "rep" in did:
                            did.add("eok")
                    else:
                        did.add("eok")
            if f.tag == "f" and f.args[0] == "less" and v and self.kind == "div" and f.args[2] is c and \
                    self.sorted_on(eng, st):
                did |= {"eok", "efull"}
        if "entrymask" in self.L and "eok" not in did and "hit" not in did:
            base = fn("list_elem", p) if self.linked else p
            if self.rejected(eng, st, addc(base, self.L["entrymask"]), "entrymask"):
                did.add("eok")

    def sorted_on(self, eng, st):
        return any(f.tag == "f" and f.args[0] == "sortoninsert" and v for f, v in st.facts.items())

    def split(self, eng, st, base):
        """is exponent of the split < exponent of the query known?"""
        e = self.cell(eng, st, addc(base, self.L["exp"]))
        w = self.cell(eng, st, addc(base, self.L["var"]))
        if e is None or w is None:
            return None
        for f, v in st.facts.items():
            if f.tag == "slt" and f.args[0] is e:
                q = f.args[1]
                if q.tag == "f" and q.args[0] == "exp" and q.args[2] is w:
                    return v
        return None

    def rejected(self, eng, st, addr, what):
        """the mask kept at addr has been compared with the query and rules out"""
        if what not in self.L:
            return False
        x = self.cell(eng, st, addr)
        if x is None:
            return False
        for f, v in st.facts.items():
            if f.tag != "eq0" or v or x not in f.leaves and x not in words(f.args[0], set()):
                continue
            w = words(f.args[0], set())
            if x not in w or len(w) != 2:
                continue
            y = [z for z in w if z is not x][0]
            if self.kind == "mul" and what == "entrymask":
                ok = bitimplies(f.args[0], y, x)
            elif self.kind == "div":
                ok = bitimplies(f.args[0], x, y)
            else:
                ok = False
            eng.count("mask_rejections_checked")
            if ok:
                return True
        return False

    # ---- nodes
    def visit(self, eng, st, ins, M, kinds):
        m = st.mon
        for k in kinds:
            if k == "root":
                m["root"] = 1
            elif k in ("le", "gt"):
                self.set(st, k)
            elif k == "child":
                self.set(st, "cok")
            elif k == "pop":
                m.pop("must", None)
        if m.get("N") is not None:
            self.leave(eng, st, ins)
        eng.count("node_visits")
        m["N"] = M
        for k in ("ep", "eL", "eH", "eE", "cp", "cL", "cH", "up", "kind"):
            m.pop(k, None)
        m["did"] = frozenset()
        m["cand"] = frozenset()

    def leave(self, eng, st, ins):
        m = st.mon
        if m.get("N") is None or m.get("stop"):
            m.pop("N", None)
            return
        self.decide(eng, st)
        if "waived" not in m["did"]:
            self.settle(eng, st, ins, "e")
            if self.packed:
                self.settle(eng, st, ins, "c")
            did = m["did"]
            if self.packed:
                if not self.complete(eng, st, "c"):
                    eng.report(st, ins, "subtree-skipped",
                               "a node is left although not all of its subtrees have been scheduled or ruled out")
                if not self.complete(eng, st, "e"):
                    eng.report(st, ins, "entries-skipped",
                               "a node is left although not all of its entries have been looked at or ruled out")
            elif self.tree:
                if not ("le" in did and "gt" in did) and not self.complete(eng, st, "e"):
                    if did & {"le", "gt"}:
                        eng.report(st, ins, "subtree-skipped",
                                   "a node is left although one of its subtrees has neither been scheduled nor "
                                   "ruled out by the split or a mask")
                    else:
                        eng.report(st, ins, "entries-skipped",
                                   "a node is left although not all of its entries have been looked at or ruled out")
            elif not self.complete(eng, st, "e"):
                eng.report(st, ins, "entries-skipped",
                           "the scan ends although not all entries have been looked at or ruled out")
        m.pop("N", None)
        m["did"] = frozenset()

    # ---- hooks
    def load(self, eng, st, ins, addr, val):
        m = st.mon
        raw = eng.operand(st, ins["ptr"])
        if not self.tree:
            if self.linked:
                b, c = split_addr(raw)
                if b is not None and b.tag == "f" and b.args[0] == "list_elem":
                    if not self.touch_node(eng, st, ins, b.args[1]):
                        eng.report(st, ins, "element-skipped", "an element is looked at out of order")
            else:
                v = addc(mk("a", 0), self.L["list"])
                self.touch(eng, st, ins, "e", raw)
            return
        o = self.off(eng, st, addr, mk("a", 0))
        if o is not None:
            if o == self.L["root"]:
                m["cand"] = m["cand"] | {(val, "root")}
                m["rv"] = val
            return
        # the top of a stack of pending nodes
        if addr.leaves and ins["ty"] == "ptr":
            b, c = split_addr(addr)
            if b is not None and b.tag == "f" and b.args[0] == "vec_end" and c == -8:
                m["pv"] = val
                return
        b, c = split_addr(raw)
        if b is not None:
            self.enter(eng, st, ins, b)
        N = m.get("N")
        if N is None:
            return
        d = self.off(eng, st, raw, N)
        if d is not None and not self.packed and d in (self.L["le"], self.L["gt"]) and ins["ty"] == "ptr":
            k = "le" if d == self.L["le"] else "gt"
            if self.kind_of(eng, st) != "leaf":
                m["cand"] = m["cand"] | {(val, k)}
        if self.kind_of(eng, st) == "interior" or (d is not None and d == self.L.get("leaf")):
            return
        if d == self.L["end"] and self.kind_of(eng, st) == "leaf":
            eng.assume(st, EQ0(val), False)     # the end of the entries points into the node
            return
        if self.packed and self.touch(eng, st, ins, "c", raw, step=False) and \
                not (d is not None and d < self.L["cbegin"]):
            self.touch(eng, st, ins, "c", raw)
            if self.off(eng, st, raw, addc(m["cp"], self.L["link"])) == 0:
                m["cand"] = frozenset(x for x in m["cand"] if x[1] != "child") | {(val, "child")}
            return
        self.touch(eng, st, ins, "e", raw)

    def enter(self, eng, st, ins, b):
        """something based at b is looked at: is that a node to be visited?"""
        m = st.mon
        hit = [(v, k) for v, k in m["cand"] if v is b or v is eng.norm(st, b)]
        if not hit:
            hit = [(v, k) for v, k in m["cand"] if self.same(eng, st, v, b)]
        if hit:
            self.visit(eng, st, ins, b, [k for v, k in hit])

    def look(self, eng, st, ins, e):
        """the entry at e is examined by a call"""
        if self.linked:
            b, c = split_addr(addc(e, -self.eo))
            if b is not None and b.tag == "f" and b.args[0] == "list_elem":
                if not self.touch_node(eng, st, ins, b.args[1]):
                    eng.report(st, ins, "element-skipped", "an element is looked at out of order")
            return
        if self.tree:
            b, c = split_addr(e)
            if b is not None:
                self.enter(eng, st, ins, b)
        if st.mon.get("N") is not None:
            self.touch(eng, st, ins, "e", addc(e, -self.eo))

    def before(self, eng, st, ins, name, args):
        m = st.mon
        if name.startswith("vpra_divides_"):
            self.look(eng, st, ins, args[0] if name.endswith("EM") else args[1])
        if name.startswith("vpra_less_"):
            self.look(eng, st, ins, args[0] if name.endswith("EM") else args[1])
        if name == "vpi_vec_pop" and self.tree:
            self.leave(eng, st, ins)
            if m.get("must") and not m.get("stop"):
                eng.report(st, ins, "subtree-skipped", "a scheduled subtree is taken from the stack but never looked at")
            pv = m.pop("pv", None)
            top = addc(eng.model.vend(*eng.model.ver(eng, st, args[0])), -8)
            if pv is None:
                pv = self.cell(eng, st, top)
            if pv is None:
                eng.report(st, ins, "subtree-skipped", "a scheduled subtree is dropped from the stack")
            else:
                m["cand"] = frozenset([(pv, "pop")])
                m["must"] = 1
        if name == "vpi_vec_clear" and self.tree:
            if not m.get("stop"):
                m["cleared"] = 1
        if name == "vpi_list_erase":
            p = m.get("ep")
            self.decide(eng, st)
        if name in ("vpi_proceed", "vpi_pushback"):
            self.look(eng, st, ins, args[1])
            p = m.get("ep")
            if p is not None and self.same(eng, st, self.entry_of(p), args[1]):
                self.decide(eng, st)
                if "rep" in m["did"] and not m.get("stop"):
                    eng.report(st, ins, "reported-twice", "an element is reported a second time")
                self.set(st, "rep", "eok")

    def call(self, eng, st, ins, name, args, res):
        m = st.mon
        if name == "vpi_vec_pushp" and self.tree:
            eng.count("pushes")
            for v, k in m["cand"]:
                if v is args[1] or self.same(eng, st, v, args[1]):
                    if k == "root":
                        m["root"] = 1
                    elif k == "child":
                        self.set(st, "cok")
                    else:
                        self.set(st, k)
                    m["cand"] = m["cand"] - {(v, k)}
        if name == "vpr_alg_upper" and self.kind == "div":
            F, G = self.first(eng, st, "e") if m.get("N") is not None else None, None
            if F is not None:
                G = self.last(eng, st, "e")
            w = args[3]
            eo = self.eo
            if F is not None and G is not None and self.same(eng, st, args[0], F) and self.same(eng, st, args[1], G) \
                    and w.tag == "f" and w.args[0] == "less" and w.args[2].tag == "c" \
                    and self.same(eng, st, w.args[2].args[0], addc(args[2], eo)) and self.sorted_on(eng, st):
                m["up"] = res
        if name == "vpi_list_erase":
            p = m.get("ep")
            if p is not None and self.same(eng, st, p, args[1]):
                self.settle(eng, st, ins, "e")
                m["eL"] = res
                st.facts[EQ(fn("list_next", eng.norm(st, p)), res)] = True
        if name == "vpi_proceed":
            m["pr"] = m.get("pr", frozenset()) | {res}
        self.sync(eng, st)

    def sync(self, eng, st):
        m = st.mon
        pr = m.get("pr")
        if pr:
            keep = set()
            for t in pr:
                v = eng.truth(st, t) if t is not STALE else None
                if v is False:
                    m["stop"] = 1
                elif v is None and t is not STALE:
                    keep.add(t)
            if keep:
                m["pr"] = frozenset(keep)
            else:
                del m["pr"]

    def branch(self, eng, st, ins, cond, val):
        self.sync(eng, st)
        self.impossible(eng, st)

    def impossible(self, eng, st):
        """an element that was looked at is not the end of the range"""
        m = st.mon
        p = m.get("ep")
        if p is not None and m.get("N") is not None:
            for G in (m.get("eE"), self.last(eng, st, "e")):
                if G is not None and G is not STALE and eng.truth(st, EQ(p, G)) is True:
                    m["stop"] = 1
        self.decide(eng, st)

    def ret(self, eng, st, ins, val):
        m = st.mon
        eng.count("exits_checked")
        if self.ret_decides:
            if val is None:
                raise AnalysisBroken("no result")
            if eng.truth(st, EQ0(val)) is not True and val is not ZERO:
                return              # an answer: nothing more is due (that it is one is D01)
        self.impossible(eng, st)
        if m.get("stop"):
            return
        if m.get("cleared"):
            eng.report(st, ins, "subtree-skipped", "the scheduled subtrees are thrown away although more answers may be in them")
        if m.get("must"):
            eng.report(st, ins, "subtree-skipped", "a scheduled subtree is taken from the stack but never looked at")
        if not m.get("root"):
            rv = m.get("rv")
            if rv is None or eng.truth(st, EQ0(rv)) is not True:
                eng.report(st, ins, "root-skipped", "the tree is not looked at although it may hold entries")
        if m.get("N") is not None:
            self.leave(eng, st, ins)
