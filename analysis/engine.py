"""Path-sensitive typestate dataflow over the normalised control-flow graph.

The analysis propagates sets of abstract states along the edges of the CFG to
a fixpoint (ESP style: the property automaton, kept in State.mon by a Monitor,
is tracked together with the branch outcomes it depends on). Values are value
numbers (terms.py); a branch outcome is a fact about the truth of a boolean
value number. At loop heads the values that vary are renamed to one atom per
head and variable, so that the set of states is finite and loops are analysed
for any number of iterations. Nothing is executed and no solver is involved.
"""
import math
import sys
from terms import *

sys.setrecursionlimit(10000)


BOOLTAGS = ("eq0", "slt", "ult", "not", "and", "xor")
CONTENT = mk("g", "<element contents>")


def uid(ins):
    return ins.get("id") or "b%d.%d" % ins["_pos"]


class AnalysisBroken(Exception):
    """The analysis could not give a verdict (never a pass)."""


class Function(object):
    def __init__(self, js):
        self.name = js["name"]
        self.args = js["args"]
        self.blocks = js["blocks"]
        self.n = len(self.blocks)
        self.succ = []
        self.pred = [[] for _ in range(self.n)]
        self.defs = {}
        for b, blk in enumerate(self.blocks):
            t = blk[-1]
            s = []
            if t["op"] == "br":
                s = list(t["succ"])
            elif t["op"] == "switch":
                s = [c[1] for c in t["cases"]] + [t["default"]]
            elif t["op"] == "invoke":
                s = [t["normal"], t["unwind"]]
            elif "succ" in t:
                s = list(t["succ"])
            self.succ.append(s)
            for x in s:
                self.pred[x].append(b)
            for k, i in enumerate(blk):
                i["_pos"] = (b, k)
                if "id" in i:
                    self.defs[i["id"]] = i
        self._loops()
        self._liveness()
        self._induction()

    def _loops(self):
        state = [0] * self.n
        self.retreat = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                elif state[s] == 1:
                    self.retreat.add((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}
        self.headers = set(h for _, h in self.retreat)
        self.loop = {}
        for u, h in self.retreat:
            body = self.loop.setdefault(h, set([h]))
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(self.pred[x])

    def operands(self, i):
        for k in ("ptr", "val", "base", "a", "b", "cond", "fptr"):
            if k in i:
                yield i[k]
        for k in ("args", "ops"):
            for o in i.get(k, ()):
                yield o
        for o in i.get("idx", ()):
            yield o[0]

    @staticmethod
    def _ids(o):
        if isinstance(o, dict):
            return Function._ids(o["base"])
        if isinstance(o, str) and o[0] == "i":
            return (o,)
        return ()

    def _liveness(self):
        use = [set() for _ in range(self.n)]
        de = [set() for _ in range(self.n)]
        phiuse = {}
        for b, blk in enumerate(self.blocks):
            for i in blk:
                if i["op"] == "phi":
                    de[b].add(i["id"])
                    for p, o in i["in"]:
                        for x in self._ids(o):
                            phiuse.setdefault((p, b), set()).add(x)
                    continue
                for o in self.operands(i):
                    for x in self._ids(o):
                        if x not in de[b]:
                            use[b].add(x)
                if "id" in i:
                    de[b].add(i["id"])
        self.livein = [set() for _ in range(self.n)]
        ch = True
        order = sorted(range(self.n), key=lambda b: -self.rpo.get(b, 0))
        while ch:
            ch = False
            for b in order:
                out = set()
                for s in self.succ[b]:
                    out |= self.livein[s]
                    out |= phiuse.get((b, s), set())
                # phis of b are defined at the start of b
                new = use[b] | (out - de[b])
                if new != self.livein[b]:
                    self.livein[b] = new
                    ch = True
        self.liveafter_phi = []
        for b, blk in enumerate(self.blocks):
            self.liveafter_phi.append(None)

    def _induction(self):
        """phis of loop heads whose next value is computed from themselves"""
        self.ind = set()
        for h in self.headers:
            for i in self.blocks[h]:
                if i["op"] != "phi":
                    continue
                seen = {}
                work = []
                for p, o in i["in"]:
                    if (p, h) in self.retreat:
                        for x in self._ids(o):
                            work.append((x, False))
                hit = False
                while work and not hit:
                    x, comp = work.pop()
                    if x == i["id"]:
                        if comp:
                            hit = True
                        continue
                    if seen.get(x, None) is not None and (seen[x] or not comp):
                        continue
                    seen[x] = comp
                    d = self.defs[x]
                    if d["op"] == "phi":
                        for _, o in d["in"]:
                            for y in self._ids(o):
                                work.append((y, comp))
                    elif d["op"] in ("select",):
                        for o in d["ops"][1:]:
                            for y in self._ids(o):
                                work.append((y, comp))
                    elif d["op"] in ("freeze", "bitcast", "zext", "sext"):
                        for o in d["ops"]:
                            for y in self._ids(o):
                                work.append((y, comp))
                    elif d["op"] == "load":
                        continue
                    elif d["op"] == "call":
                        if pure_call(d["callee"]):
                            for o in d["args"]:
                                for y in self._ids(o):
                                    work.append((y, True))
                    else:
                        for o in self.operands(d):
                            for y in self._ids(o):
                                work.append((y, True))
                if hit:
                    self.ind.add(i["id"])


        # what counters are compared with
        self.bounds = {}
        for i in self.defs.values():
            if i["op"] == "icmp" and i["oty"] != "i1" and i["pred"][0] in "us":
                for k, o, preds in ((i["a"], i["b"], ("lt", "ge")), (i["b"], i["a"], ("gt", "le"))):
                    if isinstance(k, str) and k in self.ind and i["pred"][1:] in preds:
                        self.bounds.setdefault(k, set()).add((i["pred"][0] + "lt", o if isinstance(o, str) else None))

    def origins(self, o):
        """the definitions a pointer value is computed from, through phis,
        selects and address arithmetic"""
        c = self.__dict__.setdefault("_orig", {})
        if not isinstance(o, str) or o[0] != "i":
            return frozenset([str(o)])
        if o in c:
            return c[o]
        seen, out, work = set(), set(), [o]
        while work:
            x = work.pop()
            if not isinstance(x, str):
                x = x.get("base", str(x))
            if x in seen:
                continue
            seen.add(x)
            d = self.defs.get(x)
            if d is None:
                out.add(x)
            elif d["op"] == "phi":
                work.extend(y for _, y in d["in"])
            elif d["op"] == "select":
                work.extend(d["ops"][1:])
            elif d["op"] == "getelementptr":
                work.append(d["base"])
            elif d["op"] in ("freeze", "bitcast"):
                work.append(d["ops"][0])
            else:
                out.add(x)
        c[o] = frozenset(out)
        return c[o]


def pure_call(n):
    return n.startswith("vpp_") or n.startswith("vpr_") or n.startswith("vpra_")


class State(object):
    __slots__ = ("regs", "mem", "cont", "ver", "facts", "eqs", "mon", "snap", "node", "trace")

    def copy(self):
        s = State()
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.cont = dict(self.cont)
        s.ver = dict(self.ver)
        s.facts = dict(self.facts)
        s.eqs = dict(self.eqs)
        s.mon = dict(self.mon)
        s.snap = dict(self.snap)
        s.node = self.node
        s.trace = self.trace
        return s

    def key(self):
        f = frozenset
        return (f(self.regs.items()), f(self.mem.items()), f(self.cont.items()),
                f(self.ver.items()), f(self.facts.items()), f(self.eqs.items()),
                f(self.mon.items()), f(self.snap.items()))


def walk_terms(v):
    if isinstance(v, Term):
        yield v
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            for y in walk_terms(x):
                yield y


def map_terms(v, f):
    if isinstance(v, Term):
        return f(v)
    if isinstance(v, tuple):
        return tuple(map_terms(x, f) for x in v)
    if isinstance(v, frozenset):
        return frozenset(map_terms(x, f) for x in v)
    return v


class Monitor(object):
    """A property automaton. Override what is needed."""
    # names of opaque calls whose listed arguments are entries (their content
    # decides the result) and which arguments are ignored
    def start(self, eng, st):
        pass

    def call(self, eng, st, ins, name, args, res):
        pass

    def load(self, eng, st, ins, addr, val):
        pass

    def store(self, eng, st, ins, addr, val):
        pass

    def branch(self, eng, st, ins, cond, val):
        pass

    def ret(self, eng, st, ins, val):
        pass

    def resume(self, eng, st, ins):
        pass

    def edge(self, eng, st, src, dst):
        pass

    def keep(self, st):
        return ()

    def merge_extra(self, eng, st):
        return ()


class Engine(object):
    MAX_NODES = 150000

    def __init__(self, fn, monitor, model, label=""):
        self.fn = fn
        self.mon = monitor
        self.model = model
        self.label = label
        self.reports = {}
        self.nodes = []          # (block, parent, trace)
        self.stats = {"states": 0, "instrs": 0, "returns": 0}
        self.events = {}

    # ---- reporting ----
    def count(self, what, n=1):
        self.events[what] = self.events.get(what, 0) + n

    def report(self, st, ins, rule, msg):
        loc = ins.get("loc") or ["?"]
        # attribute to the innermost frame in the analysed sources
        key = (rule, src_loc(loc))
        if key in self.reports:
            return
        self.reports[key] = {
            "rule": rule, "where": src_loc(loc), "chain": loc, "message": msg,
            "function": self.fn.name, "config": self.label,
            "path": self.path(st)}

    def path(self, st):
        out = []
        tr = list(st.trace)
        n = st.node
        chunks = [tr]
        while n is not None:
            b, parent, t = self.nodes[n]
            chunks.append(list(t))
            n = parent
        for c in reversed(chunks):
            for x in c:
                if not out or out[-1] != x:
                    out.append(x)
        return out[-60:]

    # ---- values ----
    def operand(self, st, o):
        if isinstance(o, dict):
            return addc(self.operand(st, o["base"]), o["off"])
        c = o[0]
        if c == "i":
            r = st.regs.get(o)
            return STALE if r is None else r
        if c == "a":
            return mk("a", int(o[1:]))
        if c == "c":
            return num(int(o[1:]))
        if c == "u":
            return UNDEF
        if c == "g":
            return mk("g", o[2:])
        return mk("k", o)

    def norm(self, st, t):
        if not st.eqs:
            return t
        for _ in range(4):
            if t.leaves.isdisjoint(st.eqs):
                return t
            n = subst(t, {}, st.eqs, {})
            if n is t or n is STALE:
                return t
            t = n
        return t

    def resolve(self, st, t):
        """Canonical form of an address or value under the known equalities."""
        return self.norm(st, t)

    def same(self, st, a, b):
        """True if a == b is known."""
        return self.truth(st, EQ(a, b)) is True

    def truth(self, st, b, depth=0):
        if b.tag == "int":
            return b.args[0] != 0
        if b is STALE or b is UNDEF:
            return None
        v = st.facts.get(b)
        if v is not None:
            return v
        if b.tag == "not":
            v = self.truth(st, b.args[0], depth)
            return None if v is None else not v
        if b.tag == "and":
            x = self.truth(st, b.args[0], depth)
            if x is False:
                return False
            y = self.truth(st, b.args[1], depth)
            if y is False:
                return False
            return True if x and y else None
        if b.tag == "xor":
            x = self.truth(st, b.args[0], depth)
            y = self.truth(st, b.args[1], depth)
            return None if x is None or y is None else x != y
        if st.eqs and not b.leaves.isdisjoint(st.eqs):
            n = self.norm(st, b)
            if n is not b:
                v = self.truth(st, n, depth)
                if v is not None:
                    return v
        if b.tag == "eq0":
            d = b.args[0]
            v = self.nonzero(st, d)
            if v:
                return False
            if depth < 2:
                c0, items = lin(d)
                g = math.gcd(c0, *[k for _, k in items])
                if g > 1 and self.truth(st, EQ0(Engine.divt(d, g)), 1) is True:
                    return True
                atoms = set(a for a, _ in items)
                for f, tv in list(st.facts.items()):
                    if tv and f.tag == "eq0":
                        e = f.args[0]
                        if e is d:
                            continue
                        if atoms.isdisjoint(a for a, _ in lin(e)[1]):
                            continue
                        for k in (1, -1):
                            x = EQ0(add(d, e, k))
                            if x is TRUE:
                                return True
                            if x is FALSE:
                                return False
                            if len(lin(x.args[0])[1] if x.tag == "eq0" else ()) < len(items) + 1 or x.tag != "eq0":
                                v = st.facts.get(x)
                                if v is None and depth < 1:
                                    v = self.truth(st, x, depth + 1)
                                if v is not None:
                                    return v
                    if tv and f.tag in ("slt", "ult"):
                        # a < b and d == +-(a-b)
                        y = neg_canon(sub(f.args[0], f.args[1]))
                        if y is d:
                            return False
                    elif tv is False and f.tag in ("slt", "ult") and \
                            st.facts.get(mk(f.tag, f.args[1], f.args[0])) is False:
                        # neither a < b nor b < a
                        if EQ(f.args[0], f.args[1]) is b:
                            return True
            return None
        if b.tag in ("slt", "ult"):
            x, y = b.args
            for tg in ("slt", "ult"):
                if st.facts.get(mk(tg, y, x)) and tg == b.tag:
                    return False
            if self.truth(st, EQ(x, y), 1) is True:
                return False
            # x < y with a known bound by constants
            if b.tag == "slt" or True:
                r = self._range(st, b)
                if r is not None:
                    return r
            # not(y < x) and x != y  ==> x < y
            if st.facts.get(mk(b.tag, y, x)) is False and self.truth(st, EQ(x, y), 1) is False:
                return True
        return None

    def _range(self, st, b):
        x, y = b.args
        if not (is_int(x) or is_int(y)):
            return None
        lo = hi = None
        t = y if is_int(x) else x
        for f, v in st.facts.items():
            if f.tag == b.tag:
                p, q = f.args
                if p is t and is_int(q):
                    if v:
                        hi = q.args[0] - 1 if hi is None else min(hi, q.args[0] - 1)
                    else:
                        lo = q.args[0] if lo is None else max(lo, q.args[0])
                elif q is t and is_int(p):
                    if v:
                        lo = p.args[0] + 1 if lo is None else max(lo, p.args[0] + 1)
                    else:
                        hi = p.args[0] if hi is None else min(hi, p.args[0])
            elif f.tag == "eq0" and v:
                d = sub(f.args[0], t)
                if is_int(d):
                    lo = hi = -d.args[0]
                d = add(f.args[0], t)
                if is_int(d):
                    lo = hi = d.args[0]
        if is_int(x):    # c < t
            if lo is not None and x.args[0] < lo:
                return True
            if hi is not None and x.args[0] >= hi:
                return False
        else:
            if hi is not None and hi < y.args[0]:
                return True
            if lo is not None and lo >= y.args[0]:
                return False
        return None

    def nonzero(self, st, d):
        """the value d cannot be zero (addresses of objects)"""
        c, items = lin(d)
        pos = [a for a, k in items if k == 1]
        if len(items) == 1 and len(pos) == 1 and self.is_object(st, pos[0]):
            return True
        if len(items) == 2 and len(pos) == 1:
            a, b = items[0][0], items[1][0]
            if items[0][1] + items[1][1] == 0 and self.distinct(st, a, b):
                return True
        return False

    def is_object(self, st, a):
        if a.tag in ("al", "g"):
            return True
        if a.tag == "a":
            return a.args[0] < len(self.fn.args) and self.fn.args[a.args[0]] == "ptr"
        if a.tag == "v":
            i = self.fn.defs.get(a.args[0])
            return i is not None and self.model.is_alloc(i)
        return False

    def distinct(self, st, a, b):
        """a and b are bases of different objects"""
        ka, kb = a.tag, b.tag
        if a is b:
            return False
        loc = ("al", "g")
        if ka in loc and kb in loc:
            return True
        for p, q in ((a, b), (b, a)):
            if p.tag in loc and (q.tag == "a" or q.tag in ("v", "h", "f", "old", "m")):
                if p.tag == "al" or q.tag == "a":
                    return True
            if p.tag == "a" and p.args[0] < len(self.fn.args) and self.fn.args[p.args[0]] == "ptr":
                if q.tag == "a":
                    return not self.model.same_range(self.fn, p.args[0], q.args[0])
                if self.model.arg_is_private(self.fn, p.args[0]) and q.tag in ("v", "h", "f", "old", "m") and \
                        not self.model.same_range(self.fn, p.args[0], p.args[0]) and \
                        not self.walks(q, p.args[0]):
                    return True
            if p.tag == "v":
                i = self.fn.defs.get(p.args[0])
                if i is not None and self.model.is_alloc(i):
                    if q.tag == "v":
                        j = self.fn.defs.get(q.args[0])
                        if j is not None and self.model.is_alloc(j):
                            return True
                    elif q.tag == "h" and q.args[0] in self.fn.defs:
                        # walks over memory that was allocated elsewhere
                        os = self.fn.origins(q.args[0])
                        if p.args[0] not in os and os and \
                                all(o in self.fn.defs and self.model.is_alloc(self.fn.defs[o]) for o in os):
                            return True
        return False

    def walks(self, t, k):
        """a loop pointer that may have started at argument k"""
        while t.tag == "old":
            t = t.args[0]
        return t.tag == "h" and t.args[0] in self.fn.defs and "a%d" % k in self.fn.origins(t.args[0])

    def origin_calls(self, t):
        """callees of the calls an atom stands for the result of, or None"""
        while t.tag == "old":
            t = t.args[0]
        if t.tag not in ("v", "h") or t.args[0] not in self.fn.defs:
            return None
        r = set()
        for o in self.fn.origins(t.args[0]):
            d = self.fn.defs.get(o)
            r.add(d["callee"] if d is not None and d["op"] in ("call", "invoke") else None)
        return r

    def assume(self, st, b, val):
        """record b == val; False if contradictory"""
        t = self.truth(st, b)
        if t is not None:
            return t == val
        if b is STALE or b is UNDEF:
            return True
        if b.tag == "not":
            return self.assume(st, b.args[0], not val)
        if b.tag == "and":
            if val:
                return self.assume(st, b.args[0], True) and self.assume(st, b.args[1], True)
            if self.truth(st, b.args[0]) is True:
                return self.assume(st, b.args[1], False)
            if self.truth(st, b.args[1]) is True:
                return self.assume(st, b.args[0], False)
        if b.tag == "xor":
            x, y = self.truth(st, b.args[0]), self.truth(st, b.args[1])
            if x is not None:
                return self.assume(st, b.args[1], x != val)
            if y is not None:
                return self.assume(st, b.args[0], y != val)
        n = self.norm(st, b)
        if n is not b and n is not STALE:
            if n.tag == "int":
                return (n.args[0] != 0) == val
            if n.tag in ("not", "and", "xor"):
                return self.assume(st, n, val)
            st.facts[n] = val
        st.facts[b] = val
        # derived compound facts
        for f, v in list(st.facts.items()):
            if f.tag == "and" and not v:
                x, y = self.truth(st, f.args[0]), self.truth(st, f.args[1])
                if x is True and y is True:
                    return False
                if x is True and y is None:
                    if not self.assume(st, f.args[1], False):
                        return False
                if y is True and x is None:
                    if not self.assume(st, f.args[0], False):
                        return False
        return True

    # ---- memory ----
    def base_of(self, t):
        c, items = lin(t)
        b = [a for a, k in items if k == 1]
        return b

    def alias(self, st, a, ta, b, tb):
        """'must', 'may' or 'no'"""
        if a is b:
            return "must"
        if a is STALE or b is STALE:
            return "may" if self._tb(ta, tb) else "no"
        d = sub(a, b)
        if d.tag == "int":
            return "no"
        e = self.truth(st, EQ0(d))
        if e is True:
            return "must"
        if not self._tb(ta, tb):
            return "no"
        nd = self.norm(st, d)
        if nd.tag == "int":
            return "must" if nd.args[0] == 0 else "no"
        if self._separate(st, nd) or self.model.apart(self, st, a, b):
            return "no"
        if e is False and ta is not None and tb is not None and ta[:2] == tb[:2]:
            # different addresses of the same field of one type
            return "no"
        return "may"

    def _separate(self, st, d):
        c, items = lin(d)
        pos = [a for a, k in items if k == 1]
        neg = [a for a, k in items if k == -1]
        if len(pos) == 1 and len(neg) == 1 and (self.distinct(st, pos[0], neg[0]) or
                                                self.model.separate(self, st, pos[0], neg[0])):
            return True
        return False

    @staticmethod
    def _tb(ta, tb):
        """type based: may the two accesses overlap?"""
        if not ta or not tb:
            return True
        if ta[1] == "omnipotent char" or tb[1] == "omnipotent char":
            return True
        if ta[1] != tb[1]:
            return False
        if ta[0] == tb[0] and ta[0] != ta[1] and ta[2] != tb[2]:
            return False
        return True

    def kill(self, st, addr, tb):
        for a in list(st.mem):
            v, t = st.mem[a]
            r = self.alias(st, addr, tb, a, t)
            if r != "no":
                del st.mem[a]

    def private(self, a):
        """address inside a local variable or an object passed by reference"""
        bs = self.base_of(a)
        return len(bs) == 1 and (bs[0].tag == "al" or bs[0].tag == "a" and
                                 not self.model.same_range(self.fn, bs[0].args[0], bs[0].args[0]))

    def content(self, st, addr):
        if addr is STALE:
            return STALE
        a = self.norm(st, addr)
        r = st.cont.get(a)
        if r is not None:
            return r
        for x in st.cont:
            if self.truth(st, EQ(x, a)) is True:
                return st.cont[x]
        if self.private(a):
            return mk("c", a, ZERO)
        return mk("c", a, st.ver.get(CONTENT, ZERO))

    def mutate_content(self, st, ins, dst=None):
        """the content of any element that dst may be has changed"""
        for x in list(st.cont):
            if self.private(x):
                continue
            if dst is None or self.alias(st, x, None, dst, None) != "no":
                del st.cont[x]
        tok = mk("v", uid(ins) + "@")
        self.retire(st, tok)
        st.ver[CONTENT] = tok

    def set_content(self, st, ins, addr, val):
        a = self.norm(st, addr)
        if a is STALE:
            self.mutate_content(st, ins)
            return
        if self.private(a):
            for x in list(st.cont):
                if x is not a and self.private(x) and self.alias(st, x, None, a, None) != "no":
                    st.cont[x] = STALE
        else:
            self.mutate_content(st, ins, a)
            a = self.norm(st, addr)
        st.cont[a] = val

    # ---- renaming ----
    def rename(self, st, whole, leaf, dropped=None, scaled=None):
        """apply the substitution to the whole state; facts changed through an
        atom in `dropped` are forgotten"""
        cache = {"scaled": scaled} if scaled else {}
        f = lambda t: subst(t, whole, leaf, cache)
        st.regs = {k: f(v) for k, v in st.regs.items()}
        mem = {}
        for a, (v, t) in st.mem.items():
            na = f(a)
            if na is STALE:
                continue
            nv = f(v)
            if nv is STALE:
                continue
            mem[na] = (nv, t)
        st.mem = mem
        cont = {}
        for a, v in st.cont.items():
            na = f(a)
            if na is STALE:
                continue
            nv = f(v)
            if nv is STALE and not self.private(na):
                # the current version names it; nothing is known about it
                continue
            cont[na] = nv
        st.cont = cont
        st.ver = {f(a): f(v) for a, v in st.ver.items() if f(a) is not STALE}
        facts = {}
        for b, v in st.facts.items():
            if dropped and not b.leaves.isdisjoint(dropped):
                n = f(b)
                if n is not b:
                    continue
            else:
                n = f(b)
            if n is STALE:
                continue
            while n.tag == "not":
                n = n.args[0]
                v = not v
            if n.tag != "int":
                facts[n] = v
        st.facts = facts
        eqs = {}
        for a, v in st.eqs.items():
            na = f(a)
            if na is not a:
                continue
            nv = f(v)
            if nv is STALE or a in nv.leaves:
                continue
            if dropped and not v.leaves.isdisjoint(dropped) and nv is not v:
                continue
            eqs[a] = nv
        st.eqs = eqs
        st.mon = {k: map_terms(v, f) for k, v in st.mon.items()}
        st.snap = {k: map_terms(v, f) for k, v in st.snap.items()}

    def occurs(self, st, atom):
        for t in st.regs.values():
            if atom in t.leaves:
                return True
        for a, (v, _) in st.mem.items():
            if atom in a.leaves or atom in v.leaves:
                return True
        for a, v in st.cont.items():
            if atom in a.leaves or atom in v.leaves:
                return True
        for a, v in st.ver.items():
            if atom in a.leaves or atom in v.leaves:
                return True
        for b in st.facts:
            if atom in b.leaves:
                return True
        for b in st.eqs.values():
            if atom in b.leaves:
                return True
        if atom in st.eqs:
            return True
        for v in st.mon.values():
            for t in walk_terms(v):
                if atom in t.leaves:
                    return True
        return False

    def retire(self, st, atom):
        """atom is about to be redefined: rename the old value"""
        if not self.occurs(st, atom):
            return
        cands = [mk("old", atom, 1), mk("old", atom, 2)]
        for c in cands:
            if not self.occurs(st, c):
                self.rename(st, {}, {atom: c})
                return
        # forget the oldest
        self.rename(st, {}, {cands[1]: STALE, cands[0]: cands[1], atom: cands[0]})

    def fresh(self, st, ins):
        a = mk("v", uid(ins))
        self.retire(st, a)
        return a

    def gc(self, st, block):
        roots = set()
        for t in st.regs.values():
            roots |= t.leaves
        for v in st.mon.values():
            for t in walk_terms(v):
                roots |= t.leaves
        for t in self.mon.keep(st):
            roots |= t.leaves
        ch = True
        live = {}
        pend = dict(st.mem)
        while ch:
            ch = False
            for a in list(pend):
                if a.leaves <= roots:
                    v, t = pend.pop(a)
                    live[a] = (v, t)
                    if not v.leaves <= roots:
                        roots |= v.leaves
                    ch = True
            for a, v in st.eqs.items():
                if a in roots and not v.leaves <= roots:
                    roots |= v.leaves
                    ch = True
            for a, v in st.cont.items():
                if a.leaves <= roots and not v.leaves <= roots:
                    roots |= v.leaves
                    ch = True
            for a, v in st.ver.items():
                if a.leaves <= roots and not v.leaves <= roots:
                    roots |= v.leaves
                    ch = True
        st.mem = live
        st.cont = {a: v for a, v in st.cont.items() if a.leaves <= roots}
        st.ver = {a: v for a, v in st.ver.items() if a.leaves <= roots}
        st.eqs = {a: v for a, v in st.eqs.items() if a in roots}
        # what two facts say about each other through an atom that is forgotten
        lost = {}
        for b, v in st.facts.items():
            if b.tag == "eq0" and b.args[0].tag == "+":
                gone = [(a, k) for a, k in b.args[0].args[1] if not a.leaves <= roots]
                if len(gone) == 1 and gone[0][1] in (1, -1):
                    lost.setdefault(gone[0][0], []).append((b.args[0], gone[0][1], v))
        for a, group in lost.items():
            pivot = [(d, k) for d, k, v in group if v]
            if pivot and len(group) > 1:
                d, k = pivot[0]
                for d2, k2, v in group:
                    if d2 is not d:
                        x = EQ0(add(d2, d, -k * k2))
                        if x.tag == "eq0" and x.leaves <= roots:
                            st.facts.setdefault(x, v)
        st.facts = {b: v for b, v in st.facts.items() if b.leaves <= roots and b.depth < 14}
        for h in list(st.snap):
            if block not in self.fn.loop[h]:
                del st.snap[h]

    # ---- edges ----
    def edge(self, st, src, dst):
        """move st along src->dst; returns the state at the start of dst"""
        f = self.fn
        st = st.copy()
        self.mon.edge(self, st, src, dst)
        incoming = []
        for i in f.blocks[dst]:
            if i["op"] != "phi":
                break
            for p, o in i["in"]:
                if p == src:
                    x = self.operand(st, o)
                    if x is not STALE and x is not UNDEF and x.tag != "int" and \
                            (i.get("ty") == "i1" or x.tag in ("eq0", "ult", "slt", "b2i")):
                        b = self.truth(st, x.args[0] if x.tag == "b2i" else x)
                        if b is not None:
                            x = num(1 if b else 0)
                    incoming.append((i["id"], x))
                    break
        header = dst in f.headers
        back = (src, dst) in f.retreat
        live = f.livein[dst]
        st.regs = {k: v for k, v in st.regs.items() if k in live}
        if not header:
            for k, t in incoming:
                st.regs[k] = t
        elif not back:
            for k, t in incoming:
                a = mk("h", k)
                # a value of an earlier activation of the loop
                if self.occurs(st, a) or any(a in t2.leaves for _, t2 in incoming):
                    c = mk("old", a, 1)
                    if self.occurs(st, c):
                        c = mk("old", a, 2)
                        if self.occurs(st, c):
                            self.rename(st, {}, {c: STALE})
                    self.rename(st, {}, {a: c})
                    incoming = [(k2, subst(t2, {}, {a: c}, {})) for k2, t2 in incoming]
            whole = {}
            for k, t in incoming:
                a = mk("h", k)
                if k in f.ind:
                    st.regs[k] = a
                    if t is not UNDEF and t is not STALE:
                        st.eqs[a] = self.norm(st, t)
                else:
                    if t.tag in ("v", "h", "old") and t not in whole:
                        whole[t] = a
                    st.regs[k] = t
            if whole:
                self.rename(st, {}, whole)
            st.snap[dst] = frozenset((a, v[0]) for a, v in st.mem.items())
        else:
            self.back_edge(st, dst, incoming)
        self.gc(st, dst)
        return st

    def back_edge(self, st, dst, incoming):
        f = self.fn
        vars_ = []          # (atom, new value, old value or None, setter)
        for k, t in incoming:
            if k in f.ind:
                vars_.append((mk("h", k), t))
            elif t.leaves and t is not STALE and t is not UNDEF:
                vars_.append((mk("h", k), t))
        ind = set(mk("h", k) for k in f.ind)
        # memory cells that changed in this iteration are loop variables too
        snap = dict(st.snap.get(dst, ()))
        cells = []
        for a, (v, tb) in st.mem.items():
            if a in snap and snap[a] is v:
                continue
            if v.tag == "f" and v.args[0] in self.model.stable:
                continue
            if (v.leaves and (v.tag not in ("v", "h", "m", "old", "c") or v.depth > 4)) or \
                    (is_int(v) and abs(v.args[0]) > 2):
                if v.tag == "m" and v.args[0] == dst and v.args[1] is a:
                    continue
                m = mk("m", dst, a)
                cells.append((a, m, v, tb))
                vars_.append((m, v))
        whole = {}
        leaf = {}
        scaled = {}
        dropped = set()
        neweqs = {}
        pairs = []
        atoms = [a for a, _ in vars_]
        aset = set(atoms)
        for a, t in vars_:
            if t is STALE or t is UNDEF:
                continue
            d = sub(t, a)
            if d.tag == "int":
                if d.args[0]:
                    leaf[a] = addc(a, -d.args[0])
                    dropped.add(a)
                else:
                    leaf[a] = a
                continue
            d = add(t, a)
            if d.tag == "int" and a in t.leaves:
                leaf[a] = add(d, a, -1)
                dropped.add(a)
        for n, (a, t) in enumerate(vars_):
            if a in leaf or t is STALE or t is UNDEF:
                continue
            if a not in ind and a.tag == "h":
                if t not in whole and t.leaves:
                    whole[t] = a
                continue
            c, items = lin(t)
            if a in ind and len(items) == 1 and (c or items[0][1] != 1) and items[0][0] not in scaled:
                scaled[items[0][0]] = (items[0][1], c, a)
                if items[0][0].tag == "f":
                    # the state may know the same value by its resolved name
                    nt = self.norm(st, items[0][0])
                    if nt.tag == "f" and nt not in scaled:
                        scaled[nt] = (items[0][1], c, a)
            if is_int(t):
                neweqs[a] = t
            elif not t.leaves.isdisjoint(aset) and all(x in leaf for x in t.leaves if x in aset):
                neweqs[a] = ("post", t)
            elif t.leaves:
                if t not in whole:
                    whole[t] = a
                else:
                    neweqs[a] = ("post", t)
                if a in ind and t.tag == "f":
                    # the state may know the same value by its resolved name
                    nt = self.norm(st, t)
                    if nt is not t and nt.tag == "f" and nt not in whole:
                        whole[nt] = a
            else:
                neweqs[a] = t
        # a counter that steps by one below a bound does not pass it
        bounded = []
        for a, t in vars_:
            if a in ind and t is not STALE and t is not UNDEF and sub(t, a) is num(1):
                for tg, o in f.bounds.get(a.args[0], ()):
                    if o is None or o in f.defs and o not in st.regs:
                        continue
                    n = self.operand(st, o)
                    if n not in (STALE, UNDEF) and n.leaves.isdisjoint(aset) and \
                            self.truth(st, SLT(a, n, tg)) is True:
                        bounded.append((tg, n, a))
        # equalities between loop variables that are preserved
        vals = {}
        for a, t in vars_:
            if t in (STALE, UNDEF) or is_int(t):
                continue
            vals.setdefault(self.norm(st, t), []).append(a)
        for nt, group in vals.items():
            for x in group[1:]:
                pairs.append((group[0], x))
        opairs = []
        if getattr(self.mon, "offset_pairs", False):
            grp = {}
            for a, t in vars_:
                if t in (STALE, UNDEF):
                    continue
                c, items = lin(self.norm(st, t))
                grp.setdefault(items, []).append((a, c))
            for g in grp.values():
                for x, c in g[1:]:
                    opairs.append((g[0][0], g[0][1], x, c))
        # atoms that lose their old value
        for a in atoms + [mk("h", k) for k, _ in incoming if mk("h", k) not in aset]:
            if a not in leaf and self.occurs(st, a):
                c = mk("old", a, 1)
                if self.occurs(st, c):
                    c2 = mk("old", a, 2)
                    leaf[c] = c2
                    leaf[c2] = self.outer(st, dst, c2)
                leaf[a] = c
        for a in cells:
            del st.mem[a[0]]
        oldeqs = dict(st.eqs)
        oldregs = dict(st.regs)
        oldmon = {}
        outside = getattr(self.mon, "outside", ())
        if outside:
            before = st.copy()
            oldmon = {q: self.norm(st, x) if isinstance(x, Term) else x for q, x in st.mon.items() if q in outside}
        self.rename(st, whole, leaf, dropped, scaled)
        cache = {"scaled": scaled} if scaled else {}
        # a value from outside the loop that is only known relative to a loop
        # variable would get a new name in every iteration
        if dropped:
            for q, x in oldmon.items():
                if isinstance(x, Term) and not x.leaves.isdisjoint(dropped):
                    st.mon[q] = STALE
            for k, t in oldregs.items():
                n = st.regs.get(k)
                if n is not None and n is not t and not t.leaves.isdisjoint(dropped):
                    d = f.defs.get(k)
                    if d is not None and d["_pos"][0] not in f.loop[dst]:
                        w = mk("v", "W%d:%s" % (dst, k))
                        b = st.regs.get(d["base"]) if d["op"] == "getelementptr" and not d["idx"] else None
                        ob = oldregs.get(d["base"]) if b is not None else None
                        if b not in (None, STALE, UNDEF) and ob not in (None, STALE, UNDEF) and \
                                b.leaves.isdisjoint(dropped) and b.leaves.isdisjoint(aset) and t is addc(ob, d["off"]):
                            # the same distance from a value that has a name
                            w = addc(b, d["off"])
                        elif t is not w:
                            self.retire(st, w)
                        st.regs[k] = w
                        for q, x in oldmon.items():
                            if x is t or x is self.norm(before, t):
                                st.mon[q] = w
        for a in atoms + [mk("h", k) for k, _ in incoming]:
            if a in leaf and leaf[a] is a:
                continue
            st.eqs.pop(a, None)
        for a, t in neweqs.items():
            if isinstance(t, tuple):
                t = subst(t[1], whole, leaf, cache)
                if oldeqs.get(a) is not t and oldeqs.get(a) is not None:
                    continue
            if t is STALE or a in t.leaves or t.depth > 5:
                continue
            if is_int(t) and oldeqs.get(a) is not None and oldeqs.get(a) is not t:
                continue
            st.eqs[a] = t
        for x, y in pairs:
            if x in st.eqs and y in st.eqs:
                continue
            st.facts[EQ(x, y)] = True
        for tg, t, a in bounded:
            t = subst(t, whole, leaf, cache)
            if t is not STALE and leaf.get(a) is not STALE:
                st.facts[mk(tg, t, a)] = False
        for x, cx, y, cy in opairs:
            if x in st.eqs and y in st.eqs:
                continue
            st.facts[EQ(addc(x, -cx), addc(y, -cy))] = True
        for k, t in incoming:
            if k in f.ind:
                st.regs[k] = mk("h", k)
            else:
                st.regs[k] = subst(t, whole, leaf, cache)
        for a, m, v, tb in cells:
            na = subst(a, whole, leaf, cache)
            if na is not STALE:
                st.mem[na] = (m, tb)
        st.snap[dst] = frozenset((a, v[0]) for a, v in st.mem.items())

    def outer(self, st, dst, t):
        """a lasting name for a value from outside the loop that is still needed"""
        if self.occurs(st, t):
            for k, v in sorted(st.regs.items()):
                if v is t:
                    d = self.fn.defs.get(k)
                    if d is not None and d["_pos"][0] not in self.fn.loop[dst]:
                        w = mk("v", "W%d:%s" % (dst, k))
                        self.retire(st, w)
                        return w
        return STALE

    # ---- run ----
    def run(self):
        f = self.fn
        st = State()
        st.regs = {}
        st.mem = {}
        st.cont = {}
        st.ver = {}
        st.facts = {}
        st.eqs = {}
        st.mon = {}
        st.snap = {}
        st.node = None
        st.trace = ()
        self.mon.start(self, st)
        visited = [dict() for _ in range(f.n)]
        import heapq
        heap = []
        tick = [0]
        pending = set()

        def push(block, s, parent):
            k = self.merge_key(s, block)
            cur = visited[block].get(k)
            if cur is not None:
                m = self.merge(cur, s, block)
                if m is None:
                    return
                m.trace = s.trace
                s = m
            n = len(self.nodes)
            if n > self.MAX_NODES:
                raise AnalysisBroken("state limit in %s [%s]" % (f.name, self.label))
            self.nodes.append((block, parent, s.trace))
            s.node = n
            s.trace = ()
            visited[block][k] = s
            if (block, k) not in pending:
                pending.add((block, k))
                tick[0] += 1
                heapq.heappush(heap, (f.rpo[block], tick[0], block, k))

        push(0, st, None)
        while heap:
            _, _, b, k = heapq.heappop(heap)
            pending.discard((b, k))
            s = visited[b][k]
            self.stats["states"] += 1
            for dst, s2 in self.block(b, s):
                push(dst, self.edge(s2, b, dst), s.node)
        return self

    def merge_key(self, st, block):
        """States of one block that agree on this are merged."""
        if len(self.fn.pred[block]) < 2 or not self.MERGE:
            return st.key()
        b = []
        for k, t in st.regs.items():
            if t.tag != "int":
                d = self.fn.defs.get(k)
                if d is not None and d.get("ty") == "i1":
                    v = self.truth(st, t)
                    if v is not None:
                        b.append((t, v))
        for t, v in st.facts.items():
            if not t.leaves and self.model.sticky(t):
                b.append((t, v))
        return (frozenset(st.regs.items()), frozenset(st.mon.items()), frozenset(b),
                frozenset(self.mon.merge_extra(self, st)))

    MERGE = True

    def join_version(self, m, k, block):
        tok = mk("v", "J%d:%d" % (block, k.uid))
        m.ver[k] = tok
        for f in list(m.facts):
            if tok in f.leaves:
                del m.facts[f]

    def merge(self, a, b, block):
        """the weaker of both; None if that is a"""
        m = a.copy()
        ch = False
        for nm in ("mem", "facts", "eqs", "snap", "cont", "ver"):
            x, y, z = getattr(a, nm), getattr(b, nm), getattr(m, nm)
            for k in x:
                if k not in y or y[k] != x[k]:
                    ch = True
                    if nm == "snap":
                        z[k] = (x[k] & y[k]) if k in y else frozenset()
                        if z[k] == x[k]:
                            pass
                    elif nm == "facts":
                        n = b.copy()
                        if self.truth(n, k) is x[k]:
                            ch = ch
                            continue
                        del z[k]
                    else:
                        del z[k]
            if nm == "facts":
                for k in y:
                    if k in x:
                        continue
                    if y[k] is False and k.tag in ("ult", "slt") and self.truth(a, k) is False:
                        z[k] = False
                    elif y[k] is True and k.tag == "eq0" and k.args[0].tag == "+" and self.truth(a, k) is True:
                        z[k] = True
            if nm == "eqs":
                # equal for different reasons
                for k in x:
                    if k in y and k not in z:
                        if self.norm(b, x[k]) is self.norm(b, k):
                            z[k] = x[k]
                        elif self.norm(a, y[k]) is self.norm(a, k):
                            z[k] = y[k]
            if nm == "ver":
                for k in set(x) | set(y):
                    if x.get(k, ZERO) is not y.get(k, ZERO):
                        self.join_version(m, k, block)
            if nm == "cont":
                for k in set(x) | set(y):
                    if x.get(k) is not y.get(k):
                        if self.private(k):
                            z[k] = STALE
                        else:
                            z.pop(k, None)
                            self.join_version(m, CONTENT, block)
        for p, q in ((a, b), (b, a)):
            for k, v in p.eqs.items():
                if k not in m.eqs and k in q.eqs and v.tag == "h":
                    # what was known of the value k started with
                    for f, r in p.facts.items():
                        if v in f.leaves:
                            g = subst(f, {}, {v: k}, {})
                            if g not in m.facts and self.truth(q, g) is r:
                                m.facts[g] = r
        if m.mem == a.mem and m.facts == a.facts and m.eqs == a.eqs and m.cont == a.cont and \
                m.ver == a.ver and m.snap == a.snap and m.regs == a.regs and m.mon == a.mon:
            return None
        return m

    def block(self, b, st):
        blk = self.fn.blocks[b]
        start = 0
        while start < len(blk) and blk[start]["op"] == "phi":
            start += 1
        work = [(start, st.copy())]
        arith = getattr(self.mon, "arith", None)
        out = []
        while work:
            k, s = work.pop()
            while True:
                i = blk[k]
                self.stats["instrs"] += 1
                op = i["op"]
                h = getattr(self, "i_" + op, None)
                if op in ("br", "switch", "ret", "unreachable", "resume", "invoke"):
                    out.extend(self.terminator(s, i))
                    break
                r = h(s, i) if h else self.generic(s, i)
                if r is not None:
                    # fork: list of states that have executed i
                    for x in r:
                        work.append((k + 1, x))
                    break
                if op in ("add", "sub") and arith:
                    arith(self, s, i, s.regs[i["id"]])
                k += 1
        return out

    def note(self, st, i, what):
        loc = i.get("loc")
        if loc:
            st.trace = st.trace + (src_loc(loc) + " " + what,)

    def terminator(self, st, i):
        op = i["op"]
        if op == "br":
            if "cond" not in i:
                return [(i["succ"][0], st)]
            c = self.operand(st, i["cond"])
            out = []
            v = self.truth(st, c)
            for val, dst in ((True, i["succ"][0]), (False, i["succ"][1])):
                if v is not None and v != val:
                    continue
                s = st.copy()
                if v is None and not self.assume(s, c, val):
                    continue
                if v is None:
                    self.note(s, i, "branch %s" % ("taken" if val else "not taken"))
                if self.mon.branch(self, s, i, c, val) is False:
                    continue    # contradicts what the monitor knows
                out.append((dst, s))
            return out
        if op == "switch":
            c = self.operand(st, i["cond"])
            out = []
            rest = st.copy()
            dead = False
            cd = self.fn.defs.get(i["cond"]) if isinstance(i["cond"], str) else None
            boolean = (cd is not None and cd.get("ty") == "i1") or c.tag in BOOLTAGS
            for cv, dst in i["cases"]:
                e = EQ(c, self.operand(st, cv))
                if boolean and not is_int(c):
                    e = c if self.operand(st, cv) is not ZERO else NOT(c)
                s = rest.copy()
                if self.assume(s, e, True):
                    out.append((dst, s))
                if not self.assume(rest, e, False):
                    dead = True
                    break
            if not dead:
                out.append((i["default"], rest))
            return out
        if op == "ret":
            self.stats["returns"] += 1
            v = self.operand(st, i["val"]) if "val" in i else None
            self.mon.ret(self, st, i, v)
            return []
        if op == "resume":
            self.mon.resume(self, st, i)
            return []
        if op == "invoke":
            out = []
            s2 = st.copy()
            r = self.model.throws(self, st, i)
            if r != "always":
                rr = self.do_call(st, i)
                for x in (rr if rr is not None else [st]):
                    out.append((i["normal"], x))
            if r:
                self.note(s2, i, "throws")
                h = getattr(self.mon, "thrown", None)
                if h:
                    h(self, s2, i)
                out.append((i["unwind"], s2))
            return out
        return []

    # ---- instructions ----
    def generic(self, st, i):
        if "id" in i:
            st.regs[i["id"]] = self.fresh(st, i)

    def i_landingpad(self, st, i):
        st.regs[i["id"]] = self.fresh(st, i)

    def i_alloca(self, st, i):
        st.regs[i["id"]] = mk("al", i["id"])

    def i_getelementptr(self, st, i):
        t = self.operand(st, i["base"])
        if i["off"] == "?":
            st.regs[i["id"]] = self.fresh(st, i)
            return
        t = addc(t, i["off"])
        for o, k in i["idx"]:
            t = add(t, self.mulc(self.operand(st, o), k))
        st.regs[i["id"]] = t

    @staticmethod
    def mulc(t, k):
        c, items = lin(t)
        acc = num(c * k)
        for a, co in items:
            if a.tag == "f" and a.args[0] == "sdivx" and is_int(a.args[2]) and a.args[2].args[0] != 0 \
                    and (k * co) % a.args[2].args[0] == 0:
                acc = add(acc, a.args[1], k * co // a.args[2].args[0])
            else:
                acc = add(acc, a, k * co)
        return acc

    def i_load(self, st, i):
        a = self.norm(st, self.operand(st, i["ptr"]))
        tb = tuple(i["tbaa"]) if "tbaa" in i else None
        v = None
        c = st.mem.get(a)
        if c is not None:
            v = c[0]
        else:
            for x, (val, t) in st.mem.items():
                if self.alias(st, x, t, a, tb) == "must":
                    v = val
                    break
        if v is None or v is UNDEF:
            v = self.model.load(self, st, i, a)
            if v is None:
                v = self.fresh(st, i)
                a = self.norm(st, self.operand(st, i["ptr"]))
            if a is not STALE:
                st.mem[a] = (v, tb)
        if i["ty"] == "i1" and not is_int(v):
            pass
        st.regs[i["id"]] = v
        self.mon.load(self, st, i, a, v)

    def i_store(self, st, i):
        a = self.norm(st, self.operand(st, i["ptr"]))
        v = self.operand(st, i["val"])
        tb = tuple(i["tbaa"]) if "tbaa" in i else None
        self.mon.store(self, st, i, a, v)
        self.kill(st, a, tb)
        if a is not STALE and v is not STALE:
            st.mem[a] = (v, tb)

    def i_icmp(self, st, i):
        a, b = self.operand(st, i["a"]), self.operand(st, i["b"])
        p = i["pred"]
        if i["oty"] == "i1":
            if p == "eq":
                r = NOT(XOR(a, b))
            elif p == "ne":
                r = XOR(a, b)
            elif p in ("ult", "sgt"):
                r = AND(NOT(a), b)
            elif p in ("ugt", "slt"):
                r = AND(a, NOT(b))
            elif p in ("ule", "sge"):
                r = NOT(AND(a, NOT(b)))
            else:
                r = NOT(AND(NOT(a), b))
        elif p == "eq":
            r = EQ(a, b)
        elif p == "ne":
            r = NOT(EQ(a, b))
        else:
            tag = "slt" if p[0] == "s" else "ult"
            # signed comparison with zero of an element count etc. is kept
            if p[1:] == "lt":
                r = SLT(a, b, tag)
            elif p[1:] == "gt":
                r = SLT(b, a, tag)
            elif p[1:] == "le":
                r = NOT(SLT(b, a, tag))
            else:
                r = NOT(SLT(a, b, tag))
        if r is UNDEF:
            r = STALE
        st.regs[i["id"]] = r

    def i_select(self, st, i):
        c, x, y = [self.operand(st, o) for o in i["ops"]]
        if x is y:
            st.regs[i["id"]] = x
            return
        v = self.truth(st, c)
        if v is not None:
            st.regs[i["id"]] = x if v else y
            return
        out = []
        for val, t in ((True, x), (False, y)):
            s = st.copy()
            if not self.assume(s, c, val):
                continue
            s.regs[i["id"]] = t
            self.note(s, i, "condition %s" % ("true" if val else "false"))
            out.append(s)
        return out

    def _arith(self, st, i, f):
        a, b = [self.operand(st, o) for o in i["ops"]]
        if a is UNDEF or b is UNDEF:
            st.regs[i["id"]] = UNDEF
            return
        st.regs[i["id"]] = f(a, b)

    def i_add(self, st, i):
        self._arith(st, i, add)

    def i_sub(self, st, i):
        self._arith(st, i, sub)

    def i_mul(self, st, i):
        def f(a, b):
            if is_int(b):
                return self.mulc(a, b.args[0])
            if is_int(a):
                return self.mulc(b, a.args[0])
            return fn("mul", *sorted((a, b), key=lambda t: t.uid))
        self._arith(st, i, f)

    def i_shl(self, st, i):
        def f(a, b):
            if is_int(b):
                return self.mulc(a, 1 << b.args[0])
            return fn("shl", a, b)
        self._arith(st, i, f)

    def _div(self, st, i):
        def f(a, b):
            if is_int(b) and b.args[0] == 1:
                return a
            if is_int(a) and is_int(b) and b.args[0] > 0 and a.args[0] >= 0:
                return num(a.args[0] // b.args[0])
            if is_int(b) and b.args[0] > 1:
                return fn("sdivx", a, b) if i.get("exact") else self.divt(a, b.args[0])
            return fn("sdivx", a, b)
        self._arith(st, i, f)

    i_sdiv = i_udiv = _div

    @staticmethod
    def divt(a, k):
        """truncating division"""
        if a is STALE or a is UNDEF:
            return a
        if k == 1:
            return a
        if is_int(a) and a.args[0] >= 0:
            return num(a.args[0] // k)
        c, items = lin(a)
        if items and c % k == 0 and all(q % k == 0 for _, q in items):
            return unlin(c // k, {x: q // k for x, q in items})
        if a.tag == "f" and a.args[0] == "divt":
            return fn("divt", a.args[1], num(a.args[2].args[0] * k))
        return fn("divt", a, num(k))

    def _shr(self, st, i):
        def f(a, b):
            if is_int(b):
                if is_int(a) and a.args[0] >= 0:
                    return num(a.args[0] >> b.args[0])
                return fn("sdivx", a, num(1 << b.args[0])) if i.get("exact") else self.divt(a, 1 << b.args[0])
            return fn("shr", a, b)
        self._arith(st, i, f)

    i_lshr = i_ashr = _shr

    def _bool2(self, st, i, bf, name):
        def f(a, b):
            if i["ty"] == "i1":
                return bf(a, b)
            if is_int(a) and is_int(b):
                x, y = a.args[0], b.args[0]
                return num({"and": x & y, "or": x | y, "xor": x ^ y}[name])
            if a.tag == "b2i" and b.tag == "b2i":
                return B2I(bf(a.args[0], b.args[0]))
            if name == "xor":
                for p, q in ((a, b), (b, a)):
                    if p.tag == "b2i" and q is TRUE:
                        return B2I(NOT(p.args[0]))
            if a.tag == "b2i" and is_int(b) and name == "and" and b.args[0] == 1:
                return a
            if is_int(b) and a not in (STALE, UNDEF):
                k = b.args[0]
                if name == "or" and k > 0:
                    # no common bits
                    c, items = lin(a)
                    p = 1
                    while p <= k:
                        p *= 2
                    if items and c % p == 0 and all(x % p == 0 for _, x in items):
                        return addc(a, k)
                    bit = sub(a, scale(self.divt(a, 2), 2)) if k == 1 else fn("and", *sorted((a, b), key=lambda t: t.uid))
                    if k & (k - 1) == 0 and self.truth(st, EQ0(bit)) is True:
                        return addc(a, k)
                if name == "and" and k > 0 and a.tag == "f" and a.args[0] == "divt":
                    # the high bits are zero already
                    w = k | ~((1 << 63) - 1) | (((1 << 64) - 1) ^ (((1 << 64) - 1) // a.args[2].args[0]))
                    w &= (1 << 64) - 1
                    if k >= 1 << 31 and w != k:
                        k = w - (1 << 64)
                if name == "and" and k < 0 and (-k) & (-k - 1) == 0:
                    return scale(self.divt(a, -k), -k)
                if name == "and" and k == 1:
                    return sub(a, scale(self.divt(a, 2), 2))
            return fn(name, *sorted((a, b), key=lambda t: t.uid))
        self._arith(st, i, f)

    def i_and(self, st, i):
        self._bool2(st, i, AND, "and")

    def i_or(self, st, i):
        self._bool2(st, i, OR, "or")

    def i_xor(self, st, i):
        self._bool2(st, i, XOR, "xor")

    def _float(self, st, i):
        st.regs[i["id"]] = fn(i["op"], *[self.operand(st, o) for o in i["ops"]])

    i_fadd = i_fsub = i_fmul = i_fdiv = i_fneg = i_uitofp = i_sitofp = i_fptoui = i_fptosi = _float
    i_fpext = i_fptrunc = i_srem = i_urem = _float

    def i_fcmp(self, st, i):
        st.regs[i["id"]] = fn("fcmp", str(i.get("pred", "?")), *[self.operand(st, o) for o in i["ops"]])

    def i_zext(self, st, i):
        a = self.operand(st, i["ops"][0])
        d = self.fn.defs.get(i["ops"][0]) if isinstance(i["ops"][0], str) else None
        if (d is not None and d.get("ty") == "i1") or a.tag in ("not", "and", "xor", "eq0", "slt", "ult"):
            st.regs[i["id"]] = B2I(a)
        else:
            st.regs[i["id"]] = a

    def i_sext(self, st, i):
        a = self.operand(st, i["ops"][0])
        d = self.fn.defs.get(i["ops"][0]) if isinstance(i["ops"][0], str) else None
        if d is not None and d.get("ty") == "i1":
            st.regs[i["id"]] = scale(B2I(a), -1)
        else:
            st.regs[i["id"]] = a

    def i_trunc(self, st, i):
        a = self.operand(st, i["ops"][0])
        if i["ty"] == "i1":
            st.regs[i["id"]] = NOT(EQ0(a)) if a not in (STALE, UNDEF) else a
        elif a in (STALE, UNDEF) or a.tag == "b2i":
            st.regs[i["id"]] = a
        elif is_int(a):
            n = int(i["ty"][1:])
            v = a.args[0]
            if not -(1 << (n - 1)) <= v < (1 << n):
                v &= (1 << n) - 1
            st.regs[i["id"]] = num(v)
        else:
            st.regs[i["id"]] = a if i["ty"] in self.model.trunc_identity else fn("trunc", i["ty"], a)

    def _copy(self, st, i):
        st.regs[i["id"]] = self.operand(st, i["ops"][0])

    i_freeze = i_bitcast = i_ptrtoint = i_inttoptr = _copy

    def i_insertvalue(self, st, i):
        a, b = self.operand(st, i["a"]), self.operand(st, i["b"])
        ent = dict(a.args[0]) if a.tag == "agg" else {}
        ent[tuple(i["index"])] = b
        st.regs[i["id"]] = mk("agg", tuple(sorted(ent.items())))

    def i_extractvalue(self, st, i):
        a = self.operand(st, i["a"])
        if a.tag == "agg":
            ent = dict(a.args[0])
            if tuple(i["index"]) in ent:
                st.regs[i["id"]] = ent[tuple(i["index"])]
                return
        st.regs[i["id"]] = fn("ev", tuple(i["index"]), a)

    def i_call(self, st, i):
        return self.do_call(st, i)

    def do_call(self, st, i):
        name = i["callee"]
        args = [self.operand(st, o) for o in i["args"]]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return self.memcpy(st, i, args)
        if name.startswith("llvm.memset"):
            self.kill(st, args[0], None)
            return None
        bf = getattr(self.mon, "before", None)
        if bf:
            bf(self, st, i, name, args)
        if i["op"] == "call" and not i.get("nounwind"):
            # an exception leaves the function from here
            h = getattr(self.mon, "escape", None)
            if h and self.model.throws(self, st, i):
                h(self, st, i)
        res = self.model.call(self, st, i, name, args)
        if "id" in i:
            if res is None:
                res = self.fresh(st, i)
                args = [self.operand(st, o) for o in i["args"]]
            st.regs[i["id"]] = res
        r = self.mon.call(self, st, i, name, args, res)
        if self.model.noreturn(name):
            return []
        return r

    def memcpy(self, st, i, args):
        dst, src, n = args[:3]
        cells = []
        if is_int(n):
            for a, (v, t) in st.mem.items():
                o = offset_between(a, src)
                if o is not None and 0 <= o < n.args[0]:
                    cells.append((o, v, t))
        self.kill(st, dst, None)
        for a in list(st.mem):
            o = offset_between(a, dst)
            if o is not None and (not is_int(n) or 0 <= o < n.args[0]):
                del st.mem[a]
        for o, v, t in cells:
            st.mem[addc(dst, o)] = (v, t)
        h = getattr(self.mon, "memcpy", None)
        if h:
            h(self, st, i, dst, src, n)
        return None


def src_loc(loc):
    """innermost position inside the analysed sources"""
    for l in loc:
        if "/repo/" in l:
            return l.split("/repo/", 1)[1]
    return loc[0]
