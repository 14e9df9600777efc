"""Mask arithmetic: masks are monotone in the exponents, comparing two masks
rejects only what cannot divide, and bounds are below what they bound."""
import build
import cover
from engine import *
from model import Model
from terms import *

C, EXP, EXPD, UP, DOWN, X = "const", "exponent", "-exponent", "rising", "falling", "unknown"


def flip(k):
    return {EXP: EXPD, EXPD: EXP, UP: DOWN, DOWN: UP}.get(k, k)


def join(a, b):
    if a == b:
        return a
    if C in (a, b):
        return a if b == C else b
    return X


class Mono(object):
    """How does each value of a function depend on the exponents of a0?

    rising: adding to an exponent only ever sets bits; falling: only clears
    bits; const: does not depend on them at all.
    """

    def __init__(self, f):
        self.f = f
        self.k = {}
        self.cells = {}
        self.bad = {}
        self.where = {}
        self.preds = {}
        for b, blk in enumerate(f.blocks):
            for s in blk[-1].get("succ", ()) if blk else ():
                self.preds.setdefault(s, set()).add(b)
        self.pd = self.postdom()

    def succ(self, b):
        return list(self.f.blocks[b][-1].get("succ", ()))

    def postdom(self):
        n = len(self.f.blocks)
        exits = [b for b in range(n) if not self.succ(b)]
        full = set(range(n))
        pd = {b: ({b} if b in exits else set(full)) for b in range(n)}
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if b in exits:
                    continue
                s = set.intersection(*[pd[x] for x in self.succ(b)]) | {b}
                if s != pd[b]:
                    pd[b] = s
                    ch = True
        return pd

    def kind(self, o):
        if not isinstance(o, str):
            return C
        if o.startswith("c") or o.startswith("g") or o.startswith("a"):
            return C
        return self.k.get(o, None)

    def run(self):
        f = self.f
        for _ in range(50):
            old = dict(self.k), dict(self.cells)
            for b, blk in enumerate(f.blocks):
                for i in blk:
                    v = self.eval(b, i)
                    if "id" in i and v is not None:
                        self.k[i["id"]] = v
            if (self.k, self.cells) == old:
                break
        # effects and control
        for b, blk in enumerate(f.blocks):
            t = blk[-1]
            if t["op"] in ("br", "switch") and len(set(self.succ(b))) > 1 and self.kind(t.get("cond")) not in (C, None):
                reg = self.region(b)
                for x in reg:
                    for i in f.blocks[x]:
                        if i["op"] == "store":
                            self.bad[i.get("_pos", id(i))] = i
                if self.pd[b] - {b} == set():
                    self.bad["ret"] = t

    def region(self, b):
        """blocks between a branch and where its ways meet again"""
        stop = self.pd[b] - {b}
        seen, todo = set(), list(self.succ(b))
        while todo:
            x = todo.pop()
            if x in stop or x in seen:
                continue
            seen.add(x)
            todo += self.succ(x)
        return seen

    def local(self, p):
        d = self.f.defs.get(p) if isinstance(p, str) else None
        while d is not None and d["op"] == "getelementptr":
            p = d["base"]
            d = self.f.defs.get(p) if isinstance(p, str) else None
        return p if d is not None and d["op"] == "alloca" else None

    def eval(self, b, i):
        op = i["op"]
        K = self.kind
        if op == "phi":
            return self.phi(b, i)
        if op == "call":
            n = i.get("callee") or ""
            ks = [K(a) for a in i["args"]]
            if n.startswith("vpra_exp_"):
                return EXP if (i["args"][0] == "a0" or self.local(i["args"][0])) and all(k in (C, None) for k in ks[1:]) else X
            if n.startswith("vpr_") or n.startswith("vpp_"):
                return X if any(k not in (C, None) for k in ks) or "a0" in i["args"] else C
            if n.startswith("llvm.smax") or n.startswith("llvm.smin"):
                r = join(*ks[:2]) if None not in ks[:2] else None
                return r if r in (None, C, EXP, EXPD) else X
            if n.startswith("llvm.lifetime") or n.startswith("llvm.dbg") or n.startswith("llvm.assume"):
                return None
            return X
        if op == "alloca":
            return C
        if op == "load":
            l = self.local(i["ptr"])
            if l is not None:
                return self.cells.get(l)
            if i["ptr"] == "a0" or K(i["ptr"]) not in (C, None):
                return X
            return C
        if op == "store":
            l = self.local(i["ptr"])
            if l is None:
                self.bad[i.get("_pos", id(i))] = i
                return None
            v = K(i["val"])
            if v is not None:
                o = self.cells.get(l)
                self.cells[l] = v if o is None else join(o, v)
            return None
        if op == "getelementptr":
            ks = [K(i["base"])] + [K(x[0]) for x in i["idx"]]
            return X if any(k not in (C, None) for k in ks) else C
        if op == "icmp":
            x, y = K(i["a"]), K(i["b"])
            if None in (x, y):
                return None
            if x == C and y == C:
                return C
            p = i["pred"]
            if p in ("sgt", "sge"):
                if x == EXP and y in (C, EXPD) or x == C and y == EXPD:
                    return UP
                if x == EXPD and y in (C, EXP) or x == C and y == EXP:
                    return DOWN
            if p in ("slt", "sle"):
                if x == EXP and y in (C, EXPD) or x == C and y == EXPD:
                    return DOWN
                if x == EXPD and y in (C, EXP) or x == C and y == EXP:
                    return UP
            return X
        if op in ("zext", "sext", "trunc", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            k = K(i["ops"][0])
            if op == "trunc" and k in (EXP, EXPD):
                return X
            return k
        if op == "select":
            c, x, y = i["ops"]
            return self.choose(K(c), K(x), K(y), x, y)
        ops = i.get("ops")
        if ops and len(ops) == 2:
            x, y = K(ops[0]), K(ops[1])
            if None in (x, y):
                # a loop: the value from the way in counts first
                x, y = x or y, y or x
                if x is None:
                    return None
            if x == C and y == C:
                return C
            if op in ("and", "or"):
                r = join(x, y)
                return r if r in (UP, DOWN) else X
            if op == "shl" or op == "lshr":
                return x if y == C and x in (UP, DOWN) else X
            if op == "xor":
                for p, q in ((0, 1), (1, 0)):
                    if ops[q] in ("c-1", "c1" if i["ty"] == "i1" else "", "ctrue", "c4294967295"):
                        k = (x, y)[p]
                        return flip(k) if k in (UP, DOWN) else X
                return X
            if op == "add":
                if join(x, y) == EXP and X not in (x, y):
                    return EXP
                # a shifted mask and a bit
                for p, q in ((0, 1), (1, 0)):
                    d, e = self.f.defs.get(ops[p]), self.f.defs.get(ops[q])
                    if d and e and d["op"] == "shl" and e["op"] == "zext" and e.get("ops") and \
                            self.f.defs.get(e["ops"][0], {}).get("ty") == "i1":
                        r = join(x, y)
                        return r if r in (UP, DOWN) else X
                return X
            if op == "sub":
                if x in (EXP, EXPD) and y == C:
                    return x
                if x == C and y in (EXP, EXPD):
                    return flip(y)
                return X
            if op == "mul":
                return X
            return X
        if op in ("br", "ret", "switch", "unreachable"):
            return None
        return X

    def super(self, hi, lo):
        """every bit of lo is one of hi"""
        if hi == lo or lo == "c0" or hi in ("c-1", "c4294967295"):
            return True
        d = self.f.defs.get(hi) if isinstance(hi, str) else None
        if d is not None and d["op"] == "or" and lo in d["ops"]:
            return True
        e = self.f.defs.get(lo) if isinstance(lo, str) else None
        if e is not None and e["op"] == "and" and hi in e["ops"]:
            return True
        return False

    def choose(self, c, x, y, tx, ty):
        if None in (c, x, y):
            v = [k for k in (x, y) if k]
            return v[0] if v else None
        r = join(x, y)
        if c == C:
            return r
        if c == UP and self.super(tx, ty) and r in (C, UP):
            return UP
        if c == DOWN and self.super(ty, tx) and r in (C, UP):
            return UP
        if c == DOWN and self.super(tx, ty) and r in (C, DOWN):
            return DOWN
        if c == UP and self.super(ty, tx) and r in (C, DOWN):
            return DOWN
        return X

    def phi(self, b, i):
        ks = [self.kind(v) for p, v in i["in"]]
        ks = [k for k in ks if k]
        if not ks:
            return None
        r = ks[0]
        for k in ks[1:]:
            r = join(r, k)
        # does a branch on the exponents decide which value it is?
        for d in range(len(self.f.blocks)):
            t = self.f.blocks[d][-1]
            if t["op"] not in ("br", "switch") or len(set(self.succ(d))) < 2 or self.kind(t.get("cond")) in (C, None):
                continue
            reg = self.region(d)
            ins = [p for p, v in i["in"] if p == d or p in reg]
            if b in reg:
                return X
            if not ins:
                continue
            s = self.succ(d)
            if len(i["in"]) < 2 or len(ins) != 2 or len(reg) > 2 or any(len(self.preds.get(x, ())) > 1 for x in reg):
                if len(set(v for p, v in i["in"] if p in ins)) > 1:
                    return X
                continue
            # triangle or diamond
            val = {}
            for p, v in i["in"]:
                if p == d:
                    val[0 if s[0] == b else 1] = v
                elif p in reg:
                    val[0 if self.from_(s[0], p, reg) else 1] = v
            if set(val) != {0, 1}:
                return X
            k = self.choose(self.kind(t["cond"]), self.kind(val[0]), self.kind(val[1]), val[0], val[1])
            if k is not None:
                others = [self.kind(v) for p, v in i["in"] if p not in ins]
                for o in others:
                    if o:
                        k = join(k, o)
                return k
            return None
        return r

    def from_(self, s, p, reg):
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x == p:
                return True
            if x in seen or x not in reg:
                continue
            seen.add(x)
            todo += self.succ(x)
        return False


MASKS = ("compute", "maskof", "recalc", "hasof", "extof", "refof", "extrecalc")
COMPARE = {"candivide": ("dm", "dm"), "hascandivide": ("has", "has"), "extcandivide": ("ext", "ext")}
DIVIDES = {"extdivides": ("ext", "ext"), "refdivides": ("ref", "ext"), "dividesref": ("ext", "ref")}
BOUNDS = {"and": ("dm", "dm"), "lower": ("has", "has"), "lowerext": ("has", "ext")}


class Words(Monitor):
    def __init__(self, root, L, ctx):
        self.root, self.L, self.ctx = root, L, ctx
        self.x, self.y = fn("mask", "a"), fn("mask", "b")

    def start(self, eng, st):
        t = COMPARE.get(self.root) or DIVIDES.get(self.root) or BOUNDS[self.root]
        self.ax = addc(mk("a", 0), self.L[t[0]])
        st.mem[self.ax] = (self.x, None)
        st.mem[addc(mk("a", 1), self.L[t[1]])] = (self.y, None)

    def excuses(self, eng, st, t):
        """if t is false there can be no divisibility"""
        if t is TRUE or t.tag == "b2i" and t.args[0] is TRUE:
            return True
        if t.tag in ("b2i",):
            return self.excuses(eng, st, t.args[0])
        if t.tag == "f" and t.args[0] == "divides":
            return self.right(eng, t)
        if t.tag == "and":
            return all(self.excuses(eng, st, x) for x in t.args)
        if t.tag == "eq0":
            return bool(cover.bitimplies(t.args[0], self.x, self.y))
        return False

    def confirms(self, eng, t):
        if t.tag == "b2i":
            return self.confirms(eng, t.args[0])
        if t.tag == "f" and t.args[0] == "divides":
            return self.right(eng, t)
        return t.tag == "and" and any(self.confirms(eng, x) for x in t.args)

    def right(self, eng, t):
        return [self.whose(eng, x) for x in t.args[1:3]] == [0, 1]

    def whose(self, eng, t):
        """the argument that a term comes from"""
        if t.tag == "c":
            t = t.args[0]
        for x, k in lin(t)[1]:
            if x.tag == "a":
                return x.args[0]
            d = eng.fn.defs.get(x.args[0]) if x.tag == "v" else None
            while d is not None and d["op"] in ("load", "getelementptr"):
                p = d["ptr"] if d["op"] == "load" else d["base"]
                if isinstance(p, str) and p.startswith("a"):
                    return int(p[1:])
                d = eng.fn.defs.get(p) if isinstance(p, str) else None
        return None

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        if self.root in BOUNDS:
            v = st.mem.get(self.ax)
            if v is None:
                eng.report(st, ins, "bound-unknown", "the mask that is to become a lower bound is not known at return")
                return
            if not self.below(v[0]):
                eng.report(st, ins, "bound-too-high", "a mask that is to become a lower bound of two masks may keep a bit "
                           "that one of them does not have: what it stands for could be ruled out wrongly")
            return
        known = None
        v = eng.truth(st, val)
        if v is None and val.tag == "b2i":
            v = eng.truth(st, val.args[0])
        if v is not True:
            ok = v is None and self.excuses(eng, st, val)
            for f, w in st.facts.items():
                if w is False and self.excuses(eng, st, f) and f is not TRUE:
                    ok = ok or v is False or val.tag == "int"
            if not ok:
                eng.report(st, ins, "ruled-out", "divisibility is denied although no bit of the first mask is missing in "
                           "the second" + (" and the configuration has not denied it" if self.root in DIVIDES else ""))
        if self.root in DIVIDES and v is not False:
            ok = v is None and self.confirms(eng, val)
            for f, w in st.facts.items():
                if w is True and self.confirms(eng, f):
                    ok = True
            if not ok:
                eng.report(st, ins, "not-confirmed", "divisibility is stated although the configuration has not confirmed it")

    def below(self, t):
        def ev(t, b):
            if t is self.x:
                return b[0]
            if t is self.y:
                return b[1]
            if t.tag == "int":
                if t.args[0] == 0:
                    return 0
                raise ValueError
            if t.tag == "f" and t.args[0] in ("and", "or", "xor") and len(t.args) == 3:
                p, q = ev(t.args[1], b), ev(t.args[2], b)
                return {"and": p & q, "or": p | q, "xor": p ^ q}[t.args[0]]
            c, items = lin(t)
            if c == -1 and len(items) == 1 and items[0][1] == -1:
                return 1 - ev(items[0][0], b)
            raise ValueError
        try:
            return all(not ev(t, b) or b == (1, 1) for b in ((0, 0), (0, 1), (1, 0), (1, 1)))
        except ValueError:
            return False


def D02(ctx):
    ctx.rules.append("every bit of a computed mask only depends on the exponents through comparisons of one exponent with "
                     "a bound that is the same for all monomials, and rises with it; two masks are only found not to "
                     "divide over a bit of the first that the second lacks; a lower bound only keeps common bits")
    fs = build.module("h_mask.cpp", ())
    L = {}
    for n in ("dm", "has", "ext", "ref"):
        m = cover.Acc()
        Engine(fs["vp_acc_" + n], m, Model(), "masks").run()
        o = offset_between(m.cell if m.cell is not None else STALE, mk("a", 0)) if m.cell is not None else None
        if o is None:
            raise AnalysisBroken("no layout: " + n)
        L[n] = o
    for r in MASKS:
        f = fs["vp_root_" + r]
        m = Mono(f)
        m.run()
        ctx.analysed.append("masks:vp_root_" + r)
        ctx.count("mask_functions_checked")
        n = sum(1 for blk in f.blocks for i in blk if (i.get("callee") or "").startswith("vpra_exp_"))
        if not n:
            raise AnalysisBroken("no exponents are looked at in " + r)
        ctx.count("exponent_reads", n)
        for i in m.bad.values():
            ctx.report("side-effect", src_loc(i.get("loc") or ["?"]), "computing a mask changes memory, or depends on the "
                       "exponents in a way that is not followed", (), "masks", r)
        for blk in f.blocks:
            for i in blk:
                if i["op"] == "ret":
                    k = m.kind(i.get("val"))
                    ctx.count("results_checked")
                    ctx.ob()
                    if k != UP:
                        why = origin(m, i["val"])
                        ctx.report("not-monotone", src_loc((why or i).get("loc") or ["?"]), "the mask of a monomial does "
                                   "not only gain bits when an exponent grows, so the mask of a divisor may have bits "
                                   "that the mask of the multiple lacks", (), "masks", r)
    for r in sorted(list(COMPARE) + list(DIVIDES) + list(BOUNDS)):
        mon = Words(r, L, ctx)
        e = Engine(fs["vp_root_" + r], mon, Model(), "masks")
        e.run()
        ctx.analysed.append("masks:vp_root_" + r)
        for k, v in e.events.items():
            ctx.count(k, v)
        for v in e.reports.values():
            ctx.report(v["rule"], v["where"], v["message"], v["path"], v["config"], v["function"])
    ctx.need("exits_checked", 9)
    ctx.need("results_checked", 7)
    ctx.ob(ctx.counts["exits_checked"])


def origin(m, v):
    """the first instruction on the way to v that is not monotone"""
    seen = set()
    todo = [v]
    best = None
    while todo:
        o = todo.pop(0)
        if o in seen or not isinstance(o, str) or o not in m.f.defs:
            continue
        seen.add(o)
        d = m.f.defs[o]
        if m.k.get(o) in (X, DOWN, EXP, EXPD):
            best = d
        for k in ("a", "b"):
            if k in d:
                todo.append(d[k])
        todo += d.get("ops", [])
        todo += [x for p, x in d.get("in", [])]
    return best
