"""Properties of the tournament tree (TourTree).

The tree is an array of matches; slot i holds the player (a pointer) that won
the match between slots 2i and 2i+1, leaves hold each player once, and every
player knows its leaf. Only events on slots, players' entries and players'
leaves are looked at, by the index or player they concern.
"""
import run
from engine import *
from props_queue import QModel, HeapMon
from terms import *

ARRAY = fn("field", "array")
LAST = fn("field", "last")
CAP = fn("field", "capacity")
LFT = fn("slot", "last-1")       # player at the leaf before the last
RGT = fn("slot", "last")         # player at the last leaf
ROOTV = fn("slot", "root")
PV = fn("slot", "parent")        # winner of the last match
NAMED = (LFT, RGT, ROOTV, PV)


class TModel(QModel):
    psize = 16
    array = 0

    def call(self, eng, st, ins, name, args):
        if name == "vpi_vec_emplace":
            v = eng.norm(st, args[0])
            self.mutate(eng, st, ins, v)
            new = eng.fresh(st, ins)
            st.ver[v] = fn("emp", new)       # a version that ends after the new element
            st.facts[EQ(self.vbegin(v, st.ver[v]), self.vend(v, st.ver[v]))] = False
            return new
        return QModel.call(self, eng, st, ins, name, args)

    def vend(self, v, r):
        if r.tag == "f" and r.args[0] == "emp":
            return addc(r.args[1], self.psize)
        return QModel.vend(self, v, r)

    def separate(self, eng, st, a, b):
        if {a, b} == {LFT, RGT}:
            return True
        for p, q in ((a, b), (b, a)):
            if p.tag == "v" and eng.is_object(st, p) and (q in NAMED or q is ARRAY):
                return True
            # players do not lie in the array of matches
            arr = st.mem.get(addc(mk("a", 0), self.array))
            if (p is ARRAY or arr and p is arr[0]) and (q in NAMED or any(q is st.mon.get(k) for k in ("pv", "pl", "cur", "opp"))):
                return True
        return False


class Spy(Monitor):
    def __init__(self):
        self.ev = []

    def load(self, eng, st, ins, addr, val):
        self.ev.append(("load", addr, val, ins["ty"], tuple(ins["tbaa"]) if "tbaa" in ins else None))

    def before(self, eng, st, ins, name, args):
        if name in ("vpa_E_copy", "vpa_E_assign"):
            self.ev.append((name, args[0], args[1]))


def base(t):
    b = [x for x, k in lin(t)[1] if k == 1]
    return b[0] if len(b) == 1 and len(lin(t)[1]) == 1 else None


def layout(fs, job):
    def run(r):
        s = Spy()
        Engine(fs["vp_root_" + r], s, TModel(), job["label"]).run()
        return s.ev
    a0 = mk("a", 0)
    ints = set(offset_between(e[1], a0) for e in run("empty")
               if e[0] == "load" and e[3] != "ptr" and offset_between(e[1], a0) is not None)
    L = {"U": 1, "S": 8}
    ev = run("top")
    own = [e for e in ev if e[0] == "load" and e[3] == "ptr" and offset_between(e[1], a0) is not None]
    if len(ints) != 1 or len(own) != 1:
        raise AnalysisBroken("cannot tell the fields of the tournament tree apart")
    L["last"], L["array"] = ints.pop(), offset_between(own[0][1], a0)
    rt = [e for e in ev if e[0] == "load" and base(e[1]) is own[0][2]]
    cp = [e for e in ev if e[0] == "vpa_E_copy"]
    if len(rt) != 1 or not cp:
        raise AnalysisBroken("cannot find the root of the tournament tree")
    L["root"], L["ptb"] = lin(rt[0][1])[0] // 8, rt[0][4]
    eo = [lin(e[2])[0] for e in cp if base(e[2]) is rt[0][2]]
    if not eo:
        raise AnalysisBroken("cannot find the entry of a player")
    L["eo"] = eo[0]
    ev = run("decreasetop")
    pl = [base(e[1]) for e in ev if e[0] == "vpa_E_assign"]
    lo = set(lin(e[1])[0] for e in ev if e[0] == "load" and e[3] == "i64" and base(e[1]) in pl)
    if len(lo) != 1:
        raise AnalysisBroken("cannot find the leaf of a player")
    L["lo"] = lo.pop()
    f = fs["vp_root_push"]
    em = set(i["id"] for b in f.blocks for i in b if i.get("callee") == "vpi_vec_emplace")
    en = set(-i["off"] for b in f.blocks for i in b if i["op"] == "getelementptr" and i["off"] not in ("?",) and
             i["off"] < 0 and not i["idx"] and isinstance(i["base"], str) and i["base"] in f.defs and
             f.defs[i["base"]].get("callee") == "vpr_vec_end")
    caps = set(offset_between(e[1], a0) for e in run("memuse") if e[0] == "load" and e[3] == "i64")
    if len(caps) != 1 or None in caps:
        raise AnalysisBroken("cannot find the capacity of the tournament tree")
    L["cap"] = caps.pop()
    if not em or en - {16}:
        raise AnalysisBroken("the players do not have the size expected: %s" % en)
    return L


class Tour(HeapMon):
    prepare = staticmethod(layout)
    offset_pairs = False

    # ---- set up
    def start(self, eng, st):
        a0 = mk("a", 0)
        L = self.L
        eng.model.array = L["array"]
        st.mem[addc(a0, L["array"])] = (ARRAY, None)
        st.mem[addc(a0, L["last"])] = (LAST, None)
        st.mem[addc(a0, L["cap"])] = (CAP, None)
        root = addc(ARRAY, 8 * L["root"])
        if self.root == "pop":
            st.mem[addc(add(ARRAY, LAST, 8), -8)] = (LFT, L["ptb"])
            st.mem[add(ARRAY, LAST, 8)] = (RGT, L["ptb"])
            st.mem[add(ARRAY, eng.divt(LAST, 2), 8)] = (PV, L["ptb"])
        if self.root == "pop":
            self.odd(eng, st)
        if self.root != "push":
            st.mem[root] = (ROOTV, L["ptb"])
        self.top0 = mk("c", addc(ROOTV, L["eo"]), ZERO)
        m = st.mon
        m["V"] = frozenset([eng.content(st, mk("a", 1))] if self.root in ("push", "decreasetop") else [])
        m["H"] = frozenset()
        m["leaf"] = frozenset()
        m["new"] = frozenset()
        m["np"] = 0

    def odd(self, eng, st):
        """a tree that is not empty has an odd number of matches"""
        f = lambda k: eng.divt(addc(LAST, k), 2)
        st.facts[EQ(f(1), f(2))] = True
        st.facts[EQ0(sub(LAST, scale(f(0), 2)))] = False
        st.facts[EQ(fn("xor", *sorted((LAST, num(1)), key=lambda t: t.uid)), addc(LAST, -1))] = True

    # ---- terms
    def player(self, addr, off):
        """the player whose field at off is addr"""
        return addc(addr, -off)

    def entry(self, p):
        return addc(p, self.L["eo"])

    def slotval(self, eng, st, i):
        """what the slot i is known to hold"""
        v = st.mem.get(addc(mk("a", 0), self.L["array"]))
        if v is None:
            return None
        a = eng.norm(st, add(v[0], i, 8))
        c = st.mem.get(a)
        if c is not None:
            return c[0]
        for x, (val, t) in st.mem.items():
            if eng.truth(st, EQ(x, a)) is True:
                return val
        return None

    def sibling(self, eng, st, d, i):
        x = fn("xor", *sorted((d, num(1)), key=lambda t: t.uid))
        if self.eq(eng, st, i, x):
            return True
        y = fn("xor", *sorted((eng.norm(st, d), num(1)), key=lambda t: t.uid))
        if self.eq(eng, st, i, y):
            return True
        o = offset_between(eng.norm(st, i), eng.norm(st, d))
        return o == 1 and self.even(eng, st, d) is True or o == -1 and self.even(eng, st, d) is False

    def par(self, eng, st, d):
        """names of the parent of slot d"""
        r = [eng.divt(d, 2), eng.divt(eng.norm(st, d), 2)]
        if st.mon.get("P") is not None and d is st.mon.get("D"):
            r.append(st.mon["P"])
        return r

    def isparent(self, eng, st, i, d):
        return any(self.eq(eng, st, i, p) for p in self.par(eng, st, d))

    def setD(self, eng, st, d):
        st.mon["D"] = d
        # its parent gets a name of its own: loops step through both
        st.mon["P"] = None if d is None else eng.divt(d, 2)

    def isroot(self, eng, st, i):
        return self.eq(eng, st, i, num(self.L["root"]))

    def lt(self, eng, st, p, q):
        """entry of player p less than that of q?"""
        a, b = eng.content(st, self.entry(p)), eng.content(st, self.entry(q))
        if a is STALE or b is STALE:
            return None
        return eng.truth(st, fn("cmplt", fn("compare", a, b)))

    def notless(self, eng, st, p, q):
        """the entry of p is not less than that of q: 2 strictly greater, 1 not less"""
        if self.lt(eng, st, q, p) is True:
            return 2
        return 1 if self.lt(eng, st, p, q) is False else 0

    # ---- events
    def load(self, eng, st, ins, addr, val):
        m = st.mon
        L = self.L
        if val is STALE or addr is STALE:
            return
        i = self.idx(eng, st, eng.operand(st, ins["ptr"]))
        if i is not None and ins["ty"] == "ptr":
            d = m.get("D")
            if m.get("F") is not None and not self.eq(eng, st, i, m["F"]):
                eng.report(st, ins, "old-player-address",
                           "a match is looked at that still refers to where the players were before growth")
            cur = m.get("cur")
            if d is not None and cur is not None and val is not cur and self.eq(eng, st, d, i):
                st.facts[EQ(val, cur)] = True
            if d is not None and self.sibling(eng, st, d, i):
                m["opp"] = val
            if self.root == "push" and self.isparent(eng, st, i, addc(LAST, 1)) and "pv" not in m and \
                    self.slotsame(eng, st):
                m["pv"] = val
            if self.root == "pop" and self.isroot(eng, st, i) and not m.get("moved") and val is not ROOTV and \
                    m.get("sw") == 1:
                # renaming the winner along with its entry keeps the entry at the root
                st.cont[eng.norm(st, self.entry(val))] = self.top0
            return
        cur = m.get("cur")
        if cur is not None and m.get("D") is None and self.eq(eng, st, addr, addc(cur, L["lo"])):
            if self.root != "pop" or self.leafdone(eng, st):
                self.setD(eng, st, val)
                m["opp"] = None

    def slotsame(self, eng, st):
        return not st.mon["new"]

    def leafdone(self, eng, st):
        return any(p is LFT and any(self.eq(eng, st, i, x) for x in self.par(eng, st, LAST))
                   for p, i in st.mon["leaf"])

    def store(self, eng, st, ins, addr, val):
        m = st.mon
        L = self.L
        o = offset_between(addr, mk("a", 0))
        if o is not None:
            if o == L["cap"] and not self.eq(eng, st, val, CAP):
                m["grown"] = 1
            return
        if ins["vty"] != "ptr":
            if not eng.private(addr) and addr is not STALE and not self.other_array(eng, addr, st):
                self.leafstore(eng, st, ins, self.player(addr, L["lo"]), val)
            return
        if eng.private(addr):
            return
        i = self.idx(eng, st, eng.operand(st, ins["ptr"]))
        if i is None:
            if not self.other_array(eng, addr, st):
                eng.report(st, ins, "unknown-write", "a player is written to a place that is not a slot of the tree")
            return
        self.slotstore(eng, st, ins, i, val)

    def other_array(self, eng, addr, st):
        if self.idx(eng, st, addr) is not None:
            return False
        b = [x for x, k in lin(addr)[1] if k == 1]
        return any(x.tag == "v" and eng.is_object(None, x) and
                   eng.fn.defs[x.args[0]]["callee"] in ("_Znam", "_Znwm", "malloc") for x in b)

    def leafstore(self, eng, st, ins, p, val):
        m = st.mon
        eng.count("leaf_updates_checked")
        keep = set()
        for q, i in m["leaf"]:
            if self.others(eng, st, p, q):
                keep.add((q, i))
        keep.add((p, val))
        m["leaf"] = frozenset(keep)
        cur = m.get("cur")
        if cur is not None and m.get("D") is not None and self.root != "push":
            if self.eq(eng, st, cur, p):
                self.setD(eng, st, val)
            elif not self.others(eng, st, cur, p):
                self.setD(eng, st, None)

    def others(self, eng, st, p, q):
        """p and q are known to be different players"""
        if eng.truth(st, EQ(p, q)) is False or eng._separate(st, sub(p, q)):
            return True
        pv, pl = st.mon.get("pv"), st.mon.get("pl")
        # the new player is none of those the tree held before
        return pv is not None and pl is not None and any(
            self.eq(eng, st, x, pv) and self.eq(eng, st, y, pl) for x, y in ((p, q), (q, p)))

    def slotstore(self, eng, st, ins, i, val):
        m = st.mon
        eng.count("match_writes_checked")
        old = self.slotval(eng, st, i)
        # growth: the same player at its new address
        if self.root == "push" and m.get("grow") and old is not None:
            d = eng.norm(st, sub(val, old))
            if d is eng.norm(st, m["grow"]):
                eng.count("players_moved_checked")
                if m.get("F") is None or not self.eq(eng, st, i, m["F"]):
                    eng.report(st, ins, "match-skipped", "the matches are not updated one after the other from the "
                               "root on when the players have moved in memory")
                m["F"] = addc(i, 1)
                return
        if m.get("F") is not None:
            eng.report(st, ins, "not-all-moved", "the players have moved in memory but not every match refers to "
                       "their new place")
        if self.root == "push":
            self.capacity(eng, st, ins)
        last0 = LAST
        if self.root == "push":
            if self.isroot(eng, st, i) and self.eq(eng, st, last0, ZERO):
                m["new"] = m["new"] | {(i, val)}
                return
            if self.eq(eng, st, i, addc(last0, 1)):
                if m.get("pv") is None or not self.eq(eng, st, val, m["pv"]):
                    eng.report(st, ins, "wrong-player-moved-down",
                               "the first new leaf does not get the player of the leaf that becomes a match")
                m["new"] = m["new"] | {(i, val)}
                return
            if self.eq(eng, st, i, addc(last0, 2)):
                m["new"] = m["new"] | {(i, val)}
                self.setD(eng, st, i)
                m["cur"], m["mode"], m["stop"], m["opp"] = val, "rise", 0, None
                return
        if self.root == "pop" and m.get("R") is not None and self.eq(eng, st, i, m["R"]) and \
                self.eq(eng, st, val, LFT):
            o = eng.norm(st, old) if old is not None else None
            if o is None or not self.eq(eng, st, o, RGT):
                eng.report(st, ins, "renamed-other-match",
                           "a match that the removed player has not won is given to the other player")
            self.setR(eng, st, i)
            return
        d, cur = m.get("D"), m.get("cur")
        if d is not None and cur is not None and self.isparent(eng, st, i, d):
            opp = m.get("opp")
            ok = 0
            if opp is not None:
                if self.eq(eng, st, val, cur):
                    ok = self.notless(eng, st, cur, opp)
                if not ok and self.eq(eng, st, val, opp):
                    ok = self.notless(eng, st, opp, cur)
            if not ok and m.get("mode") == "rise" and old is not None and self.eq(eng, st, val, cur):
                ok = self.notless(eng, st, cur, old)
                m["strict"] = ok
            if not ok:
                eng.report(st, ins, "winner-not-decided",
                           "a match is given to a player that is not known to be no less than its opponent")
            self.setD(eng, st, i)
            m["cur"], m["opp"], m["stop"] = val, None, 0
            return
        if old is not None and self.eq(eng, st, old, val):
            return
        eng.report(st, ins, "unrelated-match", "a match is changed that is not the next one to be decided anew")

    def capacity(self, eng, st, ins):
        """room for two more matches"""
        c = st.mem.get(addc(mk("a", 0), self.L["cap"]))
        eng.count("capacity_checks")
        if st.mon.get("grown"):
            return          # the new capacity is at least 16 or twice the old one (Q06)
        if c is not None:
            if eng.truth(st, SLT(num(1), sub(c[0], LAST), "ult")) is True or \
                    eng.truth(st, SLT(c[0], addc(LAST, 2), "ult")) is False:
                return
        eng.report(st, ins, "no-room", "a match is written although there may be no room for two more")

    def setR(self, eng, st, i):
        m = st.mon
        m["R"] = None if self.isroot(eng, st, i) else eng.divt(i, 2)
        m["Ri"] = i

    def before(self, eng, st, ins, name, args):
        m = st.mon
        if name in ("vpra_compare_EE", "vpa_E_copy", "vpa_E_assign") and m["np"] < 0:
            for a in args[:2] if name == "vpra_compare_EE" else args[1:2]:
                if self.eq(eng, st, a, self.entry(RGT)):
                    eng.report(st, ins, "removed-player-used", "the entry of the player that has been removed is used")
        if name == "vpi_vec_reserve" and self.root == "push":
            v, r = eng.model.ver(eng, st, args[0])
            b = eng.model.vbegin(v, r)
            m["vb"] = (b, eng.truth(st, EQ(b, eng.model.vend(v, r))) is True)
            c = st.mem.get(addc(mk("a", 0), self.L["cap"]))
            n = sub(args[1], eng.divt(c[0], 2)) if c else STALE
            n2 = sub(args[1], c[0]) if c else STALE
            if not any(is_int(x) and x.args[0] >= 0 for x in (n, n2)):
                eng.report(st, ins, "players-may-move", "the room reserved for the players does not fit the room for "
                           "matches: adding a player may move all of them")
        if name == "vpi_vec_pop":
            m["np"] = m["np"] - 1
            who = ROOTV if self.isroot(eng, st, LAST) else RGT
            H = set(m["H"])
            hit = [h for h in H if self.eq(eng, st, h, who)]
            if hit:
                m["H"] = frozenset(H - set(hit))
            else:
                m["V"] = m["V"] | {eng.content(st, self.entry(who))}
        if name not in ("vpa_E_copy", "vpa_E_assign") or eng.private(args[0]):
            return
        eng.count("entry_writes_checked")
        V, H = set(m["V"]), set(m["H"])
        X = eng.content(st, args[1])
        p = self.player(args[0], self.L["eo"])
        if name == "vpa_E_assign":
            hit = [h for h in H if self.eq(eng, st, h, p)]
            if hit:
                H -= set(hit)
            else:
                V.add(eng.content(st, args[0]))
        if not self.take(eng, st, V, X):
            if eng.private(args[1]):
                eng.report(st, ins, "duplicated-entry", "an entry is given to a player although another one holds it")
            else:
                H.add(self.player(args[1], self.L["eo"]))
        m["V"], m["H"] = frozenset(V), frozenset(H)
        # whose matches have to be decided anew?
        if name == "vpa_E_assign" and self.root in ("pop", "decreasetop"):
            rv = self.slotval(eng, st, num(self.L["root"]))
            if self.root == "pop" and (self.eq(eng, st, p, RGT) or self.eq(eng, st, p, LFT) and
                                       m.get("sw") != 1 and m.get("lw") != 1):
                return
            if m.get("cur") is not None and self.eq(eng, st, m["cur"], p):
                return
            if rv is None or not self.eq(eng, st, rv, p):
                eng.report(st, ins, "other-player-changed",
                           "the entry of a player is changed that has not won the whole tournament")
            m["moved"] = 1
            m["cur"], m["opp"], m["mode"] = p, None, "rematch"
            self.setD(eng, st, None)
            c = st.mem.get(eng.norm(st, addc(p, self.L["lo"])))
            if c is not None and (self.root != "pop" or self.leafdone(eng, st)):
                self.setD(eng, st, c[0])

    def call(self, eng, st, ins, name, args, res):
        m = st.mon
        if name == "vpi_vec_emplace":
            m["np"] = m["np"] + 1
            m["pl"] = res
        elif name == "vpi_vec_clear":
            m["cleared"] = 1
        elif name == "vpi_vec_reserve" and "vb" in m:
            v, r = eng.model.ver(eng, st, args[0])
            b, empty = m.pop("vb")
            m["grow"] = sub(eng.model.vbegin(v, r), b)
            m["F"] = None if empty else num(self.L["root"])
        elif name == "vpa_E_assign" and self.root == "pop" and not m.get("moved"):
            # have the entries of the last two leaves changed places?
            a, b = eng.content(st, self.entry(LFT)), eng.content(st, self.entry(RGT))
            c = lambda x: mk("c", self.entry(x), ZERO)
            if a is c(RGT) and b is c(LFT):
                m["sw"] = 1
                m["R"] = eng.divt(LAST, 2)
                if m.get("lw") != 0:
                    eng.report(st, ins, "swapped-loser",
                               "the last two players exchange entries although the last one is not known to have won "
                               "the match between them")
            elif a is c(LFT) and b is c(RGT):
                m["sw"] = 0

    def branch(self, eng, st, ins, cond, val):
        m = st.mon
        if eng.truth(st, EQ(LAST, ZERO)) is False:
            self.odd(eng, st)
        if m.get("F") is not None:
            last = self.last(eng, st)
            if last is not None and eng.truth(st, SLT(last, m["F"], "ult")) is True:
                m["F"] = None
        if self.root == "pop":
            if "lw" not in m:
                t = eng.truth(st, EQ(PV, RGT))
                if t is not None:
                    m["lw"] = 0 if t else 1
            if m.get("Ri") is not None and self.isroot(eng, st, m["Ri"]):
                m["R"] = None
            if m.get("R") is not None:
                v = self.slotval(eng, st, m["R"])
                if v is not None and not self.eq(eng, st, m["R"], eng.divt(LAST, 2)) and \
                        eng.truth(st, EQ(v, RGT)) is False:
                    m["R"] = None
        if m.get("mode") == "rise" and m.get("D") is not None and not m.get("stop"):
            for p in self.par(eng, st, m["D"]):
                o = self.slotval(eng, st, p)
                if o is not None:
                    k = self.notless(eng, st, o, m["cur"])
                    if k == 2 or k == 1 and m.get("strict", 2) == 2:
                        m["stop"] = 1

    # ---- the end
    def ret(self, eng, st, ins, val):
        m = st.mon
        eng.count("exits_checked")
        last = self.last(eng, st)
        single = self.root == "push" and self.eq(eng, st, LAST, ZERO) or \
            self.root == "pop" and self.isroot(eng, st, LAST)
        step = {"push": 1 if single else 2, "pop": -1 if single else -2}.get(self.root, 0)
        if self.root == "clear":
            if last is None or not self.eq(eng, st, last, ZERO) or not m.get("cleared"):
                eng.report(st, ins, "not-cleared", "clear leaves matches or players behind")
            return
        if last is None or not self.eq(eng, st, last, addc(LAST, step)):
            eng.report(st, ins, "number-of-matches", "the number of matches does not fit the number of players at return")
        if m["np"] != {"push": 1, "pop": -1}.get(self.root, 0):
            eng.report(st, ins, "number-of-players", "the number of players at return is wrong")
        if self.root in ("pop", "top"):
            X = eng.content(st, mk("a", 1))
            if not self.samec(eng, st, X, self.top0):
                eng.report(st, ins, "not-the-winner", "what is returned is not the entry of the winner")
        V, H = set(m["V"]), set(m["H"])
        if self.root in ("pop", "decreasetop"):
            self.take(eng, st, V, self.top0)
        if H:
            eng.report(st, ins, "duplicated-entry", "at return two players hold the same entry")
        if V:
            eng.report(st, ins, "lost-entry", "at return no player holds an entry that has been overwritten or removed")
        # leaves
        for i, p in m["new"]:
            if not any(self.eq(eng, st, p, q) and self.eq(eng, st, i, j) for q, j in m["leaf"]):
                eng.report(st, ins, "leaf-not-kept", "a player that has moved to another leaf does not know it")
        if self.root == "push" and len(m["new"]) != (1 if single else 2):
            eng.report(st, ins, "leaf-not-filled", "a new leaf has not been given a player")
        if self.root == "push" and not any(self.eq(eng, st, p, m.get("pl", STALE)) for i, p in m["new"]):
            eng.report(st, ins, "player-not-entered", "the new player is at no leaf")
        if self.root == "pop" and not single:
            if not self.leafdone(eng, st):
                eng.report(st, ins, "leaf-not-kept", "a player that has moved to another leaf does not know it")
            if m.get("sw") == 1:
                if m.get("R") is not None:
                    eng.report(st, ins, "winner-not-renamed", "a match is still won by the player that has been removed")
            elif m.get("lw") != 1:
                eng.report(st, ins, "winner-not-renamed",
                           "the last player is removed although it is not known to have lost its only match")
        if self.root in ("pop", "decreasetop") and not single or self.root == "push" and not single:
            d = m.get("D")
            if d is None:
                eng.report(st, ins, "not-replayed", "the matches of a changed player are not decided anew from its leaf on")
            elif not self.isroot(eng, st, d) and not m.get("stop"):
                eng.report(st, ins, "not-replayed-to-the-end",
                           "a match of a changed player on the way to the root is not decided anew")

    def merge_extra(self, eng, st):
        x = set(st.eqs.items())
        ls = set()
        for k in ("D", "cur", "opp", "R", "pl", "grow", "F"):
            v = st.mon.get(k)
            if isinstance(v, Term):
                ls |= v.leaves
        x |= set(f for f, v in st.facts.items() if v and f.tag == "eq0" and not f.leaves.isdisjoint(ls))
        return frozenset(x)


ROOTS = ("push", "pop", "decreasetop", "top", "clear")


def jobs(mon, roots):
    return [dict(src="h_queue.cpp", defs="KIND=1 DEDUP=0 FAST=0".split(), roots=list(roots),
                 monitor="props_tour:" + mon, model="props_tour:TModel", label="TourTree",
                 cfg=dict(KIND="1", DEDUP="0", FAST="0"))]


ENTRY_RULES = ("lost-entry", "duplicated-entry", "removed-player-used", "number-of-matches", "number-of-players",
               "not-cleared", "leaf-not-filled", "player-not-entered", "wrong-player-moved-down", "no-room",
               "players-may-move", "match-skipped", "not-all-moved", "old-player-address", "unknown-write")


class Winners(Tour):
    pass


class Entries(Tour):
    pass


def limit(cls, want):
    def run_report(self, eng):
        orig = eng.report

        def rep(st, ins, rule, msg):
            if want(rule):
                orig(st, ins, rule, msg)
        eng.report = rep
    old = Tour.start

    def start(self, eng, st):
        run_report(self, eng)
        old(self, eng, st)
    cls.start = start


limit(Winners, lambda r: r not in ENTRY_RULES)
limit(Entries, lambda r: r in ENTRY_RULES)


def Q04(ctx):
    ctx.rules.append("every match on the way of a changed or new player to the root is given to a player that has been "
                     "found no less than its opponent, starting at that player's leaf; when the last player is removed "
                     "it has lost its only match, or its entry and all its wins have been handed to the other one; "
                     "every player knows its leaf; top is the winner of the root")
    run.run(ctx, jobs("Winners", ("push", "pop", "decreasetop", "top")))
    ctx.need("match_writes_checked", 10)
    ctx.need("leaf_updates_checked", 4)
    ctx.need("exits_checked", 8)
    ctx.ob(ctx.counts["match_writes_checked"] + ctx.counts["leaf_updates_checked"] + ctx.counts["exits_checked"])


def Q05(ctx):
    ctx.rules.append("entries overwritten in or removed with a player are kept by another player or returned; one "
                     "player and two matches more or less; new leaves get the moved and the new player; when the "
                     "players move in memory every match from the root to the last leaf is updated; players never move "
                     "at another time")
    run.run(ctx, jobs("Entries", ROOTS))
    ctx.need("entry_writes_checked", 4)
    ctx.need("players_moved_checked", 1)
    ctx.need("capacity_checks", 2)
    ctx.need("exits_checked", 8)
    ctx.ob(ctx.counts["entry_writes_checked"] + ctx.counts["players_moved_checked"] + ctx.counts["exits_checked"])
