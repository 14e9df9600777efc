"""Properties of HashTable."""
import run
from engine import *
from model import Model
from terms import *


class HModel(Model):
    """Vectors of pointers have a named buffer and a known number of slots."""
    relations = {"vpra_hash_E": ("hash", "E-"), "vpra_keq": ("keq", "EE-")}
    L = None

    def vec(self, eng, st, v):
        v = eng.norm(st, v)
        for w, b, n, z in st.mon.get("vecs", ()):
            if w is v:
                return b, n, z
        return fn("vbuf", v), fn("nslots", v), False

    def setvec(self, eng, st, v, b, n, z):
        v = eng.norm(st, v)
        st.mon["vecs"] = frozenset(x for x in st.mon.get("vecs", ()) if x[0] is not v) | {(v, b, n, z)}

    def arg_is_private(self, fn, k):
        return not (fn.name == "vp_root_remove" and k == 1)

    def separate(self, eng, st, a, b):
        for p, q in ((a, b), (b, a)):
            if p.tag == "v" and eng.is_object(st, p) and q.tag in ("v", "h", "old") and not eng.is_object(st, q) and \
                    not st.mon.get("linked"):
                return True         # nothing leads to the new node yet
            if p.tag == "f" and p.args[0] == "vbuf":
                if q.tag == "f" and q.args[0] == "vbuf":
                    return p is not q
                while q.tag == "old":
                    q = q.args[0]
                if q.tag == "h":
                    return not (q.args[0] not in eng.fn.defs or
                                any(eng.fn.defs.get(o, {}).get("callee") == "vpr_vec_begin"
                                    for o in eng.fn.origins(q.args[0])))
                return q.tag in ("v", "a", "al")
        return False

    def call(self, eng, st, ins, name, args):
        if name == "vpr_vec_begin":
            return self.vec(eng, st, args[0])[0]
        if name == "vpr_vec_end":
            b, n, z = self.vec(eng, st, args[0])
            return add(b, scale(n, 8))
        if name in ("vpi_vec_init", "vpi_vec_initn", "vpi_vec_resize", "vpi_vec_clear"):
            n = ZERO if name == "vpi_vec_clear" else args[1]
            old = self.vec(eng, st, args[0])
            z = name != "vpi_vec_resize" or old[1] is ZERO
            tok = mk("v", uid(ins) + "!")
            eng.retire(st, tok)
            self.setvec(eng, st, args[0], fn("vbuf", tok), n, z)
            return None
        if name == "vpi_vec_swap":
            x, y = self.vec(eng, st, args[0]), self.vec(eng, st, args[1])
            self.setvec(eng, st, args[0], *y)
            self.setvec(eng, st, args[1], *x)
            return None
        if name == "vpi_vec_move":
            x = self.vec(eng, st, args[1])
            tok = mk("v", uid(ins) + "!")
            eng.retire(st, tok)
            self.setvec(eng, st, args[0], *x)
            self.setvec(eng, st, args[1], fn("vbuf", tok), ZERO, True)
            return None
        if name.startswith("vpi_vec_") and name != "vpi_vec_dtor":
            tok = mk("v", uid(ins) + "!")
            eng.retire(st, tok)
            self.setvec(eng, st, args[0], fn("vbuf", tok), mk("v", uid(ins) + "!"), False)
            return None
        return Model.call(self, eng, st, ins, name, args)


class Spy(Monitor):
    def __init__(self):
        self.ptr = []
        self.keq = []
        self.slots = []
        self.vecs = set()

    def slot(self, eng, st, addr):
        return False

    def node(self, eng, st, addr):
        return None

    def load(self, eng, st, ins, addr, val):
        if ins["ty"] == "ptr":
            c, items = lin(addr)
            if any(x.tag == "f" and x.args[0] == "vbuf" for x, k in items if k == 1):
                self.slots.append(addr)
            elif len(items) == 1 and items[0][0].tag in ("v", "h"):
                self.ptr.append(c)

    def call(self, eng, st, ins, name, args, res):
        if name == "vpra_keq":
            for a in args[:2]:
                c, items = lin(a)
                if items and items[0][0].tag in ("v", "h"):
                    self.keq.append(c)
        if name == "vpr_vec_begin":
            self.vecs.add(args[0])

    def ret(self, eng, st, ins, val):
        self.val = val
        self.mem = {a: c[0] for a, c in st.mem.items()}
        self.mvecs = st.mon.get("vecs", ())


def layout(fs, job):
    def go(r):
        s = Spy()
        m = HModel()
        m.L = None
        Engine(fs["vp_root_" + r], s, m, job["label"]).run()
        return s
    key = offset_between(go("key").val, mk("a", 0))
    val = offset_between(go("value").val, mk("a", 0))
    s = go("lookup")
    nx = set(s.ptr) or set(go("remove").ptr)
    if len(nx) != 1 or len(s.vecs) != 1 or not s.slots:
        raise AnalysisBroken("cannot tell the parts of a hash table apart: %s %s" % (nx, s.vecs))
    table = s.vecs.pop()
    c = go("create")
    rec = [x for x in c.mvecs if x[0] is table]
    if len(rec) != 1:
        raise AnalysisBroken("the constructor does not set up the table")
    n = rec[0][2]
    size, mask = [], []
    for a, v in c.mem.items():
        o = offset_between(a, mk("a", 0))
        if o is None:
            continue
        if v is n:
            size.append(o)
        elif offset_between(v, n) == -1:
            mask.append(o)
    return {"key": key, "value": val, "next": nx.pop(), "table": table, "size": size, "mask": mask,
            "zero": rec[0][3]}


class HashMon(Monitor):
    """mon: cur: first node of the chain not looked at yet; link: the address that holds it;
    linked/unlinked; grow: F, hand, walk"""
    prepare = staticmethod(layout)

    def __init__(self, root, fs, job, shared):
        self.root = root
        self.L = shared
        HModel.L = shared
        self.t0 = fn("vbuf", shared["table"])

    def start(self, eng, st):
        n = fn("nslots", self.L["table"])
        for o in self.L["size"]:
            st.mem[addc(mk("a", 0), o)] = (n, None)
        for o in self.L["mask"]:
            st.mem[addc(mk("a", 0), o)] = (addc(n, -1), None)
        if self.root == "create":
            st.mem.clear()
        st.mon["cur"] = None
        st.mon["walk"] = frozenset()
        if self.root == "hardreset":
            st.mon["F"] = self.t0

    # ---- shapes
    def slot(self, eng, st, addr):
        """(buffer, index) of a slot address"""
        c, items = lin(addr)
        b = [x for x, k in items if k == 1 and x.tag == "f" and x.args[0] == "vbuf"]
        if len(b) != 1:
            return None
        r = sub(addr, b[0])
        c, items = lin(r)
        if c % 8 or any(k % 8 for _, k in items):
            return b[0], STALE
        return b[0], unlin(c // 8, {x: k // 8 for x, k in items})

    def node(self, eng, st, addr):
        """the node whose link is at addr"""
        a = addc(addr, -self.L["next"])
        c, items = lin(a)
        if c == 0 and len(items) == 1 and items[0][1] == 1:
            x = items[0][0]
            y = x
            while y.tag == "old":
                y = y.args[0]
            if y.tag == "h" and y.args[0] in eng.fn.defs and \
                    all(eng.fn.defs.get(o, {}).get("callee") == "vpr_vec_begin" for o in eng.fn.origins(y.args[0])):
                return None         # walks over the slots
            if y.tag in ("v", "h") or self.root == "remove" and y is mk("a", 1):
                return x
        return None

    def eq(self, eng, st, a, b):
        return a is not None and b is not None and a is not STALE and b is not STALE and \
            (a is b or eng.truth(st, EQ(a, b)) is True)

    def nil(self, eng, st, a):
        return self.eq(eng, st, a, ZERO)

    def keyof(self, eng, st, n):
        return eng.content(st, addc(n, self.L["key"]))

    def subject(self, eng, st):
        if self.root == "remove":
            return self.keyof(eng, st, mk("a", 1))
        return eng.content(st, mk("a", 1))

    def bucket_ok(self, eng, st, idx, base, key):
        idx = eng.norm(st, idx)
        n = None
        for w, b, m, z in st.mon.get("vecs", ()):
            if b is base:
                n = m
        if n is None and base is self.t0:
            n = fn("nslots", self.L["table"])
        if n is None or idx.tag != "f" or len(idx.args) != 3:
            return False
        h = fn("hash", key)
        if idx.args[0] == "and" and h in idx.args[1:]:
            o = idx.args[2] if idx.args[1] is h else idx.args[1]
            return self.eq(eng, st, o, addc(n, -1))
        if idx.args[0] in ("urem", "modt") and idx.args[1] is h:
            return self.eq(eng, st, idx.args[2], n)
        return False

    # ---- events
    def current(self, eng, st):
        return eng.model.vec(eng, st, self.L["table"])

    def load(self, eng, st, ins, addr, val):
        if ins["ty"] != "ptr" or self.root in ("create", "hardreset", "reset"):
            return
        lk = st.mon.get("link")
        if st.mon["cur"] is None and not st.mon.get("grow") and not st.mon.get("linked") and self.eq(eng, st, addr, lk):
            st.mon["cur"] = val
            return
        s = self.slot(eng, st, addr)
        if s is None and st.mon.get("grow") and (self.eq(eng, st, addr, st.mon["F"]) or
                                                 self.eq(eng, st, eng.operand(st, ins["ptr"]), st.mon["F"])):
            s = self.t0, STALE
        if s is not None:
            self.load_slot(eng, st, ins, addr, val, *s)
            return
        nd = self.node(eng, st, addr)
        if nd is not None and any(self.eq(eng, st, nd, w) for w in st.mon["walk"]) and not st.mon.get("grow"):
            st.mon["walk"] = st.mon["walk"] | {val}
        if nd is not None and st.mon.get("grow"):
            h = st.mon["hand"]
            if self.eq(eng, st, nd, st.mon["cur"]):
                if h is not None:
                    eng.report(st, ins, "node-dropped", "the next node is taken although the node before it has not "
                               "been put into the new table")
                st.mon["hand"] = nd
                st.mon["cur"] = val
                eng.count("nodes_taken")
            elif any(self.eq(eng, st, nd, w) for w in st.mon["walk"]):
                st.mon["walk"] = st.mon["walk"] | {val}

    def load_slot(self, eng, st, ins, addr, val, base, idx):
        if st.mon.get("grow"):
            if base is self.t0:
                if not self.nil(eng, st, st.mon["cur"]) or st.mon["hand"] is not None:
                    eng.report(st, ins, "chain-dropped", "the next slot of the old table is taken although the chain "
                               "of the slot before it is not known to be used up")
                raw = eng.operand(st, ins["ptr"])
                if not self.eq(eng, st, raw, st.mon["F"]):
                    eng.report(st, ins, "skips-slot", "the slots of the old table are not taken one after the other")
                st.mon["F"] = addc(raw, 8)
                st.mon["cur"] = val
                eng.count("old_slots_taken")
            else:
                st.mon["walk"] = frozenset([val])
                st.mon["wslot"] = addr
            return
        if st.mon.get("linked") or st.mon.get("unlinked"):
            return
        if not self.bucket_ok(eng, st, idx, base, self.subject(eng, st)):
            eng.report(st, ins, "wrong-bucket", "the slot that is read is not the one that belongs to the hash of the key")
            return
        eng.count("bucket_reads_checked")
        st.mon["walk"] = frozenset([val])
        if st.mon.get("link") is None:
            st.mon["cur"], st.mon["link"] = val, addr

    def keq(self, eng, st, c):
        k, s = self.keyof(eng, st, c), self.subject(eng, st)
        for t in (fn("keq", k, s), fn("keq", s, k)):
            v = eng.truth(st, t)
            if v is not None:
                return v
        return None

    def branch(self, eng, st, ins, cond, val):
        c = st.mon["cur"]
        if st.mon.get("grow") and st.mon["hand"] is None and c is not ZERO and self.nil(eng, st, c):
            st.mon["cur"] = ZERO
        if c is None or c is STALE or st.mon.get("grow") or st.mon.get("linked") or st.mon.get("unlinked"):
            return
        if self.root in ("lookup", "insert"):
            out = self.keq(eng, st, c) is False
        elif self.root == "remove":
            out = eng.truth(st, EQ(c, mk("a", 1))) is False and eng.truth(st, EQ0(c)) is False
        else:
            return
        if out:
            a = eng.norm(st, addc(c, self.L["next"]))
            st.mon["link"] = a
            st.mon["cur"] = self.now(eng, st, a)

    def store(self, eng, st, ins, addr, val):
        if ins["vty"] != "ptr":
            return
        s = self.slot(eng, st, addr)
        nd = self.node(eng, st, addr)
        o = st.mon.get("link")
        if self.root == "hardreset":
            if s is not None:
                raw = eng.operand(st, ins["ptr"])
                if not self.nil(eng, st, val):
                    eng.report(st, ins, "slot-not-emptied", "a slot is given a node while the table is emptied")
                if self.eq(eng, st, addr, st.mon["F"]) or self.eq(eng, st, raw, st.mon["F"]):
                    st.mon["F"] = addc(raw, 8)
                eng.count("slot_writes_checked")
            else:
                raw = eng.operand(st, ins["ptr"])
                if self.eq(eng, st, raw, st.mon["F"]) and self.nil(eng, st, val):
                    st.mon["F"] = addc(raw, 8)
                    eng.count("slot_writes_checked")
            return
        linkish = s is not None or nd is not None or (o is not None and self.eq(eng, st, addr, o))
        if not linkish:
            return
        if st.mon.get("grow"):
            self.store_grow(eng, st, ins, addr, val, s, nd)
        elif self.root == "insert":
            self.store_insert(eng, st, ins, addr, val, s, nd)
        elif self.root == "remove":
            self.store_remove(eng, st, ins, addr, val, s, nd)
        elif not eng.private(addr):
            eng.report(st, ins, "query-writes", "the table is changed")

    def now(self, eng, st, addr):
        a = eng.norm(st, addr)
        m = st.mem.get(a)
        if m:
            return m[0]
        for x, (v, t) in st.mem.items():
            if eng.truth(st, EQ(x, a)) is True:
                return v
        return None

    def store_insert(self, eng, st, ins, addr, val, s, nd):
        if nd is not None and eng.is_object(st, nd) and nd is not st.mon.get("linked"):
            return              # the new node is being prepared
        eng.count("link_writes_checked")
        if st.mon.get("linked"):
            eng.report(st, ins, "linked-twice", "the chain is changed again after the new node has been linked")
            return
        if not (val.tag == "v" and eng.is_object(st, val)):
            eng.report(st, ins, "chain-changed", "a link of an existing chain is set to something else than the new node")
            return
        if not self.nil(eng, st, st.mon["cur"]):
            eng.report(st, ins, "not-all-compared", "a new node is added although not every node of its bucket has been "
                       "compared with the key")
        nx = self.now(eng, st, addc(val, self.L["next"]))
        if not self.eq(eng, st, addr, st.mon.get("link")):
            # at the head, or at the end of another walk over the chain
            if s is None and nd is not None and any(self.eq(eng, st, nd, w) for w in st.mon["walk"]):
                pass
            elif s is None or not self.bucket_ok(eng, st, s[1], s[0], self.subject(eng, st)):
                eng.report(st, ins, "linked-elsewhere", "the new node is linked neither at the end nor at the head of the "
                           "chain of its bucket")
        if not (self.eq(eng, st, nx, self.now(eng, st, addr)) or
                self.nil(eng, st, nx) and self.nil(eng, st, self.now(eng, st, addr))):
            eng.report(st, ins, "chain-cut", "the new node replaces what the link held without pointing to it")
        st.mon["linked"] = val
        st.mon["cur"] = st.mon["link"] = None

    def store_remove(self, eng, st, ins, addr, val, s, nd):
        p = mk("a", 1)
        eng.count("link_writes_checked")
        if st.mon.get("unlinked"):
            if not (nd is not None and self.eq(eng, st, nd, p)):
                eng.report(st, ins, "chain-changed", "another link is changed after the node has been removed")
            return
        if not self.eq(eng, st, addr, st.mon.get("link")):
            eng.report(st, ins, "chain-changed", "a link is changed that is not known to lead to the node to remove")
            return
        if not self.eq(eng, st, st.mon["cur"], p):
            eng.report(st, ins, "other-node-removed", "a link is changed that leads to another node than the one to remove")
            return
        if not self.eq(eng, st, val, self.now(eng, st, addc(p, self.L["next"]))):
            eng.report(st, ins, "chain-cut", "the link to the removed node is not set to its successor")
        st.mon["unlinked"] = 1

    def store_grow(self, eng, st, ins, addr, val, s, nd):
        eng.count("link_writes_checked")
        h = st.mon["hand"]
        if nd is not None and h is not None and self.eq(eng, st, nd, h):
            return              # checked when it is placed
        if nd is not None and self.eq(eng, st, nd, st.mon["cur"]):
            eng.report(st, ins, "chain-lost", "the link of a node is overwritten before the rest of its chain is taken")
            return
        if h is None or not self.eq(eng, st, val, h):
            eng.report(st, ins, "chain-changed", "a link is set to something else than the node taken from the old table")
            return
        key = self.keyof(eng, st, h)
        cur = self.now(eng, st, addr)
        nx = self.now(eng, st, addc(h, self.L["next"]))
        if s is not None:
            sl = s
        else:
            w = st.mon["walk"]
            if nd is None or not any(self.eq(eng, st, nd, x) for x in w):
                eng.report(st, ins, "linked-elsewhere", "a node is linked behind a node that is not in the chain of its "
                           "bucket")
                return
            sl = self.slot(eng, st, st.mon["wslot"]) if st.mon["wslot"] is not STALE else (None, STALE)
        if sl[0] is not self.current(eng, st)[0] or not self.bucket_ok(eng, st, sl[1], sl[0], key):
            eng.report(st, ins, "wrong-bucket", "a node is put into a bucket that does not belong to the hash of its key")
        if cur is None or nx is None or not (self.eq(eng, st, nx, cur) or
                                             self.nil(eng, st, nx) and self.nil(eng, st, cur)):
            eng.report(st, ins, "chain-cut", "a node replaces what a link held without pointing to it")
        st.mon["hand"] = None
        st.mon["walk"] = frozenset()
        st.mon["wslot"] = STALE

    def call(self, eng, st, ins, name, args, res):
        if name in ("vpi_vec_swap", "vpi_vec_move") and self.root == "insert" and not st.mon.get("grow"):
            b, n, z = self.current(eng, st)
            if b is not self.t0:
                st.mon["grow"] = 1
                st.mon["F"] = self.t0
                st.mon["hand"] = None
                st.mon["cur"] = ZERO
                st.mon["walk"] = frozenset()
                st.mon["wslot"] = STALE
                if not z:
                    eng.report(st, ins, "not-empty", "the new table is not known to be empty")
        if name == "vpi_inserted":
            self.inserted(eng, st, ins, args)

    def inserted(self, eng, st, ins, args):
        eng.count("results_checked")
        n = st.mon.get("linked")
        if n:
            ok = args[0] is TRUE or eng.truth(st, EQ(args[0], ZERO)) is False or eng.truth(st, args[0]) is True
            if not ok:
                eng.report(st, ins, "wrong-answer", "an insertion is reported as one that found the key")
            if not self.eq(eng, st, args[1], n):
                eng.report(st, ins, "wrong-handle", "the handle returned is not the new one")
            for off, k, what in ((self.L["key"], 1, "key"), (self.L["value"], 2, "value")):
                if eng.content(st, addc(n, off)) is not eng.content(st, mk("a", k)):
                    eng.report(st, ins, "wrong-" + what, "the new entry does not hold a copy of the given " + what)
        else:
            ok = args[0] is ZERO or eng.truth(st, args[0]) is False
            c = st.mon["cur"]
            if not ok:
                eng.report(st, ins, "wrong-answer", "the key is reported as new although nothing was added")
            if not self.found(eng, st, args[1]):
                eng.report(st, ins, "wrong-handle", "the handle returned is not one whose key has been found equal")

    def found(self, eng, st, h):
        """h is a node of the chain whose key equals the given one"""
        return (self.eq(eng, st, h, st.mon["cur"]) or any(self.eq(eng, st, h, w) for w in st.mon["walk"])) and \
            self.keq(eng, st, h) is True

    def passed(self, eng, st, F, base, n):
        """the frontier F has reached the end of the n slots at base"""
        if F is STALE:
            return False
        if self.eq(eng, st, F, add(base, scale(n, 8))):
            return True
        for f in (F, eng.norm(st, F)):
            s = self.slot(eng, st, f)
            if s is not None and s[0] is base and s[1] is not STALE and \
                    eng.truth(st, SLT(s[1], n, "ult")) is False:
                return True
        return False

    def merge_extra(self, eng, st):
        c = st.mon["cur"]
        if c is None or c is STALE:
            return ()
        r = [eng.truth(st, EQ0(c))]
        if self.root == "remove":
            r.append(eng.truth(st, EQ(c, mk("a", 1))))
        elif not st.mon.get("grow"):
            r.append(self.keq(eng, st, c))
        return tuple(r)

    def fields(self, eng, st, ins):
        b, n, z = self.current(eng, st)
        for what, d in (("size", 0), ("mask", -1)):
            for o in self.L[what]:
                v = st.mem.get(addc(mk("a", 0), o))
                eng.count("size_fields_checked")
                if v is None or not self.eq(eng, st, v[0], addc(n, d)):
                    eng.report(st, ins, "size-mismatch", "the recorded size of the table is not the number of its slots")

    def resume(self, eng, st, ins):
        if self.root == "create":
            return
        eng.count("exceptional_exits_checked")
        self.fields(eng, st, ins)
        if st.mon.get("grow") and not self.complete(eng, st):
            eng.report(st, ins, "nodes-lost", "an exception leaves the table while nodes are being moved to the new one")

    def escape(self, eng, st, ins):
        self.resume(eng, st, ins)

    def complete(self, eng, st):
        n0 = fn("nslots", self.L["table"])
        return st.mon["hand"] is None and self.nil(eng, st, st.mon["cur"]) and \
            self.passed(eng, st, st.mon["F"], self.t0, n0)

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        self.fields(eng, st, ins)
        c = st.mon["cur"]
        b, n, z = self.current(eng, st)
        if self.root == "lookup":
            v = eng.norm(st, val) if val is not STALE else STALE
            if self.nil(eng, st, v):
                if not self.nil(eng, st, c):
                    eng.report(st, ins, "not-all-compared", "'not found' is answered although not every node of the bucket "
                               "has been compared with the key")
            elif not self.found(eng, st, v) and not (self.eq(eng, st, v, c) and self.nil(eng, st, c)):
                eng.report(st, ins, "wrong-handle", "the handle returned is not one whose key has been found equal")
        elif self.root == "remove":
            if not st.mon.get("unlinked") and not self.nil(eng, st, c):
                eng.report(st, ins, "not-removed", "the node is not unlinked and the chain of its bucket has not been "
                           "searched to the end")
        elif self.root == "insert" and st.mon.get("grow"):
            if not self.complete(eng, st):
                eng.report(st, ins, "not-all-moved", "not every node of the old table has been put into the new one")
        elif self.root == "create":
            if not self.L["size"] and not self.L["mask"]:
                eng.report(st, ins, "size-mismatch", "no member of the new table records the number of its slots")
            if not self.L["zero"]:
                eng.report(st, ins, "not-empty", "a new table is not known to have empty slots")
        elif self.root == "hardreset":
            if b is self.t0:
                if not self.passed(eng, st, st.mon["F"], b, n):
                    eng.report(st, ins, "not-emptied", "not every slot has been emptied")
            elif not z:
                eng.report(st, ins, "not-emptied", "the table is not known to have empty slots")


def jobs(roots, eh=False):
    return [dict(src="h_hash.cpp", defs=["THROWS"] if eh else [], roots=[r], monitor="props_hash:HashMon", eh=eh,
                 model="props_hash:HModel", label="HashTable" + (" with exceptions" if eh else ""), cfg={})
            for r in roots]


def H01(ctx):
    ctx.rules.append("chain frontier: an answer or a new node only after every node of the key's bucket has been compared; "
                     "the result is the node that compared equal or the one that was linked, holding copies of key and value")
    run.run(ctx, jobs(("lookup", "insert", "create")),
            rules=("wrong-bucket", "not-all-compared", "wrong-handle", "wrong-answer", "wrong-key", "wrong-value",
                   "query-writes", "linked-twice", "linked-elsewhere", "chain-cut", "chain-changed", "not-empty"))
    ctx.need("bucket_reads_checked", 2)
    ctx.need("results_checked", 2)
    ctx.ob(sum(ctx.counts[k] for k in ("bucket_reads_checked", "results_checked", "exits_checked")))


def H02(ctx):
    ctx.rules.append("growth takes every node of every old slot once and links it into the bucket of its key in the new "
                     "table; removal unlinks the given node only; the recorded size is that of the table at every exit")
    run.run(ctx, jobs(("insert", "remove", "hardreset", "create")) + jobs(("insert", "create"), eh=True))
    ctx.need("old_slots_taken", 1)
    ctx.need("nodes_taken", 1)
    ctx.need("link_writes_checked", 5)
    ctx.need("exits_checked", 4)
    ctx.ob(sum(ctx.counts[k] for k in ("old_slots_taken", "nodes_taken", "link_writes_checked", "exits_checked",
                                       "size_fields_checked")))
