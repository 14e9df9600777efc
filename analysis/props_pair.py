"""Properties of PairQueue, with its tournament tree as an opaque queue."""
import build
import run
from engine import *
from model import Model
from terms import *

ROWTY = {"i16": 2, "i32": 4, "i8": 1, "i64": 8}


def column_of(eng, a):
    """(column, offset) when a is an address inside a column of the queue"""
    c, items = lin(a)
    if len(items) != 1 or items[0][1] != 1:
        return None
    b = items[0][0]
    if is_column(eng, b):
        return b, c
    return None


def is_column(eng, b):
    o = eng.origin_calls(b)
    return bool(o) and o <= {"vpr_q_top", "vpr_q_elem"}


class PModel(Model):
    trunc_identity = ("i32",)
    relations = {"vpra_triples": ("triples", "IIIIII-"), "vpra_cmplt": ("cmplt", "I-")}
    L = None
    stable = ("fld", "row", "in", "retired")

    def same_range(self, fn, i, j):
        return fn.name == "vp_root_add" and i in (1, 2) and j in (1, 2)

    def load(self, eng, st, ins, addr):
        if addr is STALE:
            return None
        co = column_of(eng, addr)
        if co:
            if self.L and co[1] == self.L["begin"] and co[0] in st.mon.get("dirty", ()):
                return None
            return fn("fld", co[0], num(co[1]), ins["ty"])
        c, items = lin(addr)
        for x, k in items:
            if k == 1 and x.tag == "f" and x.args[0] == "vec_begin":
                return self.retired(eng, st, sub(addr, x))
        b = [x for x, k in items if k == 1]
        if mk("a", 1) in b:
            return fn("in", addr, ins["ty"])
        if ins["ty"] in ("i16", "i32") and len(b) == 1 and b[0].tag not in ("a", "al") and \
                not is_column(eng, b[0]) and (not eng.is_object(st, b[0]) or
                                              eng.origin_calls(b[0]) == {"vpi_arena_alloc_array"}):
            return fn("row", addr)
        return None

    def retired(self, eng, st, idx):
        w = st.mon.get("rstore")
        if w is not None:
            e = eng.truth(st, EQ(idx, w[0]))
            if e is True:
                return w[1]
            if e is None:
                return fn("retired", idx, num(1))
        return fn("retired", idx, num(0))

    def call(self, eng, st, ins, name, args):
        if name in ("vpr_q_top", "vpr_q_empty", "vpr_q_elem", "vpr_q_size"):
            q, r = self.ver(eng, st, args[0])
            if name in ("vpr_q_empty", "vpr_q_size"):
                return fn(name[4:], q, r)
            t = None
            if name == "vpr_q_top":
                t = st.mon.get("top")
            if t is None:
                t = eng.fresh(st, ins)
                if name == "vpr_q_top":
                    st.mon["top"] = t
                    if r is ZERO:
                        h = getattr(eng.mon, "first_top", None)
                        if h:
                            h(eng, st, t)
            if self.L:
                b = fn("fld", t, num(self.L["begin"]), "ptr")
                e = fn("fld", t, num(self.L["end"]), "ptr")
                f = EQ(b, e)
                if f not in st.facts and eng.truth(st, f) is None:
                    st.facts[f] = False
            return t
        if name in ("vpi_q_push", "vpi_q_pop", "vpi_q_decrease"):
            self.mutate(eng, st, ins, args[0])
            st.mon.pop("top", None)
            return None
        return Model.call(self, eng, st, ins, name, args)


class Spy(Monitor):
    def __init__(self):
        self.fields = []
        self.rows = {}
        self.outs = {}
        self.pd = set()
        self.this = set()
        self.width = {}

    def load(self, eng, st, ins, addr, val):
        co = column_of(eng, addr)
        if co:
            self.fields.append((co[1], ins["ty"]))
        o = offset_between(addr, mk("a", 0))
        if o is not None:
            self.this.add((o, ins["ty"]))

    def call(self, eng, st, ins, name, args, res):
        if name in ("vpi_pd_compute", "vpi_pd_construct"):
            pd = args[2] if name == "vpi_pd_compute" else args[0]
            c, items = lin(eng.norm(st, pd))
            if len(items) == 1 and eng.is_object(st, items[0][0]):
                self.pd.add(c)


def layout(fs, job):
    """offsets of the fields of a column, learned from topPair() and pairCount()"""
    def go(root):
        s = Spy()
        Engine(fs["vp_root_" + root], s, PModel(), job["label"]).run()
        return s
    t = go("toppair")
    col = sorted(set(o for o, ty in t.fields if ty != "ptr"))
    beg = sorted(set(o for o, ty in t.fields if ty == "ptr"))
    p = go("pairs")
    end = sorted(set(o for o, ty in p.fields if ty == "ptr") - set(beg))
    a = go("add")
    cc = sorted(o for o, ty in go("columns").this)
    if not (len(col) == len(beg) == len(end) == len(cc) == 1) or len(a.pd) != 1:
        raise AnalysisBroken("cannot tell the fields of a column apart: %s %s %s %s %s" % (col, beg, end, cc, a.pd))
    L = {"col": col[0], "begin": beg[0], "end": end[0], "pd": a.pd.pop(), "count": cc[0]}
    # which columns use the short row numbers: what addColumnDescending does
    w = Widths(L)
    m = PModel()
    m.L = L
    Engine(fs["vp_root_add"], w, m, job["label"]).run()
    if not w.seen:
        raise AnalysisBroken("no column is ever created")
    L["width"] = w.seen
    return L


class Widths(Monitor):
    """store widths of new rows with the bound known for the column index"""
    def __init__(self, L):
        self.L = L
        self.seen = {}

    def before(self, eng, st, ins, name, args):
        if name != "vpi_q_push":
            return
        col = st.mem.get(eng.norm(st, addc(args[1], self.L["col"])))
        if col is None:
            return
        for ty in set(t for b, t in st.mon.get("w", ())):
            lo, hi = bounds(eng, st, col[0])
            r = self.seen.get(ty)
            self.seen[ty] = (lo, hi) if r is None else (
                None if None in (lo, r[0]) else min(lo, r[0]),
                None if None in (hi, r[1]) else max(hi, r[1]))

    def store(self, eng, st, ins, addr, val):
        for x, k in lin(addr)[1]:
            if x.tag == "v":
                i = eng.fn.defs.get(x.args[0])
                if i is not None and i.get("callee") == "vpi_arena_alloc_array":
                    st.mon["w"] = st.mon.get("w", frozenset()) | {(x, ins["vty"])}


def widen(v):
    """the value that was stored in a slot that is wide enough for it"""
    while v.tag == "f" and v.args[0] == "trunc":
        v = v.args[2]
    return v


def bounds(eng, st, t):
    """constant bounds known for an unsigned value"""
    lo = hi = None
    for f, v in st.facts.items():
        if f.tag != "ult":
            continue
        p, q = f.args
        if p is t and is_int(q):
            if v:
                hi = q.args[0] - 1 if hi is None else min(hi, q.args[0] - 1)
            else:
                lo = q.args[0] if lo is None else max(lo, q.args[0])
        elif q is t and is_int(p):
            if v:
                lo = p.args[0] + 1 if lo is None else max(lo, p.args[0] + 1)
            else:
                hi = p.args[0] if hi is None else min(hi, p.args[0])
    return lo, hi


class PairMon(Monitor):
    """mon: pd: {(column, (state, col, row))}; state is init, made, raw, dead"""
    prepare = staticmethod(layout)

    def __init__(self, root, fs, job, shared):
        self.root = root
        self.L = shared
        PModel.L = shared
        self.custom = job["cfg"]["CUSTOM"] == "1"
        self.retire = job["cfg"]["RETIRE"] == "1"

    def start(self, eng, st):
        a = addc(mk("a", 0), self.L["count"])
        st.mem[a] = (fn("columns"), None)
        st.mon["pd"] = frozenset()
        st.mon["dirty"] = frozenset()

    def first_top(self, eng, st, t):
        if self.retire and self.root in ("pop", "retire"):
            st.mon["top0"] = t
            for x in (self.fld(t, "col"),):
                st.facts[EQ0(fn("retired", x, num(0)))] = True
            b = self.fld(t, "begin")
            st.facts[EQ0(fn("retired", fn("row", b), num(0)))] = True

    def fld(self, t, name):
        return fn("fld", t, num(self.L[name]), "i32" if name == "col" else "ptr")

    def merge_extra(self, eng, st):
        return frozenset((c, self.cur(eng, st, c, "begin")) for c in st.mon["dirty"])

    # current values of a column's fields
    def cur(self, eng, st, c, name):
        a = eng.norm(st, addc(c, self.L[name]))
        v = st.mem.get(a)
        if v is not None:
            return v[0]
        if column_of(eng, a) and not (name == "begin" and c in st.mon["dirty"]):
            return self.fld(c, name)
        return None

    def column(self, eng, st, a, off=0):
        """the column that contains address a at offset off"""
        a = eng.norm(st, addc(a, -off))
        c, items = lin(a)
        if c == 0 and len(items) == 1 and items[0][1] == 1:
            x = items[0][0]
            if is_column(eng, x):
                return x
            if eng.is_object(st, x) and x.tag == "v":
                return x
        return None

    def data(self, eng, st, c):
        for k, v in st.mon["pd"]:
            if k is c:
                return v
        return ("init", None, None) if is_column(eng, c) else ("none", None, None)

    def setdata(self, st, c, v):
        st.mon["pd"] = frozenset((k, w) for k, w in st.mon["pd"] if k is not c) | {(c, v)}

    def row_is(self, eng, st, r, begin):
        """r is the row number stored at begin"""
        if begin is None or r is None or r is STALE:
            return False
        if r.tag == "f" and r.args[0] == "row" and eng.truth(st, EQ(r.args[1], begin)) is True:
            return True
        # a new column: what was put at its first position
        for a, (v, t) in st.mem.items():
            if widen(v) is r and eng.truth(st, EQ(a, begin)) is True:
                return True
        f = st.mon.get("first")
        return f is not None and f[0] is begin and eng.truth(st, EQ(f[1], r)) is True

    def is_col(self, eng, st, x, c):
        v = self.cur(eng, st, c, "col")
        return v is not None and eng.truth(st, EQ(x, v)) is True

    def init_row(self, eng, st, r, c):
        return r.tag == "f" and r.args[0] == "row" and eng.truth(st, EQ(r.args[1], self.fld(c, "begin"))) is True

    def resolve_row(self, eng, st, r):
        f = st.mon.get("first")
        if f is not None and r.tag == "f" and r.args[0] == "row" and eng.truth(st, EQ(r.args[1], f[0])) is True:
            return f[1]
        return r

    def same(self, eng, st, a, b):
        a, b = self.resolve_row(eng, st, a), self.resolve_row(eng, st, b)
        if a.tag == "f" and a.args[0] == "row" and b.tag == "f" and b.args[0] == "row":
            return eng.truth(st, EQ(a.args[1], b.args[1])) is True
        return eng.truth(st, EQ(a, b)) is True


class Lifecycle(PairMon):
    """P01"""
    def call(self, eng, st, ins, name, args, res):
        if name in ("vpi_pd_init", "vpi_pd_construct", "vpi_pd_compute", "vpi_pd_dtor", "vpi_pd_destruct"):
            eng.count("pair_data_calls_checked")
            pd = args[2] if name == "vpi_pd_compute" else args[0]
            c = self.column(eng, st, pd, self.L["pd"])
            if c is None:
                eng.report(st, ins, "not-a-column", "pair data is handled that does not belong to a column")
                return
            if is_column(eng, c) and c is not st.mon.get("top") and c not in st.mon.get("popped", ()) and \
                    eng.origin_calls(c) != {"vpr_q_elem"}:
                eng.report(st, ins, "destroyed-twice", "the pair data of a column is handled that is not at the top")
                return
            s, col, row = self.data(eng, st, c)
            if name in ("vpi_pd_init", "vpi_pd_construct"):
                if s not in ("none",):
                    eng.report(st, ins, "constructed-twice", "pair data is constructed over existing pair data")
                if name == "vpi_pd_init":
                    self.setdata(st, c, ("raw", None, None))
                else:
                    self.setdata(st, c, ("made", args[1], args[2]))
                    self.args_ok(eng, st, ins, c, args[1], args[2])
            elif name == "vpi_pd_compute":
                if s not in ("raw", "init", "made"):
                    eng.report(st, ins, "not-constructed", "pair data is computed into memory that holds none")
                self.setdata(st, c, ("made", args[0], args[1]))
                self.args_ok(eng, st, ins, c, args[0], args[1])
            else:
                if s in ("none", "dead"):
                    eng.report(st, ins, "destroyed-twice", "pair data is destroyed that was never constructed or is "
                               "destroyed already")
                if name == "vpi_pd_destruct":
                    if s == "init":
                        ok = self.is_col(eng, st, args[1], c) and self.init_row(eng, st, args[2], c)
                    else:
                        ok = col is not None and self.same(eng, st, col, args[1]) and \
                            self.same(eng, st, row, args[2])
                    if not ok:
                        eng.report(st, ins, "destroyed-for-other-pair", "pair data is destroyed as that of another "
                                   "pair than the one it was computed for")
                self.setdata(st, c, ("dead", None, None))
                self.settle(eng, st)
        elif name == "vpi_q_visited" and self.root == "destroy":
            eng.count("columns_dropped_checked")
            c = self.column(eng, st, args[1])
            if c is None or self.data(eng, st, c)[0] != "dead":
                eng.report(st, ins, "not-destroyed", "the pair data of a column is not destroyed with the queue")
            elif is_column(eng, c):
                st.mon["dirty"] = st.mon["dirty"] - {c}
                st.mon["pd"] = frozenset((k, v) for k, v in st.mon["pd"] if k is not c)
        elif name == "vpi_q_walked":
            st.mon["walked"] = 1
        elif name == "vpi_q_dtor":
            q, r = self.model_ver(eng, st, args[0])
            if not st.mon.get("walked") and eng.truth(st, fn("q_empty", q, r)) is not True:
                eng.report(st, ins, "not-destroyed", "the queue is destroyed although it may have columns whose pair "
                           "data is not destroyed")
        elif name == "vpi_q_push" or name == "vpi_q_decrease":
            eng.count("queue_entries_checked")
            c = self.column(eng, st, args[1])
            if c is None:
                eng.report(st, ins, "not-a-column", "something else than a column is put in the queue")
                return
            if not self.current(eng, st, c):
                eng.report(st, ins, "stale-data", "a column enters the order of the queue although its pair data is "
                           "not known to be that of its current pair")
            if eng.truth(st, EQ(self.cur(eng, st, c, "begin") or ZERO, self.cur(eng, st, c, "end") or ZERO)) is not False:
                eng.report(st, ins, "empty-column", "a column that may have no pairs is kept in the queue")
            st.mon["dirty"] = st.mon["dirty"] - {c}
            if is_column(eng, c):
                st.mon["pd"] = frozenset((k, v) for k, v in st.mon["pd"] if k is not c)
            else:
                st.mon["in"] = st.mon.get("in", frozenset()) | {c}

    def model_ver(self, eng, st, q):
        return eng.model.ver(eng, st, q)

    def before(self, eng, st, ins, name, args):
        if name == "vpi_q_decrease":
            t = st.mon.get("top")
            if t is None or eng.truth(st, EQ(t, args[1])) is not True:
                eng.report(st, ins, "not-the-top", "another column than the top is moved down in the queue")
        elif name == "vpi_q_pop":
            eng.count("columns_dropped_checked")
            t = st.mon.get("top")
            if t is None:
                eng.report(st, ins, "not-destroyed", "a column leaves the queue that was not looked at")
                return
            st.mon["dirty"] = st.mon["dirty"] - {t}
            st.mon["popped"] = st.mon.get("popped", frozenset()) | {t}
            self.settle(eng, st)

    def settle(self, eng, st):
        """forget columns that are done with"""
        p = st.mon.get("popped")
        if p:
            dead = [t for t in p if self.data(eng, st, t)[0] == "dead"]
            if dead:
                st.mon["popped"] = p - set(dead)
                st.mon["pd"] = frozenset((k, v) for k, v in st.mon["pd"] if k not in dead)

    def args_ok(self, eng, st, ins, c, col, row):
        if not self.is_col(eng, st, col, c):
            eng.report(st, ins, "wrong-column", "pair data is computed with another column index than the column's")
        if not self.row_is(eng, st, row, self.cur(eng, st, c, "begin")):
            eng.report(st, ins, "wrong-row", "pair data is computed for another row than the column's current one")

    def current(self, eng, st, c):
        s, col, row = self.data(eng, st, c)
        b = self.cur(eng, st, c, "begin")
        if s == "init":
            return b is not None and eng.truth(st, EQ(b, self.fld(c, "begin"))) is True
        return s == "made" and self.row_is(eng, st, row, b) and self.is_col(eng, st, col, c)

    def store(self, eng, st, ins, addr, val):
        c = self.column(eng, st, addr, self.L["begin"])
        if c is not None and is_column(eng, c):
            st.mon["dirty"] = st.mon["dirty"] | {c}
            eng.count("row_steps_checked")
        n, items = lin(addr)
        b = [x for x, k in items if k == 1 and x.tag == "v"]
        if b:
            i = eng.fn.defs.get(b[0].args[0])
            if i is not None and i.get("callee") == "vpi_arena_alloc_array" and n == 0 and len(items) == 1:
                st.mon["first"] = (addr, widen(val))

    def ret(self, eng, st, ins, val):
        self.leave(eng, st, ins)

    def resume(self, eng, st, ins):
        self.leave(eng, st, ins)

    def leave(self, eng, st, ins):
        eng.count("exits_checked")
        self.settle(eng, st)
        for c in st.mon["dirty"]:
            if self.data(eng, st, c)[0] != "dead" or self.root != "destroy":
                eng.report(st, ins, "order-not-updated", "the pair at the front of a column changed but the queue is "
                           "not told")
        for c in st.mon.get("popped", ()):
            eng.report(st, ins, "not-destroyed", "a column leaves the queue and its pair data is not destroyed")
        for c, (s, a, b) in st.mon["pd"]:
            if not is_column(eng, c):
                inq = c in st.mon.get("in", ())
                if s in ("raw", "made") and not inq:
                    eng.report(st, ins, "leaked-data", "pair data that was constructed is neither in the queue nor "
                               "destroyed when the operation ends")
                if s == "dead" and inq:
                    eng.report(st, ins, "destroyed-in-queue", "a column in the queue has its pair data destroyed")
            elif s == "dead" and self.root not in ("destroy",):
                eng.report(st, ins, "destroyed-in-queue", "a column in the queue has its pair data destroyed")

    def escape(self, eng, st, ins):
        self.resume(eng, st, ins)


# ------------------------------------------------------------------ P02
class AddAtomic(PairMon):
    """an add that throws leaves everything as it was; one that returns has
    added exactly one column"""
    def start(self, eng, st):
        PairMon.start(self, eng, st)
        st.mon["delta"] = 0         # entries appended to the retirement vector
        st.mon["in"] = 0            # columns pushed
        st.mon["mem"] = frozenset() # (allocation, arena) of the new column

    def columns(self, eng, st):
        v = st.mem.get(addc(mk("a", 0), self.L["count"]))
        return v[0] if v else None

    def call(self, eng, st, ins, name, args, res):
        b = eng.base_of(eng.norm(st, args[0])) if args else []
        if name in ("vpi_vec_pushp", "vpi_vec_emplace") and b == [mk("a", 0)]:
            st.mon["delta"] += 1
            st.mon["slot"] = res if res is not None else None
            if name == "vpi_vec_pushp" and args[1] is not ZERO:
                eng.report(st, ins, "added-retired", "a new index starts as retired")
        elif name == "vpi_vec_pop" and b == [mk("a", 0)]:
            st.mon["delta"] -= 1
        elif name.startswith("vpi_vec_") and name not in ("vpi_vec_reserve",) and b == [mk("a", 0)]:
            eng.report(st, ins, "retired-set-changed", "the record of retired indices is changed by something else "
                       "than adding the new index")
        elif name == "vpi_q_push":
            st.mon["in"] += 1
            eng.count("columns_pushed_checked")
            c = self.column(eng, st, args[1])
            if c is None or is_column(eng, c):
                eng.report(st, ins, "not-a-column", "something else than the new column is put in the queue")
            elif eng.truth(st, EQ(self.cur(eng, st, c, "col") or num(-1), fn("columns"))) is not True:
                eng.report(st, ins, "column-number", "the new column does not get the next column number")
            elif eng.truth(st, SLT(fn("columns"), num((1 << 32) - 1), "ult")) is not True and \
                    (bounds(eng, st, fn("columns"))[1] or 1 << 40) > (1 << 32) - 2:
                eng.report(st, ins, "column-number", "a column number is used that may not fit")
        elif name in ("vpi_q_pop", "vpi_q_decrease"):
            eng.report(st, ins, "queue-changed", "adding a column changes the queue otherwise")
        elif name == "vpi_guard_open":
            st.mon["guard"] = eng.norm(st, args[1])
        elif name == "vpi_guard_release":
            st.mon["guard"] = "released"
        elif name == "vpi_guard_close":
            g = st.mon.pop("guard", None)
            if g is not None and g != "released":
                self.freed(eng, st, ins, g)
        elif name in ("vpi_arena_alloc", "vpi_arena_alloc_array"):
            st.mon["mem"] = st.mon["mem"] | {(res, eng.norm(st, args[0]))}
        elif name in ("vpi_arena_free", "vpi_arena_free_after"):
            if st.mon["in"]:
                eng.report(st, ins, "column-memory-freed", "the memory of a column in the queue is given back")
            k = [x for x in st.mon["mem"] if eng.truth(st, EQ(x[0], args[1])) is True]
            st.mon["mem"] = st.mon["mem"] - set(k) if name == "vpi_arena_free" or not k else frozenset()
        elif name == "vpi_arena_free_all":
            eng.report(st, ins, "column-memory-freed", "the memory of the columns in the queue is given back")

    def freed(self, eng, st, ins, arena):
        if st.mon["in"]:
            eng.report(st, ins, "column-memory-freed", "the memory of a column in the queue is given back")
        st.mon["mem"] = frozenset(x for x in st.mon["mem"] if x[1] is not arena)

    def store(self, eng, st, ins, addr, val):
        if st.mon.get("slot") is not None and addr is st.mon["slot"]:
            eng.count("new_index_states_checked")
            if val is not ZERO:
                eng.report(st, ins, "added-retired", "a new index starts as retired")

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        c = self.columns(eng, st)
        if c is None or eng.truth(st, EQ(c, addc(fn("columns"), 1))) is not True:
            eng.report(st, ins, "column-count", "adding a column does not raise the number of columns by one")
        if st.mon["delta"] != (1 if self.retire else 0):
            eng.report(st, ins, "index-count", "adding a column does not record one more index")
        empty = eng.truth(st, EQ(mk("a", 1), mk("a", 2)))
        if st.mon["in"] != (0 if empty is True else 1):
            eng.report(st, ins, "column-not-added", "the new column is not put in the queue exactly once")

    def thrown(self, eng, st, ins):
        eng.count("failure_points_checked")

    def escape(self, eng, st, ins):
        self.resume(eng, st, ins)

    def resume(self, eng, st, ins):
        eng.count("failures_checked")
        c = self.columns(eng, st)
        if c is None or eng.truth(st, EQ(c, fn("columns"))) is not True:
            eng.report(st, ins, "column-count", "the number of columns is changed although adding the column failed")
        if st.mon["delta"] != 0:
            eng.report(st, ins, "index-count", "an index stays recorded although adding its column failed")
        if st.mon["in"]:
            eng.report(st, ins, "column-added", "the column is in the queue although adding it failed")
        if st.mon["mem"]:
            eng.report(st, ins, "memory-kept", "memory taken for a column is kept although adding it failed")


# ------------------------------------------------------------------ P03, P05
class Retired(PairMon):
    def start(self, eng, st):
        PairMon.start(self, eng, st)
        st.mon["taken"] = 0

    def unretired(self, eng, st, idx):
        w = st.mon.get("rstore")
        if w is not None:
            e = eng.truth(st, EQ(idx, w[0]))
            if e is not False:
                return eng.truth(st, EQ0(fn("retired", idx, num(1)))) is True
        return eng.truth(st, EQ0(fn("retired", idx, num(0)))) is True

    def is_retired(self, eng, st, idx):
        w = st.mon.get("rstore")
        if w is not None and eng.truth(st, EQ(idx, w[0])) is True:
            return True
        return eng.truth(st, EQ0(fn("retired", idx, num(0)))) is False or \
            w is not None and eng.truth(st, EQ0(fn("retired", idx, num(1)))) is False

    def rows_at(self, addr):
        return [fn("row", addr)]

    def sync(self, eng, st):
        """what is known of the column at the top: its number and front row are
        retired (1), are not (0), nothing (-)"""
        t = st.mon.get("top")
        old = st.mon.get("s")
        if t is None:
            q = any(f.tag == "f" and f.args[0] == "q_empty" and v and
                    eng.model.ver(eng, st, f.args[1])[1] is f.args[2] for f, v in st.facts.items())
            if q:
                st.mon["s"] = "empty"
            elif old != "empty":
                st.mon.pop("s", None)
            return
        col, b = self.cur(eng, st, t, "col"), self.cur(eng, st, t, "begin")
        k = []
        for x in (col, b):
            r = "-"
            if x is not None:
                y = fn("row", x) if x is b else x
                r = "1" if self.is_retired(eng, st, y) else "0" if self.unretired(eng, st, y) else "-"
            k.append(r)
        if old is not None and old != "empty" and old[2] is t:
            if k[0] == "-":
                k[0] = old[0]
            if k[1] == "-" and b is not None and old[3] is not STALE and eng.truth(st, EQ(old[3], b)) is True:
                k[1] = old[1]
        st.mon["s"] = (k[0], k[1], t, b if b is not None else ZERO)

    def know(self, eng, st, t, what):
        self.sync(eng, st)
        s = st.mon.get("s")
        return s[what] if isinstance(s, tuple) and s[2] is t else "-"

    def branch(self, eng, st, ins, cond, val):
        self.sync(eng, st)

    def edge(self, eng, st, src, dst):
        self.sync(eng, st)

    def step(self, eng, st, ins, c, old, new):
        """the pair at the front of column c is dropped"""
        eng.count("pairs_dropped_checked")
        ok = False
        for ty, n in (("i16", 2), ("i32", 4)):
            if eng.truth(st, EQ(new, addc(old, n))) is True and self.width_ok(eng, st, c, ty):
                ok = True
        if not ok:
            eng.report(st, ins, "row-step", "the front of a column moves by something else than one pair of that column")
        if "1" in (self.know(eng, st, c, 0), self.know(eng, st, c, 1)):
            return
        if self.root == "pop" and not st.mon["taken"] and (not self.retire or c is st.mon.get("top0")):
            st.mon["taken"] = 1
            return
        eng.report(st, ins, "pair-lost", "a pair is dropped that is neither the top pair to be removed nor known "
                   "to be retired")

    def width_ok(self, eng, st, c, ty):
        col = self.cur(eng, st, c, "col")
        w = self.L["width"].get(ty)
        if w is None or col is None:
            return False
        lo, hi = w
        clo, chi = bounds(eng, st, col)
        # all of the columns that are known to use this width
        return (lo is None or lo == 0 or clo is not None and clo >= lo) and \
            (hi is None or chi is not None and chi <= hi or hi >= (1 << 32) - 2)

    def store(self, eng, st, ins, addr, val):
        c = self.column(eng, st, addr, self.L["begin"])
        if c is not None and is_column(eng, c):
            old = self.cur(eng, st, c, "begin")
            if old is None or c is not st.mon.get("top"):
                eng.report(st, ins, "pair-lost", "the front of a column moves that is not at the top")
            else:
                self.step(eng, st, ins, c, old, val)
            st.mon["dirty"] = st.mon["dirty"] | {c}
        for o in ("col", "end"):
            c = self.column(eng, st, addr, self.L[o])
            if c is not None and is_column(eng, c):
                eng.report(st, ins, "column-changed", "the end or the number of a column in the queue changes")
        n, items = lin(addr)
        for x, k in items:
            if k == 1 and x.tag == "f" and x.args[0] == "vec_begin":
                eng.count("retirements_checked")
                i = sub(addr, x)
                if self.root != "retire" or eng.truth(st, EQ(i, mk("a", 1))) is not True or val is not num(1):
                    eng.report(st, ins, "retires-other", "another index than the given one changes between retired "
                               "and not retired")
                st.mon["rstore"] = (i, val)
                st.mon.pop("s", None)

    def load(self, eng, st, ins, addr, val):
        if val.tag == "f" and val.args[0] == "row" and ins["ty"] in ("i16", "i32"):
            t = st.mon.get("top")
            c = None
            for k in ([t] if t is not None else []):
                b = self.cur(eng, st, k, "begin")
                if b is not None and offset_between(b, addr) is not None or any(
                        x.tag == "m" and x.args[1] is addc(k, self.L["begin"]) for x, _ in lin(addr)[1]):
                    c = k
            if c is not None:
                eng.count("row_reads_checked")
                if not self.width_ok(eng, st, c, ins["ty"]):
                    eng.report(st, ins, "row-width", "a row number is read with another width than it was stored with")

    def before(self, eng, st, ins, name, args):
        if name in ("vpi_q_pop", "vpi_q_decrease", "vpi_q_push"):
            self.sync(eng, st)
        if name == "vpi_q_pop":
            eng.count("columns_dropped_checked")
            t = st.mon.get("top")
            ok = False
            if t is not None:
                b = self.cur(eng, st, t, "begin")
                ok = b is not None and eng.truth(st, EQ(b, self.cur(eng, st, t, "end"))) is True or \
                    self.know(eng, st, t, 0) == "1"
            if not ok:
                eng.report(st, ins, "column-lost", "a column is dropped from the queue that is neither exhausted nor "
                           "known to be retired")
            if t is not None:
                st.mon["dirty"] = st.mon["dirty"] - {t}
            st.mon["gone"] = 1
        elif name == "vpi_q_decrease":
            t = st.mon.get("top")
            if t is not None:
                st.mon["dirty"] = st.mon["dirty"] - {t}

    def call(self, eng, st, ins, name, args, res):
        if name in ("vpi_q_pop", "vpi_q_decrease", "vpi_q_push"):
            st.mon.pop("s", None)
        if name in ("vpi_pd_compute", "vpi_pd_construct") and self.retire and self.root != "add":
            eng.count("computations_checked")
            col, row = (args[0], args[1]) if name == "vpi_pd_compute" else (args[1], args[2])
            for x, what in ((col, "column"), (row, "row")):
                if not self.unretired(eng, st, x):
                    eng.report(st, ins, "computes-retired", "pair data is computed for a %s index that is not known "
                               "not to be retired" % what)

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        if self.root == "retire" and st.mon.get("rstore") is None:
            eng.report(st, ins, "not-retired", "an index is not recorded as retired")
        if self.root == "pop" and not st.mon["taken"]:
            eng.report(st, ins, "top-kept", "the top pair is not removed")
        if not self.retire or self.root == "add":
            return
        self.sync(eng, st)
        k = st.mon.get("s")
        if not (k == "empty" or isinstance(k, tuple) and k[:2] == ("0", "0") and k[2] is st.mon.get("top")):
            eng.report(st, ins, "retired-top", "the operation ends with a top pair that is not known to be free of "
                       "retired indices")


# ------------------------------------------------------------------ P04
class Triples(PairMon):
    def triple(self, eng, st, ins, c, col, row, pd, which):
        eng.count("pair_parts_checked", 3)
        if not self.is_col(eng, st, col, c):
            eng.report(st, ins, "wrong-column", "the %s pair is presented with a column index that is not its own" % which)
        if not self.row_is(eng, st, row, self.cur(eng, st, c, "begin")):
            eng.report(st, ins, "wrong-row", "the %s pair is presented with a row index that is not its own" % which)
        if pd is not None and eng.truth(st, EQ(pd, addc(c, self.L["pd"]))) is not True:
            eng.report(st, ins, "wrong-data", "the %s pair is presented with the pair data of another" % which)

    def call(self, eng, st, ins, name, args, res):
        if name == "vpra_triples":
            st.mon["cmp"] = (res, tuple(args[:6]))
        elif name == "vpi_q_compared":
            eng.count("comparisons_checked")
            a, b, r, less = args
            k = st.mon.get("cmp")
            if k is None or k[0] is not r:
                eng.report(st, ins, "comparison-result", "the result of a comparison is not what the configuration said")
                return
            t = k[1]
            self.triple(eng, st, ins, a, t[0], t[1], t[2], "first")
            self.triple(eng, st, ins, b, t[3], t[4], t[5], "second")
            if not (less.tag == "f" and less.args[0] == "cmplt" and less.args[1] is r):
                eng.report(st, ins, "comparison-result", "less-than is not what the configuration says of the result")

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        t = st.mon.get("top")
        if self.root == "toppair":
            o = [st.mem.get(addc(mk("a", 1), k)) for k in (0, 8)]
            if t is None or None in o:
                eng.report(st, ins, "wrong-column", "the top pair is not that of the column at the top")
            else:
                self.triple(eng, st, ins, t, o[0][0], o[1][0], None, "top")
        elif self.root == "topdata":
            eng.count("pair_parts_checked")
            if t is None or val is None or eng.truth(st, EQ(val, addc(t, self.L["pd"]))) is not True:
                eng.report(st, ins, "wrong-data", "the pair data presented is not that of the top pair")
        elif self.root == "empty":
            if val is None or not (val.tag == "f" and val.args[0] == "q_empty"):
                eng.report(st, ins, "wrong-empty", "emptiness is not that of the queue of columns")
        elif self.root == "columns":
            if val is not fn("columns"):
                eng.report(st, ins, "wrong-count", "the number of columns is not the recorded one")
        elif self.root == "retired":
            v = val
            if self.retire:
                ok = v is not None and eng.truth(st, XOR(v, EQ0(fn("retired", mk("a", 1), num(0))))) is not False and \
                    v is NOT(EQ0(fn("retired", mk("a", 1), num(0))))
            else:
                ok = v is ZERO
            if not ok:
                eng.report(st, ins, "wrong-retired", "retired() does not say what is recorded for that index")


# ------------------------------------------------------------------ P06
class CopyRows(PairMon):
    """the row array of a new column holds the given rows, in order.
    mon: w = (next slot, next given row, size of an element)"""
    offset_pairs = True

    def start(self, eng, st):
        PairMon.start(self, eng, st)
        st.mon["w"] = None
        st.mon["ld"] = None

    def array(self, eng, a):
        for x, k in lin(a)[1]:
            if k == 1 and eng.origin_calls(x) == {"vpi_arena_alloc_array"}:
                return x
        return None

    def call(self, eng, st, ins, name, args, res):
        if name == "vpi_arena_alloc_array":
            st.mon["w"] = (res, mk("a", 1), args[1])
            st.mon["base"] = res
            if eng.truth(st, EQ(Engine.mulc(args[2], 4), sub(mk("a", 2), mk("a", 1)))) is not True:
                eng.report(st, ins, "row-count", "the array of a column is not made for the number of rows given")
        elif name == "vpi_q_push":
            eng.count("columns_checked")
            w = st.mon["w"]
            c = self.column(eng, st, args[1])
            if w is None or c is None or is_column(eng, c):
                eng.report(st, ins, "rows-missing", "a column is put in the queue that got no rows")
                return
            b, e = self.cur(eng, st, c, "begin"), self.cur(eng, st, c, "end")
            if b is None or eng.truth(st, EQ(b, st.mon["base"])) is not True:
                eng.report(st, ins, "rows-missing", "a new column does not start at the first of its rows")
            if e is None or not (w[0] is not STALE and eng.truth(st, EQ(e, w[0])) is True or
                                 w[1] is not STALE and eng.truth(st, EQ(w[1], mk("a", 2))) is True):
                eng.report(st, ins, "rows-missing", "a new column does not end where the rows that were stored end")
            n = 4 // w[2].args[0] if is_int(w[2]) and w[2].args[0] in (1, 2, 4) else None
            if n is None or e is None or b is None or \
                    eng.truth(st, EQ(Engine.mulc(sub(e, b), n), sub(mk("a", 2), mk("a", 1)))) is not True:
                eng.report(st, ins, "row-count", "a new column does not have as many rows as were given")
            if n == 2:
                hi = bounds(eng, st, self.cur(eng, st, c, "col") or ZERO)[1]
                if hi is None or hi > 65536:
                    eng.report(st, ins, "row-width", "short row numbers are used in a column whose rows may not fit")

    def load(self, eng, st, ins, addr, val):
        w = st.mon["w"]
        if w is not None and w[1] is not STALE and ROWTY.get(ins["ty"]) == 4:
            raw = eng.operand(st, ins["ptr"])
            if eng.truth(st, EQ(raw, w[1])) is True:
                st.mon["ld"] = (val, raw)

    def store(self, eng, st, ins, addr, val):
        if self.array(eng, addr) is None:
            return
        eng.count("rows_stored_checked")
        w = st.mon["w"]
        raw = eng.operand(st, ins["ptr"])
        if w is None or w[0] is STALE or eng.truth(st, EQ(w[0], raw)) is not True:
            eng.report(st, ins, "row-misplaced", "a row is stored elsewhere than right after the one before it")
            return
        ld = st.mon["ld"]
        if ld is None or not (eng.truth(st, EQ(widen(val), ld[0])) is True and w[1] is not STALE and
                              eng.truth(st, EQ(ld[1], w[1])) is True):
            eng.report(st, ins, "wrong-row", "what is stored is not the next of the given rows")
            return
        sz = ROWTY.get(ins["vty"], 0)
        if num(sz) is not w[2]:
            eng.report(st, ins, "row-width", "a row is stored with another width than its slot has")
        st.mon["w"] = (addc(raw, sz), addc(ld[1], 4), w[2])
        st.mon["ld"] = None


def jobs(monitor, roots, throws=False, retire=(0, 1), custom=(0, 1), extra=()):
    out = []
    for r in retire:
        for c in custom:
            rs = [x for x in roots if x != "retire" or r]
            if not rs:
                continue
            out.append(dict(src="h_pair.cpp", defs=["RETIRE=%d" % r, "CUSTOM=%d" % c] + (["THROWS"] if throws else []) +
                            list(extra), eh=throws, roots=rs, monitor="props_pair:" + monitor,
                            model="props_pair:PModel",
                            label="PairQueue retirement=%d own-construction=%d" % (r, c),
                            cfg={"RETIRE": str(r), "CUSTOM": str(c)}))
    return out


def P01(ctx):
    ctx.rules.append("typestate of each column's pair data (none, constructed for a pair, destroyed)")
    run.run(ctx, jobs("Lifecycle", ["add", "pop", "retire", "destroy"]) +
            jobs("Lifecycle", ["add"], throws=True))
    ctx.need("configurations", 4)
    ctx.need("pair_data_calls_checked", 20)
    ctx.need("queue_entries_checked", 4)
    ctx.ob(ctx.counts["pair_data_calls_checked"] + ctx.counts["queue_entries_checked"] + ctx.counts["exits_checked"])


def P02(ctx):
    ctx.rules.append("on every exceptional exit of addColumnDescending the column count, the retirement record and the "
                     "queue are as at entry; on every normal exit exactly one column was added")
    run.run(ctx, jobs("AddAtomic", ["add"]) + jobs("AddAtomic", ["add"], throws=True))
    ctx.need("failures_checked", 4)
    ctx.need("failure_points_checked", 20)
    ctx.need("columns_pushed_checked", 8)
    ctx.ob(ctx.counts["failure_points_checked"] + ctx.counts["failures_checked"] + ctx.counts["exits_checked"] + ctx.counts["columns_pushed_checked"])


P03R = ("computes-retired", "retired-top", "retires-other", "not-retired")


def P03(ctx):
    ctx.rules.append("pair data is computed only for indices known not to be retired; at exit of pop and retireIndex "
                     "the queue is empty or its top known not to be retired")
    run.run(ctx, jobs("Retired", ["pop", "retire"], retire=(1,)), rules=P03R)
    ctx.need("computations_checked", 4)
    ctx.need("retirements_checked", 2)
    ctx.ob(ctx.counts["computations_checked"] + ctx.counts["retirements_checked"] + ctx.counts["exits_checked"])


def P05(ctx):
    ctx.rules.append("every step of a column's front and every column dropped is the removed top pair, retired or "
                     "exhausted; row numbers are read with the width they were stored with")
    run.run(ctx, jobs("Retired", ["pop", "retire"]),
            rules=("pair-lost", "column-lost", "row-step", "row-width", "top-kept", "column-changed"))
    ctx.need("pairs_dropped_checked", 8)
    ctx.need("row_reads_checked", 4)
    ctx.ob(ctx.counts["pairs_dropped_checked"] + ctx.counts["columns_dropped_checked"] + ctx.counts["row_reads_checked"])


def P04(ctx):
    ctx.rules.append("the arguments of the configuration's compare() are column index, current row and pair data of "
                     "the two columns compared, in order; topPair, topPairData, empty, retired and columnCount report "
                     "the recorded values")
    run.run(ctx, jobs("Triples", ["empty"], extra=("COMPARE",)) +
            jobs("Triples", ["toppair", "topdata", "empty", "columns", "retired"]))
    ctx.need("comparisons_checked", 4)
    ctx.ob(ctx.counts["pair_parts_checked"] + ctx.counts["exits_checked"])


def P06(ctx):
    ctx.rules.append("frontier typestate of the loop that fills a new column's row array: each store puts the next "
                     "given row at the next slot; at the end the column spans exactly the slots stored")
    run.run(ctx, jobs("CopyRows", ["add"]))
    ctx.need("columns_checked", 8)
    ctx.need("rows_stored_checked", 8)
    ctx.ob(ctx.counts["rows_stored_checked"] + ctx.counts["columns_checked"])
