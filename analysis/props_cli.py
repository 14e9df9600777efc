"""Command line parameters, names and the parser, over strings as opaque values."""
import run
from engine import *
from model import Model
from terms import *

EMPTY = mk("g", '""')


NOALIAS = ("-Xclang", "-mno-constructor-aliases")


def lit(s):
    return mk("g", '"%s"' % s)


class StrModel(Model):
    """Meaning of harness/shadow_str.h: a string is the term that made it."""
    relations = {}

    def call(self, eng, st, ins, name, args):
        a = [x if x is STALE or x is UNDEF else eng.norm(st, x) for x in args]
        if name == "vpp_str_lit":
            return a[0]
        if name == "vpp_str_cat":
            if a[0] is EMPTY or eng.truth(st, EQ(a[0], EMPTY)) is True:
                return a[1]
            if a[1] is EMPTY or eng.truth(st, EQ(a[1], EMPTY)) is True:
                return a[0]
            return fn("str_cat", *a)
        if name == "vpp_str_eq":
            return EQ(a[0], a[1])
        if name == "vpp_str_compare":
            r = fn("str_compare", *a)
            if eng.truth(st, EQ(a[0], a[1])) is False:
                st.facts[EQ0(r)] = False
            return r
        if name == "vpp_str_size" and a[0] is EMPTY:
            return ZERO
        if name == "vpi_vec_clear":
            Model.call(self, eng, st, ins, name, args)
            st.mon["cnt", a[0]] = 0
            return None
        if name.startswith("vpi_vec_"):
            n = st.mon.pop(("cnt", a[0]), None)
            r = Model.call(self, eng, st, ins, name, args)
            if name == "vpi_vec_emplace" and not self.member(a[0]):
                if n is not None:
                    st.mon["cnt", a[0]] = n + 1
                v, w = self.ver(eng, st, args[0])
                return addc(self.end(st, v, w), -8)
            return r
        if name == "vpr_vec_end":
            v, w = self.ver(eng, st, args[0])
            return self.end(st, v, w)
        if name == "vpp_str_sub":
            # the rest of a string
            if is_int(a[2]) and lin(a[2])[0] in (-1, (1 << 64) - 1):
                b = fn("str_begin", a[0])
                return fn("str_range", add(b, a[1]), add(b, fn("str_size", a[0])))
        return Model.call(self, eng, st, ins, name, args)

    @staticmethod
    def member(v):
        """part of the object the operation is called on"""
        return lin(v)[1] and lin(v)[1][0][0] is mk("a", 0)

    def end(self, st, v, r):
        n = st.mon.get(("cnt", v))
        if n is not None:
            return addc(self.vbegin(v, r), 8 * n)
        return self.vend(v, r)

    def load(self, eng, st, ins, addr):
        # the characters of a string never change
        if addr is STALE:
            return None
        c, d = lin(addr)
        if len(d) >= 1 and any(t.tag == "f" and t.args[0] == "str_begin" for t, k in d):
            return fn("str_char", addr)
        return None


class Param(Monitor):
    """A parameter keeps its value when an argument is rejected and has the
    value the argument stands for otherwise."""
    def __init__(self, root, fs, job, shared):
        self.root = root

    def bad(self, eng, st, ins, rule, msg):
        eng.report(st, ins, rule, msg)

    def equal(self, eng, st, a, b):
        return a is not STALE and b is not STALE and (a is b or eng.truth(st, EQ(a, b)) is True)

    def isbool(self, eng, st, a):
        if is_int(a):
            return bool(lin(a)[0])
        return eng.truth(st, a)

    def samebool(self, eng, st, a, b):
        a, b = eng.norm(st, a), eng.norm(st, b)
        x, y = self.isbool(eng, st, a), self.isbool(eng, st, b)
        return a is b or x is not None and x == y or eng.truth(st, XOR(a, b)) is False

    def merge_extra(self, eng, st):
        # what texts have been told apart
        return tuple(sorted(((f.uid, v) for f, v in st.facts.items()
                             if f.tag == "eq0" and any(t.tag == "g" for t, k in lin(f.args[0])[1]))))

    def call(self, eng, st, ins, name, args, res):
        if not name.startswith("vpi_"):
            return
        kind = name.split("_")[-1]
        op = name[4:-len(kind) - 1]
        eng.count("parameter_obligations")
        st.mon["done"] = 1
        if op == "same":
            ok = self.samebool(eng, st, *args) if kind == "bool" else self.equal(eng, st, *args)
            if not ok:
                self.bad(eng, st, ins, "value-changed", "a value that was set, passed to the constructor or not concerned "
                         "is not the one found afterwards")
        elif op == "rejected":
            b, a, arg = args
            ok = self.samebool(eng, st, b, a) if kind == "bool" else self.equal(eng, st, b, a)
            if not ok:
                self.bad(eng, st, ins, "rejected-but-changed", "an argument that is rejected changes the value of the parameter")
            if kind == "str":
                self.bad(eng, st, ins, "text-rejected", "an argument of a string parameter is rejected")
            elif kind == "bool":
                for w in ("on", "off", ""):
                    t = lit(w)
                    if eng.truth(st, EQ(arg, t)) is False or \
                            w == "" and eng.truth(st, EQ0(fn("str_size", eng.norm(st, arg)))) is False:
                        continue
                    self.bad(eng, st, ins, "valid-argument-rejected",
                             'the documented argument "%s" of a parameter is rejected' % w)
            else:
                for f, v in st.facts.items():
                    if v is True and f.tag == "eq0" and self.mentions(f, "str_of_uint") and self.mentions_term(f, arg):
                        self.bad(eng, st, ins, "valid-argument-rejected",
                                 "an argument that is the text of a number is rejected")
        elif op == "accepted":
            a, arg = args
            if kind == "str":
                ok = self.equal(eng, st, a, arg)
            elif kind == "int":
                ok = a is not STALE and self.equal(eng, st, fn("str_of_uint", eng.norm(st, a)), arg)
            else:
                v = self.isbool(eng, st, a)
                arg = eng.norm(st, arg)
                on = self.equal(eng, st, arg, lit("on"))
                off = self.equal(eng, st, arg, lit("off"))
                empty = self.equal(eng, st, arg, EMPTY) or eng.truth(st, EQ0(fn("str_size", arg))) is True
                ok = v is True and (on or empty) or v is False and off
                if v is None and a is not STALE:
                    # the value is that of a comparison
                    a = eng.norm(st, a)
                    ok = self.cases(eng, st, a, arg)
            if not ok:
                self.bad(eng, st, ins, "wrong-value", "the value of a parameter after it took an argument is not what the "
                         "argument stands for")
        elif op == "shown":
            s, v = args
            if kind == "str":
                ok = self.equal(eng, st, s, v)
            elif kind == "int":
                ok = v is not STALE and self.equal(eng, st, s, fn("str_of_uint", eng.norm(st, v)))
            else:
                w = self.isbool(eng, st, v)
                ok = w is not None and self.equal(eng, st, s, lit("on" if w else "off"))
            if not ok:
                self.bad(eng, st, ins, "wrong-text", "the text given for the value of a parameter is not one that stands for it")

    def cases(self, eng, st, a, arg):
        """a is a condition on arg: right in both cases?"""
        n = 0
        for val in (True, False):
            s = st.copy()
            if eng.assume(s, a, val) is False:
                continue
            n += 1
            on = self.equal(eng, s, arg, lit("on"))
            off = self.equal(eng, s, arg, lit("off"))
            empty = self.equal(eng, s, arg, EMPTY) or eng.truth(s, EQ0(fn("str_size", arg))) is True
            if not (val and (on or empty) or not val and off):
                return False
        return n > 0

    @staticmethod
    def mentions(f, name):
        return any(t.tag == "f" and t.args[0] == name for t, k in lin(f.args[0])[1])

    @staticmethod
    def mentions_term(f, x):
        return any(t is x for t, k in lin(f.args[0])[1])

    def ret(self, eng, st, ins, val):
        eng.count("exits_checked")
        if not st.mon.get("done"):
            self.bad(eng, st, ins, "no-value", "the operation ends without effect")


def C01(ctx):
    ctx.rules.append("on every path through processArgument that ends with an exception the value is the one from "
                     "before; on every path that returns, the value is the one whose text is the argument (on/off/"
                     "nothing for a switch, the number whose text it is, the text itself); valueAsString returns a text "
                     "that processArgument accepts as that value; setting, assigning, converting and constructing "
                     "carry the value over")
    run.run(ctx, [{"label": "parameters", "src": "h_param.cpp", "defs": (), "eh": True, "monitor": "props_cli:Param",
                   "extra": NOALIAS,
                   "model": "props_cli:StrModel"}])
    ctx.need("parameter_obligations", 20)
    ctx.need("exits_checked", 20)
    ctx.ob(ctx.counts["parameter_obligations"] + ctx.counts["exits_checked"])


class Names(Monitor):
    """What NameFactory finds under a name or a prefix.

    cp: the name of the registered pair at wp; cl: the name at wl in the list
    of candidates. A walk is judged element by element when it moves on."""
    def __init__(self, root, fs, job, shared):
        self.root = root

    def true(self, eng, st, f):
        return f.tag is not None and eng.truth(st, f) is True

    def prefixed(self, eng, st, c):
        p = st.mon["arg"]
        q = EQ(fn("str_sub", eng.norm(st, c), ZERO, fn("str_size", p)), p)
        r = eng.truth(st, q)
        if r is None and eng.truth(st, EQ(c, p)) is True:
            return True
        return r

    def exact(self, eng, st, c):
        return eng.truth(st, EQ(c, st.mon["arg"]))

    def judge(self, eng, st, ins, k):
        """the walk k leaves its current element"""
        m = st.mon
        c = m.get("c" + k)
        if c is None or c is STALE:
            return
        eng.count("elements_judged")
        x = self.exact(eng, st, c)
        if x is not False:
            m["neg" + k] = False
        if k == "p" and self.root in ("unique", "names") and not m.get("exact"):
            h = self.prefixed(eng, st, c)
            if m.get("pushed"):
                m.pop("pushed")
            elif h is not False:
                eng.report(st, ins, "name-skipped", "a registered name that may have the prefix is not taken up")
        if k == "p" and self.root in ("lookup", "create", "withprefix") and x is not False and not m.get("made"):
            eng.report(st, ins, "name-overlooked", "the search goes past a registered name that may be the one asked for")

    def kind(self, eng, st, addr):
        t = eng.norm(st, addr)
        if t.tag == "f" and t.args[0] == "vec_begin":
            return "p" if eng.model.member(t.args[1]) else "l"
        return None

    def load(self, eng, st, ins, addr, val):
        m = st.mon
        if "arg" not in m:
            return
        raw = eng.operand(st, ins["ptr"])
        if raw is STALE:
            return
        for k, step in (("p", 16), ("l", 8)):
            w = m.get("w" + k)
            if w is not None and w is not STALE:
                d = offset_between(raw, w)
                if d == 0:
                    return
                if k == "p" and d == 8:
                    m["second"] = val
                    return
                if d == step:
                    self.judge(eng, st, ins, k)
                    m["w" + k], m["c" + k] = raw, val
                    return
        k = self.kind(eng, st, raw)
        if k:
            m["w" + k], m["c" + k] = raw, val
            m["neg" + k] = True
            m.pop("pushed", None)
        v = self.local(eng, st, raw)
        if v is not None and m.get("all") and not m.get("exact") and self.count(eng, st, v) == 1:
            m["only"] = val

    def local(self, eng, st, addr):
        """the list of candidates addr points into"""
        t = eng.norm(st, addr)
        for x, k in lin(t)[1]:
            if x.tag == "f" and x.args[0] in ("vec_begin", "vec_end") and not eng.model.member(x.args[1]):
                return x.args[1]
        return None

    def count(self, eng, st, v):
        v, r = eng.model.ver(eng, st, v)
        b, e = eng.model.vbegin(v, r), eng.model.end(st, v, r)
        d = sub(e, b)
        if is_int(d):
            return lin(d)[0] // 8
        if eng.truth(st, EQ0(d)) is True:
            return 0
        n = fn("sdivx", d, num(8))
        if eng.truth(st, SLT(n, num(2), "ult")) is True or eng.truth(st, SLT(num(1), n, "ult")) is False or \
                eng.truth(st, EQ(n, num(1))) is True or eng.truth(st, EQ(d, num(8))) is True:
            return 1 if eng.truth(st, EQ0(d)) is False or eng.truth(st, EQ(n, num(1))) is True or \
                eng.truth(st, EQ(d, num(8))) is True else None
        if eng.truth(st, SLT(num(1), n, "ult")) is True or eng.truth(st, SLT(n, num(2), "ult")) is False:
            return 2
        if eng.truth(st, EQ0(d)) is False and (eng.truth(st, EQ(n, num(1))) is False or eng.truth(st, EQ(d, num(8))) is False):
            return 2
        return None

    def branch(self, eng, st, ins, cond, val):
        m = st.mon
        if "arg" not in m:
            return
        for k in "pl":
            c = m.get("c" + k)
            if c is not None and c is not STALE and self.exact(eng, st, c) is True:
                m["exact"] = True
        for k, step in (("p", 16), ("l", 8)):
            w = m.get("w" + k)
            for f, r in list(st.ver.items()):
                if f is CONTENT or bool(eng.model.member(f)) != (k == "p"):
                    continue
                b, e = eng.model.vbegin(f, r), eng.model.end(st, f, r)
                if w is not None and w is not STALE and self.past(eng, st, addc(w, step), b, e, step):
                    self.judge(eng, st, ins, k)
                    self.done(st, k, m.get("neg" + k))
                    for x in ("w", "c", "neg"):
                        m.pop(x + k, None)
                elif w is None and eng.truth(st, EQ(b, e)) is True:
                    self.done(st, k, True)

    def past(self, eng, st, w, b, e, step):
        """w is the end"""
        if eng.truth(st, EQ(w, e)) is True:
            return True
        c, d = lin(sub(eng.norm(st, w), b))
        if c % step or any(k % step for x, k in d):
            return False
        i = num(c // step)
        for x, k in d:
            i = add(i, scale(x, k // step))
        n = sub(e, b)
        n = num(lin(n)[0] // step) if is_int(n) else fn("sdivx", n, num(step))
        return eng.truth(st, SLT(i, n, "ult")) is False or eng.truth(st, EQ(i, n)) is True

    def done(self, st, k, neg):
        if k == "p":
            st.mon["all"] = True
        if neg and st.mon.get("all"):
            st.mon["none"] = True

    def merge_extra(self, eng, st):
        out = []
        for k in "pl":
            c = st.mon.get("c" + k)
            if c is not None and c is not STALE:
                out.append((k, self.exact(eng, st, c), self.prefixed(eng, st, c)))
        return tuple(out)

    def call(self, eng, st, ins, name, args, res):
        m = st.mon
        if name == "vpi_arg":
            m["arg"] = args[0]
            # make the versions known
            eng.model.ver(eng, st, mk("a", 0))
            if mk("a", 0) not in st.ver:
                st.ver[mk("a", 0)] = ZERO
        elif name == "vpi_resolve":
            eng.count("searches_checked")
            if args[0] is not mk("a", 0) or args[1] is not m["arg"]:
                eng.report(st, ins, "wrong-prefix", "not the given prefix is looked up")
            m["arg"] = res
            m["resolved"] = True
        elif name == "" and self.root in ("lookup", "create", "withprefix"):
            p = eng.operand(st, ins["fptr"])
            c = m.get("cp")
            if c is None or c is STALE or self.exact(eng, st, c) is not True or m.get("second") is not p:
                eng.report(st, ins, "wrong-function", "the function called is not the one registered with the name asked for")
            if m.get("made"):
                eng.report(st, ins, "made-twice", "more than one product is made")
            m["made"] = True
        elif name == "vpi_alg_sort":
            v = self.local(eng, st, args[0])
            if v is not None:
                v, r = eng.model.ver(eng, st, v)
                less = args[4]
                if eng.norm(st, args[0]) is eng.model.vbegin(v, r) and eng.norm(st, args[1]) is eng.model.end(st, v, r) and \
                        less.tag == "f" and less.args[0] == "str_less" and self.witness(eng, st, less, args[2], args[3]):
                    m["sorted"] = True
        elif name == "vpi_found":
            eng.count("searches_checked")
            if self.root == "withprefix" and not m.get("resolved"):
                eng.report(st, ins, "wrong-prefix", "the given text is not taken as a prefix")
            if m.get("made"):
                if args[0] is ZERO:
                    eng.report(st, ins, "product-lost", "the product that was made is not handed out")
            elif args[0] is not ZERO or not m.get("none"):
                eng.report(st, ins, "not-found", "nothing is made although not every registered name was found to differ")
        elif name == "vpi_answer":
            eng.count("searches_checked")
            a = args[0]
            if not (m.get("exact") and eng.same(st, a, m["arg"]) or m.get("only") is a):
                eng.report(st, ins, "wrong-name", "the name found is neither the given text as a registered name nor the "
                           "only registered name that starts with it")

    def witness(self, eng, st, less, x, y):
        def at(p):
            for a, v in st.mem.items():
                if a is eng.norm(st, p):
                    return v[0]
        return less.args[1] is at(x) and less.args[2] is at(y)

    def before(self, eng, st, ins, name, args):
        m = st.mon
        if name == "__cxa_throw" and ins["op"] == "call":
            self.thrown(eng, st, ins)
        if name.startswith("vpi_vec_") and "arg" in m:
            m.pop("sorted", None)
            if name == "vpi_vec_emplace":
                m["slot"] = True
            if name in ("vpi_vec_pop", "vpi_vec_erase", "vpi_vec_erase_range", "vpi_vec_swap", "vpi_vec_move",
                        "vpi_vec_copy", "vpi_vec_assign") or name == "vpi_vec_clear" and not m.get("exact"):
                m["muddled"] = True
                m.pop("all", None)

    def thrown(self, eng, st, ins):
        m = st.mon
        if ins["callee"] != "__cxa_throw":
            return
        what = eng.operand(st, ins["args"][1])
        what = what.args[0] if what.tag == "g" else "?"
        eng.count("searches_checked")
        if "UnknownName" in what and self.root in ("unique", "create"):
            if self.root == "create":
                ok = m.get("made") or m.get("none")
            else:
                vs = [v for v in st.ver if v is not CONTENT and not eng.model.member(v)]
                ok = m.get("all") and len(vs) == 1 and self.count(eng, st, vs[0]) == 0
            if not ok:
                eng.report(st, ins, "wrongly-unknown", "a name is said to be unknown although a registered one may fit")
        elif "AmbiguousName" in what and self.root == "unique":
            vs = [v for v in st.ver if v is not CONTENT and not eng.model.member(v)]
            ok = m.get("all") and m.get("none") and not m.get("exact") and len(vs) == 1 and \
                self.count(eng, st, vs[0]) == 2
            if not ok:
                eng.report(st, ins, "wrongly-ambiguous", "a prefix is said to be ambiguous although it may be a registered "
                           "name or fit just one")
        else:
            eng.report(st, ins, "other-error", "an error other than the documented one is raised")

    def store(self, eng, st, ins, addr, val):
        m = st.mon
        if "arg" not in m or not m.get("slot"):
            return
        if self.root == "register":
            if val is m["arg"] or eng.same(st, val, m["arg"]):
                m["name"] = eng.operand(st, ins["ptr"])
            elif val is mk("a", 2):
                m["func"] = eng.operand(st, ins["ptr"])
            return
        if self.local(eng, st, addr) is None:
            return
        m.pop("slot")
        c = m.get("cp")
        if m.get("exact") and eng.same(st, val, m["arg"]) and not c:
            return
        if c is not None and c is not STALE and (val is c or eng.same(st, val, c)) and self.prefixed(eng, st, c) is True:
            if m.get("pushed"):
                eng.report(st, ins, "name-twice", "a registered name is taken up twice")
            m["pushed"] = True
        elif not (m.get("exact") and eng.same(st, val, m["arg"])):
            eng.report(st, ins, "wrong-name", "a text is taken up that is not a registered name with the prefix")

    def ret(self, eng, st, ins, val):
        m = st.mon
        if self.root == "names":
            eng.count("searches_checked")
            if not m.get("all") or not m.get("sorted"):
                eng.report(st, ins, "names-incomplete", "the list of names is not complete or not in order")
        if self.root == "register":
            eng.count("searches_checked")
            a, b = m.get("name"), m.get("func")
            if a is None or b is None or offset_between(b, a) is None:
                eng.report(st, ins, "not-registered", "a name is not registered with its function")


def C02(ctx):
    ctx.rules.append("every registered name is compared, in order, until the one asked for is found, and the function "
                     "registered with it is the one called; the candidates for a prefix are exactly the registered "
                     "names that start with it, sorted; the answer is the prefix itself when it is a registered name, "
                     "else the only candidate; no candidate: UnknownNameException, several: AmbiguousNameException")
    base = {"src": "h_name.cpp", "eh": True, "monitor": "props_cli:Names", "model": "props_cli:StrModel",
            "extra": NOALIAS}
    run.run(ctx, [dict(base, label="names", defs=("X",)), dict(base, label="names-opaque", defs=("OPAQUE",))])
    ctx.need("elements_judged", 5)
    ctx.need("searches_checked", 10)
    ctx.ob(ctx.counts["elements_judged"] + ctx.counts["searches_checked"])


class ParserModel(StrModel):
    def call(self, eng, st, ins, name, args):
        if name == "vpi_params":
            v, r = self.mutate(eng, st, ins, args[1])
            st.mon.pop(("cnt", v), None)
            return None
        return StrModel.call(self, eng, st, ins, name, args)

    @staticmethod
    def member(v):
        return v is not STALE and lin(v)[1] and lin(v)[1][0][0] is mk("a", 0)


class Parser(Monitor):
    """Which action a command line makes, and who gets its tokens.

    wt, ct: the token the walk over the command line is at; wp, cp: the
    parameter the walk over the parameters is at; next: the option to come."""
    past = Names.past
    LINE = mk("a", 1)

    def __init__(self, root, fs, job, shared):
        self.root = root

    def bad(self, eng, st, ins, rule, msg):
        eng.report(st, ins, rule, msg)

    def vec(self, eng, st, raw):
        t = eng.norm(st, raw)
        if t is STALE:
            return None
        for x, k in lin(t)[1]:
            if x.tag == "f" and x.args[0] in ("vec_begin", "vec_end"):
                return x.args[1]
        return None

    def cls(self, st, v):
        return "T" if v is self.LINE else st.mon.get(("cls", v))

    def dashed(self, eng, st, v):
        if v is None or v is STALE:
            return None
        return eng.truth(st, EQ(fn("str_char", fn("str_begin", eng.norm(st, v))), num(45)))

    def empty(self, eng, st, v):
        v = eng.norm(st, v)
        r = eng.truth(st, EQ(v, EMPTY))
        if r is None:
            r = eng.truth(st, EQ0(fn("str_size", v)))
        return r

    def range_of(self, eng, st, v):
        v, r = eng.model.ver(eng, st, v)
        return eng.model.vbegin(v, r), eng.model.end(st, v, r)

    # ---- walks
    def leave_token(self, eng, st, ins):
        """the walk over the command line moves on"""
        m = st.mon
        c = m.get("ct")
        n = m.pop("pushed", 0)
        eng.count("tokens_judged")
        if c is None or c is STALE:
            self.bad(eng, st, ins, "token-skipped", "a token of the command line is not looked at")
        elif not n and self.empty(eng, st, c) is not True:
            self.bad(eng, st, ins, "token-dropped", "a token that may not be empty is neither an option nor a direct option")

    def leave_param(self, eng, st, ins):
        m = st.mon
        c = m.get("cp")
        eng.count("parameters_judged")
        if "asked" not in m:
            if not m.pop("reg", None):
                self.bad(eng, st, ins, "parameter-unknown", "the name of a parameter of the action is not registered")
        elif "found" not in m:
            if c is None or c is STALE or eng.truth(st, EQ(fn("param_name", eng.norm(st, c)), m["asked"])) is not False:
                m["missed"] = True

    def load(self, eng, st, ins, addr, val):
        m = st.mon
        raw = eng.operand(st, ins["ptr"])
        if raw is STALE:
            return
        for k, leave in (("t", self.leave_token), ("p", self.leave_param)):
            w = m.get("w" + k)
            if w is not None and w is not STALE:
                d = offset_between(raw, w)
                if d is None:
                    d = offset_between(eng.norm(st, raw), eng.norm(st, w))
                if d == 0:
                    m["w" + k] = raw
                    c = m["c" + k]
                    if k == "t" and val is not c and c is not STALE:
                        # read once more: what was found out still holds
                        for x, y in ((EQ(c, EMPTY), EQ(val, EMPTY)),
                                     (EQ(fn("str_char", fn("str_begin", c)), num(45)),
                                      EQ(fn("str_char", fn("str_begin", val)), num(45)))):
                            r = eng.truth(st, x)
                            if r is not None:
                                st.facts[y] = r
                        m["c" + k] = val
                    return
                if d == 8:
                    leave(eng, st, ins)
                    m["w" + k], m["c" + k] = raw, val
                    return
        v = self.vec(eng, st, raw)
        if v is None:
            return
        k = self.cls(st, v)
        if k == "T":
            b, e = self.range_of(eng, st, v)
            if offset_between(eng.norm(st, raw), b) == 0:
                m["zero"] = val
            w = m.get("wt")
            if w is None:
                if offset_between(eng.norm(st, raw), b) == 8:
                    m["wt"], m["ct"] = raw, val
            elif w is not STALE:
                if offset_between(eng.norm(st, raw), b) != 0:
                    self.bad(eng, st, ins, "token-skipped", "the tokens are not looked at one after the other")
        elif k == "P":
            b, e = self.range_of(eng, st, v)
            if offset_between(eng.norm(st, raw), b) == 0:
                m["wp"], m["cp"], m["pvec"] = raw, val, v
        elif "lineend" in m and (k is None or k == "O"):
            b, e = self.range_of(eng, st, v)
            if k is None:
                m["cls", v] = "O"
            if "next" not in m:
                if offset_between(eng.norm(st, raw), b) != 0:
                    self.bad(eng, st, ins, "option-skipped", "the first option is not processed first")
                m["next"], m["ovec"] = raw, v
            n = m["next"]
            if n is STALE:
                return
            d = offset_between(raw, n)
            if d is not None and d in (0, 8):
                m["v%d" % d] = val

    def branch(self, eng, st, ins, cond, val):
        self.ends(eng, st, ins)

    def ends(self, eng, st, ins):
        m = st.mon
        if self.root != "parse":
            return
        b, e = self.range_of(eng, st, self.LINE)
        w = m.get("wt")
        if "lineend" not in m:
            if w is None:
                if self.past(eng, st, addc(b, 8), b, e, 8):
                    m["lineend"] = True
            elif w is not STALE and self.past(eng, st, addc(w, 8), b, e, 8):
                self.leave_token(eng, st, ins)
                m["lineend"] = True
                m.pop("wt"), m.pop("ct", None)
        for k in list(m):
            if isinstance(k, tuple) and k[0] == "cls" and m[k] == "P":
                b, e = self.range_of(eng, st, k[1])
                w = m.get("wp")
                if w is None or w is STALE or m["pvec"] is not k[1]:
                    if eng.truth(st, EQ(b, e)) is True or self.past(eng, st, b, b, e, 8):
                        m["regall"] = True
                        if "asked" in m and "missed" not in m:
                            m["allmissed"] = True
                elif self.past(eng, st, addc(w, 8), b, e, 8):
                    self.leave_param(eng, st, ins)
                    m.pop("wp"), m.pop("cp", None)
                    if "asked" not in m:
                        m["regall"] = True
                    elif "missed" not in m:
                        m["allmissed"] = True

    def merge_extra(self, eng, st):
        m = st.mon
        out = []
        for k in ("ct", "v0", "v8"):
            c = m.get(k)
            if c is not None and c is not STALE:
                out.append((k, self.empty(eng, st, c), self.dashed(eng, st, c)))
        if "next" in m and m["next"] is not STALE:
            b, e = self.range_of(eng, st, m["ovec"])
            out.append((self.past(eng, st, m["next"], b, e, 8), self.past(eng, st, addc(m["next"], 8), b, e, 8)))
        c = m.get("cp")
        if c is not None and c is not STALE and "asked" in m:
            out.append(eng.truth(st, EQ(fn("param_name", eng.norm(st, c)), m["asked"])))
        return tuple(out)

    # ---- events
    def call(self, eng, st, ins, name, args, res):
        m = st.mon
        if name == "vpi_create":
            eng.count("parser_obligations")
            if lin(args[0])[1][:1] and lin(args[0])[1][0][0] is not mk("a", 0):
                self.bad(eng, st, ins, "wrong-names", "the action is not looked up among the registered actions")
            if self.root == "create":
                if args[1] is not self.string(eng, st):
                    self.bad(eng, st, ins, "wrong-action", "the action made is not the one with the given prefix")
            elif m.get("zero") is not args[1] or args[1] is None:
                self.bad(eng, st, ins, "wrong-action", "the action made is not the one the first token names")
            if "action" in m:
                self.bad(eng, st, ins, "two-actions", "more than one action is made")
            m["action"] = res
        elif name == "vpi_params":
            eng.count("parser_obligations")
            if args[0] is not m.get("action"):
                self.bad(eng, st, ins, "wrong-action", "the parameters are not those of the action that was made")
            m["cls", eng.norm(st, args[1])] = "P"
        elif name in ("vpi_vec_copy", "vpi_vec_assign", "vpi_vec_move"):
            a, b = eng.norm(st, args[0]), eng.norm(st, args[1])
            k = self.cls(st, b)
            if k and k != "T":
                m["cls", a] = k
                if k == "D":
                    m["copied"] = True
            if name == "vpi_vec_move":
                m.pop(("cls", b), None)
        elif name == "vpi_vec_swap":
            a, b = eng.norm(st, args[0]), eng.norm(st, args[1])
            x, y = m.pop(("cls", a), None), m.pop(("cls", b), None)
            if y:
                m["cls", a] = y
            if x:
                m["cls", b] = x
        elif name == "vpi_vec_dtor":
            m.pop(("cls", eng.norm(st, args[0])), None)
        elif name == "vpi_vec_emplace":
            v = eng.norm(st, args[0])
            m["slot"] = v
        elif name in ("vpi_vec_clear", "vpi_vec_pop", "vpi_vec_erase", "vpi_vec_erase_range", "vpi_vec_insert",
                      "vpi_vec_resize"):
            if self.cls(st, eng.norm(st, args[0])) in ("D", "O", "T", "P"):
                self.bad(eng, st, ins, "tokens-changed", "a list of tokens or parameters is changed after it was filled")
        elif name == "vpi_register":
            m["factory"] = args[0]
            c = m.get("cp")
            if c is not None and c is not STALE and args[1] is fn("param_name", eng.norm(st, c)):
                m["reg"] = True
            else:
                self.bad(eng, st, ins, "wrong-name", "a name is registered that is not the one of the parameter at hand")
        elif name == "vpi_direct":
            eng.count("parser_obligations")
            v = eng.norm(st, args[1])
            k = self.cls(st, v)
            if args[0] is not m.get("action") or lin(args[2])[1][0][0] is not mk("a", 0):
                self.bad(eng, st, ins, "wrong-action", "the direct options do not go to the action that was made")
            if "direct" in m or m.get("opts") or k in ("O", "P", "T") or k is None and "D" in m:
                self.bad(eng, st, ins, "wrong-direct-options", "what the action gets as direct options is not, once, the "
                         "tokens before the first option")
            if "lineend" not in m:
                self.bad(eng, st, ins, "wrong-direct-options", "the direct options are given to the action before all "
                         "tokens have been looked at")
            m["direct"] = True
        elif name == "vpi_resolve":
            eng.count("parser_obligations")
            if "regall" not in m:
                self.bad(eng, st, ins, "parameter-unknown", "options are looked up before all parameters are known")
            t = m.get("v0")
            ok = t is not None and t is not STALE and "next" in m
            if ok:
                b = fn("str_begin", eng.norm(st, t))
                ok = args[1] is fn("str_range", addc(b, 1), add(b, fn("str_size", eng.norm(st, t))))
            if not ok or "asked" in m:
                self.bad(eng, st, ins, "wrong-option", "what is looked up is not the next option without its dash")
            elif self.dashed(eng, st, t) is not True:
                self.bad(eng, st, ins, "not-an-option", "a token that may not start with a dash is taken as an option")
            m["asked"] = res
            for k in ("wp", "cp", "missed", "allmissed"):
                m.pop(k, None)
        elif name == "vpi_process":
            eng.count("parser_obligations")
            m["opts"] = True
            p, a = args
            if "asked" not in m or eng.truth(st, EQ(fn("param_name", eng.norm(st, p)), m["asked"])) is not True or \
                    m.get("cp") is not p:
                self.bad(eng, st, ins, "wrong-parameter", "the argument does not go to the parameter that the option names")
                return
            n = m.get("next", STALE)
            if n is STALE:
                self.bad(eng, st, ins, "wrong-argument", "which option this is cannot be told")
                return
            b, e = self.range_of(eng, st, m["ovec"])
            last = self.past(eng, st, addc(n, 8), b, e, 8)
            d = self.dashed(eng, st, m.get("v8"))
            if a is EMPTY or eng.truth(st, EQ(a, EMPTY)) is True:
                if not last and d is not True:
                    self.bad(eng, st, ins, "argument-dropped", "an option gets no argument although the token after it may be one")
                step = 8
            elif m.get("v8") is not None and (a is m["v8"] or eng.same(st, a, m["v8"])):
                if d is not False or last:
                    self.bad(eng, st, ins, "wrong-argument", "an option gets as its argument what may be the next option")
                step = 16
            else:
                self.bad(eng, st, ins, "wrong-argument", "what an option gets as its argument is not the token after it")
                step = 8
            m["next"] = addc(n, step)
            for k in ("v0", "v8", "asked", "wp", "cp", "missed", "allmissed"):
                m.pop(k, None)
        elif name == "vpi_parsed":
            eng.count("parser_obligations")
            if args[0] is not m.get("action"):
                self.bad(eng, st, ins, "wrong-action", "what is handed out is not the action that was made")
            m["out"] = True

    def string(self, eng, st):
        v = st.mem.get(mk("a", 1))
        return v[0] if v else None

    def before(self, eng, st, ins, name, args):
        if name == "__cxa_throw" and ins["op"] == "call":
            self.thrown(eng, st, ins)
        if name in ("vpi_vec_dtor", "vpi_vec_clear", "vpi_vec_move", "vpi_vec_swap") and \
                (st.mon.get("ovec") is eng.norm(st, args[0]) or self.cls(st, eng.norm(st, args[0])) == "O"):
            self.finished(eng, st)

    def finished(self, eng, st):
        """all options are processed, as long as the list of them exists"""
        m = st.mon
        if "ovec" in m and ("gone" not in m):
            b, e = self.range_of(eng, st, m["ovec"])
            if m["next"] is STALE or not self.past(eng, st, m["next"], b, e, 8):
                m["short"] = True
            m["gone"] = True
        for k, x in m.items():
            if "ovec" not in m and "gone" not in m and isinstance(k, tuple) and k[0] == "cls" and x == "O":
                b, e = self.range_of(eng, st, k[1])
                if eng.truth(st, EQ(b, e)) is not True:
                    m["short"] = True
                m["gone"] = True
                break

    def thrown(self, eng, st, ins):
        m = st.mon
        if ins["callee"] != "__cxa_throw":
            return
        self.ends(eng, st, ins)
        what = eng.operand(st, ins["args"][1])
        what = what.args[0] if what.tag == "g" else "?"
        eng.count("parser_obligations")
        m["throwing"] = True
        if "UnknownName" in what:
            b, e = self.range_of(eng, st, self.LINE)
            if eng.truth(st, EQ(b, e)) is not True or "action" in m:
                self.bad(eng, st, ins, "wrongly-empty", "a command line that may have an action is rejected as having none")
        elif "InternalMathic" in what:
            if "allmissed" not in m:
                self.bad(eng, st, ins, "wrongly-missing", "an option is said not to exist although a parameter may have its name")
        elif "MathicException" in what:
            if "direct" not in m or "next" not in m or self.dashed(eng, st, m.get("v0")) is not False:
                self.bad(eng, st, ins, "wrongly-rejected", "an option is rejected although it may start with a dash")
        else:
            self.bad(eng, st, ins, "other-error", "an error other than the documented ones is raised")

    def store(self, eng, st, ins, addr, val):
        m = st.mon
        v = m.pop("slot", None)
        if v is None:
            return
        c = m.get("ct")
        if c is None or c is STALE or not (val is c or eng.same(st, val, c)):
            self.bad(eng, st, ins, "wrong-token", "what is kept is not the token at hand")
            return
        if self.empty(eng, st, c) is not False:
            self.bad(eng, st, ins, "empty-token", "an empty token is kept")
        if m.get("pushed"):
            self.bad(eng, st, ins, "token-twice", "a token is kept twice")
        m["pushed"] = 1
        d = self.dashed(eng, st, c)
        if d is True:
            m["dash"] = True
        elif d is None and not m.get("dash"):
            self.bad(eng, st, ins, "wrong-list", "a token is kept without looking at whether it is an option")
        want = "O" if m.get("dash") else "D"
        have = self.cls(st, v)
        if have not in (None, want) or have is None and want in [x for k, x in m.items() if isinstance(k, tuple)]:
            self.bad(eng, st, ins, "wrong-list", "a token is kept as a direct option although it is, or comes after, an "
                     "option, or the other way round")
        m["cls", v] = want
        if want == "D":
            m["D"] = True

    def ret(self, eng, st, ins, val):
        m = st.mon
        self.ends(eng, st, ins)
        eng.count("exits_checked")
        if "out" not in m:
            self.bad(eng, st, ins, "no-action", "no action is handed out")
        if self.root != "parse":
            return
        if "lineend" not in m or "direct" not in m:
            self.bad(eng, st, ins, "wrong-direct-options", "the action never gets the direct options")
        self.finished(eng, st)
        if m.get("short"):
            self.bad(eng, st, ins, "option-dropped", "there may be options that are never processed")


def C03(ctx):
    ctx.rules.append("the action made is the one createWithPrefix finds for the first token; every later token that is "
                     "not empty is kept once, before the first one with a dash as a direct option and from then on as "
                     "an option; the action gets the direct options once, before any option is processed; every option "
                     "is looked up without its dash among the names of all parameters of the action, and the parameter "
                     "with the name found gets the token after it unless that starts with a dash or there is none")
    run.run(ctx, [{"label": "parser", "src": "h_parser.cpp", "defs": (), "eh": True, "monitor": "props_cli:Parser",
                   "model": "props_cli:ParserModel", "extra": NOALIAS}])
    ctx.need("tokens_judged", 1)
    ctx.need("parameters_judged", 1)
    ctx.need("parser_obligations", 8)
    ctx.ob(ctx.counts["tokens_judged"] + ctx.counts["parameters_judged"] + ctx.counts["parser_obligations"])
