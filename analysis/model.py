"""Meaning of the opaque functions of the harness (harness/*.h)."""
import re
from terms import *
from engine import uid, CONTENT

NORETURN = ("abort", "exit", "_ZSt9terminatev", "__cxa_throw", "__cxa_rethrow",
            "__assert_fail", "_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc",
            "_ZSt28__throw_bad_array_new_lengthv", "_ZSt16__throw_bad_castv",
            "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz")
ALLOC = ("_Znwm", "_Znam", "malloc", "calloc", "_ZnwmSt11align_val_t",
         "vpi_arena_alloc", "vpi_arena_alloc_array", "vpi_pool_alloc", "vpi_list_insert",
         "vpi_vec_emplace", "__cxa_allocate_exception")

# constructors and destructors of the standard exception classes
EXCEPTION = re.compile(r"_ZNSt\d+(logic_error|runtime_error|overflow_error|underflow_error|range_error|out_of_range|"
                       r"length_error|invalid_argument|domain_error|bad_alloc|exception)[CD]\dE")

# name -> (name of the relation, kinds of the arguments); kinds: E entry
# (decided by its content), M handle, I integer, - ignored
RELATIONS = {
    "vpra_divides_EM": ("divides", "EM-"), "vpra_divides_ME": ("divides", "ME-"),
    "vpra_divides_EE": ("divides", "EE-"),
    "vpra_less_EM": ("less", "EM-"), "vpra_less_ME": ("less", "ME-"),
    "vpra_less_EE": ("less", "EE-"),
    "vpra_exp_E": ("exp", "EI-"), "vpra_exp_M": ("exp", "MI-"),
}


class Model(object):
    trunc_identity = ()      # integer types whose values are known to fit
    stable = ()             # terms that name what memory held at first
    relations = RELATIONS
    config = ("usecache", "sortoninsert", "dorebuild")

    def is_alloc(self, ins):
        return ins["op"] in ("call", "invoke") and ins["callee"] in ALLOC

    def arg_is_private(self, fn, k):
        return True

    def same_range(self, fn, i, j):
        """the two pointer arguments delimit one range"""
        return "range" in fn.name and i in (1, 2) and j in (1, 2)

    def load(self, eng, st, ins, addr):
        return None

    def apart(self, eng, st, a, b):
        """the addresses a and b are known to differ"""
        return False

    def separate(self, eng, st, a, b):
        """the bases a and b are known to belong to different objects"""
        return False

    def noreturn(self, name):
        return name in NORETURN or name.startswith("_ZSt") and "__throw" in name

    def throws(self, eng, st, ins):
        if self.noreturn(ins["callee"]):
            return "always"
        if ins["callee"] in ("__cxa_end_catch", "__cxa_begin_catch"):
            return None
        return "maybe"

    def sticky(self, fact):
        """facts about the configuration are never merged"""
        return fact.tag == "f" and fact.args[0] in self.config

    def ver(self, eng, st, v):
        v = eng.norm(st, v)
        r = st.ver.get(v)
        if r is not None:
            return v, r
        for w in st.ver:
            if w is not CONTENT and eng.truth(st, EQ(v, w)) is True:
                return w, st.ver[w]
        return v, ZERO

    def mutate(self, eng, st, ins, v):
        """v is about to get a new version"""
        tok = mk("v", uid(ins) + "!")
        eng.retire(st, tok)
        v = eng.norm(st, v)
        for w in list(st.ver):
            if w is CONTENT or w is v:
                continue
            if eng.alias(st, v, None, w, None) != "no":
                st.ver[w] = tok if eng.truth(st, EQ(v, w)) is True else mk("ver", w, tok)
        st.ver[v] = tok
        return v, tok

    def vbegin(self, v, r):
        return fn("vec_begin", v, r)

    def vend(self, v, r):
        return fn("vec_end", v, r)

    def call(self, eng, st, ins, name, args):
        if name in self.relations:
            rel, kinds = self.relations[name]
            ts = []
            for a, k in zip(args, kinds):
                if k == "E":
                    ts.append(eng.content(st, a))
                elif k != "-":
                    ts.append(eng.norm(st, a))
            return fn(rel, *ts)
        if name.startswith("vpp_"):
            return fn(name[4:], *args)
        if name == "vpr_vec_begin":
            return self.vbegin(*self.ver(eng, st, args[0]))
        if name == "vpr_vec_end":
            return self.vend(*self.ver(eng, st, args[0]))
        if name.startswith("vpr_vec_") or name.startswith("vpr_list_") and name not in ("vpr_list_next", "vpr_list_prev"):
            v, r = self.ver(eng, st, args[0])
            return fn(name[4:], v, r, *args[1:])
        if name.startswith("vpr_") or name.startswith("vpra_"):
            return fn(name[4:], *args)
        if name.startswith("vpi_vec_") or name.startswith("vpi_list_"):
            op = name[4:]
            v, r = self.mutate(eng, st, ins, args[0])
            if op in ("vec_swap", "vec_move"):
                self.mutate_second(eng, st, ins, args[1])
            empty = EQ(self.vbegin(v, r), self.vend(v, r))
            if op in ("vec_clear", "vec_dtor") or op == "vec_init" and args[1] is ZERO:
                st.facts[empty] = True
            elif op in ("vec_pushp", "vec_emplace"):
                st.facts[empty] = False
            return None
        if name == "vpa_E_init" or name == "vpa_E_dtor":
            tok = mk("v", uid(ins))
            eng.retire(st, tok)
            eng.set_content(st, ins, args[0], tok)
            return None
        if name in ("vpa_E_copy", "vpa_E_assign"):
            eng.set_content(st, ins, args[0], eng.content(st, args[1]))
            return None
        if name in ("vpi_alg_partition", "vpi_alg_sort"):
            eng.mutate_content(st, ins)
            return None
        if name.startswith(("vpi_", "vpa_")) or self.is_alloc(ins) or self.noreturn(name):
            return None
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
            return None
        if name.startswith("llvm.") or name in ("__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception"):
            return None
        if EXCEPTION.match(name):
            return None
        eng.count("external:" + name)
        st.mem = {a: c for a, c in st.mem.items() if self._local(a)}
        return None

    @staticmethod
    def _local(a):
        return all(x.tag == "al" for x, k in lin(a)[1] if k == 1)

    def mutate_second(self, eng, st, ins, w):
        tok = mk("v", uid(ins) + "!2")
        eng.retire(st, tok)
        st.ver[eng.norm(st, w)] = tok
