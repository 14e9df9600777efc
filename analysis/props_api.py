"""Properties decided on the whole API: what compiles, what is defined, who calls what."""
import itertools
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import build
import ir
from engine import AnalysisBroken

HARNESS = os.path.join(build.ROOT, "harness", "t_api.cpp")


def library_sources():
    d = os.path.join(build.REPO, "src", "mathic")
    out = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp") and f != "main.cpp"]
    e = os.path.join(build.REPO, "src", "mathic.cpp")
    if os.path.exists(e):
        out.append(e)
    if len(out) < 5:
        raise AnalysisBroken("the library sources were not found")
    return out


def matrix(tier):
    out = []
    for s1, s5, s6 in itertools.product("01", repeat=3):
        out.append(dict(PART="1", S1=s1, S5=s5, S6=s6))
    for s3, s4, s6, leaf in itertools.product("01", "01", "01", ("1", "4")):
        for s1, s2 in (("0", "0"), ("1", "0"), ("1", "1")):
            if tier != "thorough" and s6 == "1" and leaf == "4":
                continue
            out.append(dict(PART="2", S1=s1, S2=s2, S3=s3, S4=s4, S6=s6, LEAF=leaf))
    for x in ("long", "short", "unsigned"):
        out.append(dict(PART="1", S1="1", EXPO=x))
        out.append(dict(PART="2", S1="1", S2="1", S4="1", EXPO=x))
        out.append(dict(PART="2", S1="1", S2="1", S3="1", S4="1", EXPO=x))
    for s1, s2 in itertools.product("01", repeat=2):
        out.append(dict(PART="3", S1=s1, S2=s2))
        out.append(dict(PART="7", S1=s1, S2=s2))
    out.append(dict(PART="4"))
    for s in itertools.product("01", "01", "01", "01", "01", "012"):
        if tier != "thorough" and sum(int(c) for c in s[1:]) % 2 == 1 and s[0] == "1":
            continue
        out.append(dict(PART="5", **{"S%d" % (i + 1): c for i, c in enumerate(s)}))
    for p in "689":
        out.append(dict(PART=p))
    return out


NAMES = {"1": "DivList", "2": "KDTree", "3": "Heap", "4": "TourTree", "5": "Geobucket", "6": "StlSet",
         "7": "PairQueue", "8": "HashTable", "9": "command line, text output and small structures"}


def gcc(defs):
    cmd = ["g++", "-fsyntax-only", "-w", "-fno-diagnostics-color", "-fno-diagnostics-show-caret"] + build.flags() + \
        ["-D%s=%s" % x for x in sorted(defs.items())] + [HARNESS]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode, r.stderr.decode(errors="replace")


def first_error(text):
    """the construct in the repository that the first error is about"""
    head, cur = [], None
    lines = text.split("\n")
    for i, l in enumerate(lines):
        m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            cand = [(m.group(1), m.group(2))]
            # "required from here" chains come before the error they explain
            for j in range(i - 1, max(-1, i - 25), -1):
                n = re.match(r'(\S+?):(\d+):\d+:\s+required (?:from|by)', lines[j])
                if n:
                    cand.append((n.group(1), n.group(2)))
            for f, n in cand:
                if f.startswith(build.REPO + "/src"):
                    return "%s:%s" % (ir.short(f), n), m.group(3)
            return "%s:%s" % (ir.short(m.group(1)) if "/src/" in m.group(1) else os.path.basename(m.group(1)), m.group(2)), m.group(3)
    return "?", (text.strip().split("\n") or [""])[-1]


def pool():
    return ThreadPoolExecutor(max_workers=max(2, min(8, os.cpu_count() or 2)))


def program(parts=True, lib=True):
    p = ir.Program()
    jobs = []
    with pool() as ex:
        if lib:
            for s in library_sources():
                jobs.append(ex.submit(ir.compile_ll, s))
        if parts:
            for d in (dict(PART="1"), dict(PART="1", S1="1", S5="1"),
                      dict(PART="2", S4="1", S1="1", S2="1", LEAF="4"), dict(PART="2", S4="1"),
                      dict(PART="2", S4="1", S1="1", S2="1", S3="1", LEAF="4"), dict(PART="2", S4="1", S3="1"),
                      dict(PART="3"), dict(PART="3", S1="1", S2="1"), dict(PART="4"),
                      dict(PART="5"), dict(PART="5", S1="1", S2="1", S3="1", S4="1", S5="1", S6="1"),
                      dict(PART="5", S4="1", S3="1", S6="2"), dict(PART="5", S6="2"),
                      dict(PART="6"), dict(PART="7"), dict(PART="7", S1="1"), dict(PART="8"), dict(PART="9")):
                jobs.append(ex.submit(ir.compile_ll, HARNESS, ["%s=%s" % x for x in sorted(d.items())]))
    for j in jobs:
        yield j.result()


def whole(parts=True):
    p = ir.Program()
    for t in program(parts):
        p.load(t)
    p.demangle()
    return p


# ------------------------------------------------------------------ A03
def A03(ctx):
    ctx.rules = ["every public operation of every container, called with a configuration that has exactly the documented "
                 "members, is accepted by the compiler in every combination of the documented switches",
                 "every function of the mathic namespace that such a call needs has a definition in the library or a header"]
    todo = matrix(ctx.tier)
    with pool() as ex:
        res = list(ex.map(gcc, todo))
    for d, (rc, text) in zip(todo, res):
        ctx.count("variants_compiled")
        ctx.ob()
        conf = NAMES[d["PART"]] + " " + " ".join("%s=%s" % x for x in sorted(d.items()) if x[0] != "PART")
        if rc:
            w, msg = first_error(text)
            ctx.report("does-not-compile", w, "an operation of %s is rejected by the compiler: %s" % (NAMES[d["PART"]], msg),
                       config=conf)
    ctx.need("variants_compiled", 80)
    if ctx.violations:
        return
    p = whole()
    have = set(n.split("$")[0] for n in p.fns)
    for n, f in sorted(p.fns.items()):
        for c, loc, s in f.calls + f.refs:
            if not c.startswith("_Z") or c.split("$")[0] in have:
                continue
            d = p.dem[c]
            if re.match(r'(?:[\w:<>*&, ]+ )?mathic::', d.split("(")[0]) and not d.startswith(("typeinfo", "vtable", "guard")):
                if "ConstructPairDataFunction<Conf>" in d or "DestructPairDataFunction<Conf>" in d:
                    continue
                ctx.count("definitions_needed")
                ctx.ob()
                if c in p.declared:
                    ctx.report("not-defined", loc or f.loc or "?", "%s is declared and used but defined nowhere" % d, function=p.dem[n])
    for n in have:
        if "6mathic" in n:
            ctx.count("definitions_found")
            ctx.ob()
    ctx.need("definitions_found", 200)


# ------------------------------------------------------------------ A02
def A02(ctx):
    ctx.rules = ["a program that changes an entry, a key, the configuration or the structure through a const reference to a "
                 "container, or copies a container that does not support it, is rejected by the compiler; the same program "
                 "without that use is accepted"]
    base = {"1": {"S4": "1"}, "2": {"S4": "1"}, "3": {}, "4": {}, "5": {}, "6": {}, "7": {"S1": "1"}, "8": {}}
    todo = []
    for part, extra in sorted(base.items()):
        todo.append((part, 0, dict(extra, PART=part, CONSTCHECK="1")))
        if part == "2":
            todo.append((part, 0, dict(extra, PART=part, CONSTCHECK="1", S3="1")))
        if part == "1":
            todo.append((part, 0, dict(extra, PART=part, CONSTCHECK="1", S5="1")))
        for b in range(1, 14):
            todo.append((part, b, dict(extra, PART=part, BAD=str(b))))
        if part == "2":
            for b in range(1, 12):
                todo.append((part, b, dict(extra, PART=part, BAD=str(b), S3="1")))
        if part == "1":
            for b in range(1, 14):
                todo.append((part, b, dict(extra, PART=part, BAD=str(b), S5="1")))
    src = open(HARNESS).read().split("\n")
    with pool() as ex:
        res = list(ex.map(lambda t: gcc(t[2]), todo))
    good = set()
    for (part, b, d), (rc, text) in zip(todo, res):
        if b == 0:
            if rc:
                w, msg = first_error(text)
                if "static assertion failed" in msg:
                    ctx.ob()
                    ctx.report("const-lost", "src/mathic/%s.h" % NAMES[part], msg)
                    good.add(part)
                    continue
                raise AnalysisBroken("the program for %s does not compile: %s %s" % (NAMES[part], w, msg))
            good.add(part)
            ctx.count("accepted_programs")
    for (part, b, d), (rc, text) in zip(todo, res):
        if b == 0 or part not in good:
            continue
        if rc and "error here" in text or rc and "'error'" in text:
            continue
        ctx.count("violating_programs")
        ctx.ob()
        if rc == 0:
            use = witness(src, part, b)
            ctx.report("accepted", "src/mathic/%s.h" % NAMES[part] + "#" + str(b),
                       "the compiler accepts `%s`, which changes a %s that is only available as const (or copies one that "
                       "must not be copied)" % (use, NAMES[part]), config=str(d))
    ctx.need("violating_programs", 60)


def witness(src, part, b):
    """the source line of a violating program"""
    blocks, on = [], False
    starts = [i for i, l in enumerate(src) if l.startswith("void bad(")]
    idx = {"1": 0, "2": 0, "3": 1, "4": 1, "5": 1, "6": 1, "7": 2, "8": 3}[part]
    i = starts[idx]
    while i < len(src):
        if re.match(r'#(el)?if BAD == %d\b' % b, src[i]):
            return src[i + 1].strip()
        i += 1
    return "?"


# ------------------------------------------------------------------ A01
def A01(ctx):
    ctx.rules = ["counting calls of the configuration's copy operations over the call graph: exactly one is reached from the "
                 "constructor that takes a configuration, none from any other operation of the structure"]
    todo = (("1", dict(S4="1")), ("1", dict(S1="1", S5="1")), ("2", dict(S4="1", S1="1", S2="1", LEAF="4")),
                    ("2", dict(S4="1", S1="1", S2="1", S3="1", LEAF="4")), ("2", dict(S4="1")), ("2", dict(S4="1", S3="1")),
                    ("3", {}), ("3", dict(S2="1", S1="1")), ("4", {}), ("5", {}),
                    ("5", dict(S1="1", S2="1", S3="1", S4="1", S5="1", S6="1")), ("5", dict(S4="1", S6="2")),
                    ("7", dict(S1="1")), ("7", {}), ("8", {}))
    with pool() as ex:
        texts = list(ex.map(lambda t: ir.compile_ll(HARNESS, ["PART=" + t[0]] + ["%s=%s" % x for x in sorted(t[1].items())]), todo))
    for (part, d), text in zip(todo, texts):
        p = ir.Program()
        p.load(text)
        p.demangle()
        copies = {n for n in list(p.dem) if re.match(r'Conf::(Conf\(Conf (const)?&+\)|operator=\()', p.dem[n])}
        if not copies:
            raise AnalysisBroken("no configuration copy was found for " + NAMES[part])
        memo = {}

        def count(n, stack=()):
            if n in memo:
                return memo[n]
            if n in stack or n not in p.fns:
                return (0, None)
            k, at = 0, None
            for c, loc, s in p.fns[n].calls:
                if c in copies:
                    k, at = k + 1, loc
                else:
                    j, w = count(c, stack + (n,))
                    if j:
                        k, at = k + j, (loc if ir.in_repo(loc) else w)
            memo[n] = (k, at)
            return memo[n]

        cls = NAMES[part]
        root = [n for n in p.fns if p.dem[n].startswith("api(")]
        if len(root) != 1:
            raise AnalysisBroken("no api function")
        seen = set()
        for c, loc, s in p.fns[root[0]].calls:
            dm = p.dem.get(c, c)
            if not re.search(r'mathic::%s<Conf>::' % cls, dm.split("(")[0]) or c in seen:
                continue
            seen.add(c)
            ctx.count("operations")
            ctx.ob()
            k, at = count(c)
            m = re.search(r'%s<Conf>::%s\((.*)\)' % (cls, cls), dm)
            want = (0, 0)
            if m:
                a = m.group(1)
                if a.startswith("Conf "):
                    want = (1, 1)
                elif "mathic::" in a:
                    want = (0, 2)   # copying or moving the whole structure
            if "operator=" in dm:
                want = (0, 2)
            if not want[0] <= k <= want[1]:
                f = p.fns.get(c)
                ctx.report("configuration-copied", at or (f and f.loc) or "?",
                           "%s copies the configuration %d times, expected %s" %
                           (dm.split("(")[0], k, "exactly once" if want == (1, 1) else "none"), config=str(d), function=dm)
    ctx.need("operations", 60)


# ------------------------------------------------------------------ E01 / output
STREAMS = {"_ZSt4cout": "standard output", "stdout": "standard output", "_ZSt5wcout": "standard output",
           "_ZSt4cerr": "standard error", "_ZSt4clog": "standard error", "stderr": "standard error",
           "_ZSt5wcerr": "standard error", "_ZSt5wclog": "standard error",
           "_ZSt3cin": "standard input", "stdin": "standard input"}
PRINTS = {"printf": "standard output", "puts": "standard output", "putchar": "standard output", "vprintf": "standard output",
          "perror": "standard error", "getchar": "standard input", "gets": "standard input", "scanf": "standard input",
          "putchar_unlocked": "standard output"}
ENDS = {"exit", "abort", "_exit", "_Exit", "quick_exit", "_ZSt9terminatev", "__assert_fail", "raise", "kill", "pthread_exit",
        "thrd_exit", "longjmp", "_ZSt10quick_exiti", "_ZSt10unexpectedv", "llvm.trap"}
WORLD = {"fopen", "fopen64", "freopen", "open", "open64", "creat", "remove", "unlink", "rename", "system", "popen", "fork",
         "vfork", "execv", "execve", "execvp", "execl", "execlp", "getenv", "setenv", "putenv", "setlocale", "signal", "sigaction",
         "socket", "mkdir", "rmdir", "chdir", "srand", "mkstemp", "tmpfile", "dup2", "close", "fclose", "setbuf", "setvbuf",
         "unsetenv", "atexit_"}
TERMINATORS = {"__clang_call_terminate"}
STDERR_OK = re.compile(r'mathic::(display|displayNote|displayError|displayInternalError|displayException|'
                       r'HelpAction::performAction|HelpAction::displayActionHelp)$')


def C04(ctx):
    ctx.rules = ["no function of the library refers to standard output or input, to a function that ends the process, opens "
                 "files or changes process-wide settings",
                 "standard error is only reachable from the display functions and the help action: every other function "
                 "that reaches it is called by those alone"]
    p = whole()
    fns = {n: f for n, f in p.fns.items() if ir.in_repo(f.loc) and not p.dem[n].startswith("api(")}
    if len(fns) < 200:
        raise AnalysisBroken("only %d functions of the library were found" % len(fns))
    callers = {}
    direct = {}
    for n, f in fns.items():
        ctx.count("functions")
        ctx.ob()
        for c, loc, s in f.calls + f.refs:
            if c in fns:
                callers.setdefault(c, set()).add(n)
            what = STREAMS.get(c) or PRINTS.get(c)
            if what and "ios_base4Init" not in s:
                if what == "standard error":
                    direct.setdefault(n, (loc, c))
                else:
                    ctx.report("writes-elsewhere", loc or f.loc, "%s uses %s" % (p.dem[n].split("(")[0], what), function=p.dem[n])
            if c in ENDS and n not in TERMINATORS:
                ctx.report("ends-process", loc or f.loc, "%s calls %s" % (p.dem[n].split("(")[0], p.dem.get(c, c)), function=p.dem[n])
            base = p.dem.get(c, c)
            if c in WORLD or re.match(r'std::basic_(o|i|)f(ile)?stream<.*>::basic_|std::locale::global|std::set_terminate|std::set_new_handler|'
                                      r'std::ios_base::sync_with_stdio', base):
                ctx.report("outside-effect", loc or f.loc, "%s calls %s" % (p.dem[n].split("(")[0], base), function=p.dem[n])
    # reachability of standard error
    reach = set(direct)
    work = list(direct)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in reach:
                reach.add(c)
                work.append(c)
    ok = {n for n in reach if STDERR_OK.search(ir.basename(p.dem[n]))}
    if not any(ir.basename(p.dem[n]) == "mathic::display" for n in fns):
        raise AnalysisBroken("mathic::display was not found")
    while True:
        more = {n for n in reach - ok if callers.get(n) and callers[n] <= ok | {n}}
        if not more:
            break
        ok |= more
    for n in sorted(reach - ok):
        f = fns[n]
        loc = direct.get(n, (None,))[0]
        if loc is None:
            for c, l, s in f.calls + f.refs:
                if c in reach:
                    loc = l
                    break
        # report the outermost function that is at fault: one whose callee is fine or direct
        if n in direct or any(c in ok for c, l, s in f.calls + f.refs):
            ctx.report("writes-elsewhere", loc or f.loc, "%s writes to standard error" % p.dem[n].split("(")[0], function=p.dem[n])
    ctx.count("functions_reaching_stderr", len(reach))
    ctx.need("functions_reaching_stderr", 3)
