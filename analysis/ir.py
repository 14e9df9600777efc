"""A whole-program view of the library: functions, calls, referenced globals, from textual IR."""
import os
import re
import subprocess
import tempfile
import build
from engine import AnalysisBroken

SYM = r'@("[^"]+"|[-a-zA-Z$._0-9]+)'


def compile_ll(src, defs=(), opt="-O1", extra=()):
    with tempfile.TemporaryDirectory(prefix="vp.") as d:
        out = os.path.join(d, "x.ll")
        cmd = ["clang++-18"] + build.flags() + ["-g", opt, "-fdelayed-template-parsing", "-Xclang",
               "-disable-llvm-passes", "-S", "-emit-llvm", "-w", "-fno-access-control"] + \
            ["-D" + x for x in defs] + list(extra) + \
            [src if os.path.isabs(src) else os.path.join(build.ROOT, "harness", src), "-o", out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise build.CompileError(" ".join(cmd) + "\n" + r.stderr.decode(errors="replace"))
        return open(out).read()


class Fn(object):
    __slots__ = ("name", "internal", "lines", "calls", "refs", "loc", "dem", "blocks")


class Program(object):
    def __init__(self):
        self.fns = {}
        self.declared = {}
        self.dem = {}
        self.alias = {}

    def load(self, text):
        meta = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$', text, re.M):
            meta[m.group(1)] = (m.group(2), m.group(3))

        def field(i, k):
            if i not in meta:
                return None
            m = re.search(r'\b%s: (?:!(\d+)|"([^"]*)"|(\d+))' % k, meta[i][1])
            return (m.group(1) or m.group(2) or m.group(3)) if m else None

        def filename(i):
            while i in meta:
                if meta[i][0] == "DIFile":
                    return field(i, "filename")
                f = field(i, "file")
                if f and f in meta and meta[f][0] == "DIFile":
                    return field(f, "filename")
                i = field(i, "scope")
            return None

        def where(i):
            f = filename(i)
            l = field(i, "line")
            return "%s:%s" % (short(f), l) if f else None

        cur = None
        new = {}
        for line in text.split("\n"):
            if line.startswith("define "):
                m = re.search(SYM + r'\(', line)
                f = Fn()
                f.name = m.group(1).strip('"')
                f.internal = " internal " in line[:60]
                f.lines, f.calls, f.refs = [], [], []
                d = re.search(r'!dbg !(\d+)', line)
                f.loc = where(d.group(1)) if d else None
                new[f.name] = cur = f
            elif line.startswith("declare "):
                m = re.search(SYM + r'\(', line)
                self.declared.setdefault(m.group(1).strip('"'), None)
            elif line.startswith("@") and " alias " in line:
                m = re.match(SYM + r' = .* alias .*, ptr ' + SYM, line)
                if m:
                    self.alias[m.group(1).strip('"')] = m.group(2).strip('"')
            elif line.startswith("@_ZTVN6mathic") and " = " in line:
                f = Fn()
                f.name = re.match(SYM, line).group(1)
                f.internal = False
                f.lines, f.calls, f.loc = [], [], None
                f.refs = [(m.group(1).strip('"'), None, "") for m in re.finditer(r'ptr ' + SYM, line)]
                f.refs = [r for r in f.refs if not r[0].startswith("_ZTI")]
                new[f.name] = f
            elif line.startswith("}"):
                cur = None
            elif cur is not None:
                cur.lines.append(line)
                s = line.strip()
                d = re.search(r'!dbg !(\d+)', s)
                loc = None
                if "@" in s and not s.startswith(";"):
                    callee = None
                    if re.search(r'\b(call|invoke)\b', s):
                        m = re.search(r'\b(?:call|invoke)\b[^@(]*(?:\([^@]*?\) )?' + SYM + r'\(', s)
                        if m:
                            callee = m.group(1).strip('"')
                    for m in re.finditer(SYM, s.split(", !dbg")[0]):
                        g = m.group(1).strip('"')
                        if g.startswith("llvm.") or g.startswith(".str"):
                            continue
                        if loc is None and d:
                            loc = where(d.group(1))
                        if g == callee:
                            cur.calls.append((g, loc, s))
                            callee_seen = True
                        else:
                            cur.refs.append((g, loc, s))
        for k, f in new.items():
            if f.internal:
                k = k + "$" + str(len(self.fns))
                # internal names are only visible in their own unit
                for g in new.values():
                    g.calls = [(k if c[0] == f.name else c[0], c[1], c[2]) for c in g.calls]
                    g.refs = [(k if c[0] == f.name else c[0], c[1], c[2]) for c in g.refs]
            self.fns.setdefault(k, f)

    def resolve(self):
        for a, b in self.alias.items():
            if a not in self.fns and b in self.fns:
                self.fns[a] = self.fns[b]

    def demangle(self):
        self.resolve()
        names = set(self.fns) | set(self.declared)
        for f in self.fns.values():
            names.update(c[0] for c in f.calls)
            names.update(c[0] for c in f.refs)
        names = sorted(n for n in names if n not in self.dem)
        r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(n.split("$")[0] for n in names),
                           stdout=subprocess.PIPE, universal_newlines=True)
        out = r.stdout.split("\n")
        if len(out) < len(names):
            raise AnalysisBroken("cannot demangle")
        for n, d in zip(names, out):
            self.dem[n] = d

    def defined(self, n):
        return n in self.fns


def short(p):
    if p is None:
        return None
    i = p.find("/src/")
    return p[i + 1:] if i >= 0 else p


def in_repo(loc):
    return bool(loc) and loc.startswith("src/mathic")


def basename(dem):
    """demangled name without template arguments, parameters and return type"""
    out, depth = [], 0
    s = dem
    s = s.replace("(anonymous namespace)", "{anon}")
    s = re.sub(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|<|>|\(\)|->)', lambda m: "operator#%d" % len(m.group(1)), s)
    for c in s:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif not depth:
            out.append(c)
    s = "".join(out)
    i = s.find("(")
    if i >= 0:
        s = s[:i]
    return s.split(" ")[-1]
