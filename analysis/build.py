"""Compiles harness files against /repo's current tree and loads their CFGs."""
import json
import os
import subprocess
import tempfile
from engine import Function, AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TOOL = os.path.join(ROOT, "build", "vpdump")


def tool():
    r = subprocess.run(["bash", os.path.join(ROOT, "tool", "build.sh"), TOOL],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise AnalysisBroken("cannot build the IR dumper:\n" + r.stdout.decode())
    return TOOL


def flags():
    out = ["-std=gnu++14", "-I" + os.path.join(REPO, "src"), "-I" + REPO]
    for d in ("libs", "_build", "build"):
        pass
    return out


class CompileError(Exception):
    def __init__(self, text):
        Exception.__init__(self, text)
        self.text = text


def module(src, defs=(), eh=False, opt="-O1", extra=(), dump=()):
    """CFGs of all entry points of a harness file"""
    with tempfile.TemporaryDirectory(prefix="vp.") as d:
        bc = os.path.join(d, "x.bc")
        cmd = ["clang++-18"] + flags() + ["-g", opt, "-fdelayed-template-parsing", "-Xclang",
               "-disable-llvm-passes", "-emit-llvm", "-c", "-w", "-fno-access-control",
               "-I" + os.path.join(ROOT, "harness")] + ["-D" + x for x in defs] + list(extra) + \
            [src if os.path.isabs(src) else os.path.join(ROOT, "harness", src), "-o", bc]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise CompileError(" ".join(cmd) + "\n" + r.stderr.decode(errors="replace"))
        cmd = [TOOL, bc] + (["-eh"] if eh else []) + list(dump)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise AnalysisBroken("vpdump failed: " + r.stderr.decode(errors="replace"))
        js = json.loads(r.stdout.decode())
    return {f["name"]: Function(f) for f in js["functions"]}
