#!/usr/bin/env python3
"""Systematic mutation of /repo/src/spgrep, to measure the checks (development tool, not a check).

mutate.py list OUT.json           enumerate mutants of the current tree
mutate.py tests LIST OUT W N      run the repository's tests on mutants W, W+N, ... (stop at first failure)
mutate.py checks LIST OUT W N     run the checks on the mutants that survived

Each worker runs in a private mount namespace with its own copy of src bound over /repo/src, so that /repo is
never touched:  unshare -m sh -c 'mount --bind COPY /repo/src && exec mutate.py ...'
"""

import ast
import json
import os
import re
import subprocess
import sys
from pathlib import Path

SRC = Path("/repo/src/spgrep")
FILES = ["core", "corep", "group", "irreps", "pointgroup", "representation", "spinor", "tensor", "transform", "utils"]


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.split("\n")
        self.offs = [0]
        for ln in self.lines:
            self.offs.append(self.offs[-1] + len(ln.encode()) + 1)
        self.bytes = text.encode()
        self.out = []
        self.func = []

    def span(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.bytes[a:b].decode()

    def add(self, node, new, kind):
        a, b = self.span(node)
        old = self.bytes[a:b].decode()
        if old == new:
            return
        self.out.append({"a": a, "b": b, "old": old, "new": new, "kind": kind, "line": node.lineno,
                         "func": ".".join(self.func)})

    def visit_FunctionDef(self, n):
        self.func.append(n.name)
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            pass
        self.func.pop()

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Raise(self, n):
        if self.func:
            self.add(n, "pass", "drop raise")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            return
        if isinstance(n.value, ast.Call) and self.func:
            f = self.src(n.value.func)
            if f in ("warn", "ValueError"):
                return
            self.add(n, "pass", "drop call")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        op = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.MatMult: None, ast.Pow: None, ast.Mod: None, ast.FloorDiv: None}.get(type(n.op))
        l, r = self.src(n.left), self.src(n.right)
        if op:
            self.add(n, f"({l} {op} {r})", "binop")
        if isinstance(n.op, ast.MatMult):
            self.add(n, f"({r} @ {l})", "matmul swap")
        if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
            self.add(n, f"({l})", "drop right operand")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
            t, v = self.src(n.target), self.src(n.value)
            self.add(n, "pass", "drop augassign")
            o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}[type(n.op)]
            self.add(n, f"{t} {o} {v}", "augassign")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.src(n.left), self.src(n.comparators[0])
            alts = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
                    ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[type(n.ops[0])]
            for o in alts:
                self.add(n, f"({l} {o} {r})", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = "or" if isinstance(n.op, ast.And) else "and"
        vs = [self.src(v) for v in n.values]
        self.add(n, "(" + f" {o} ".join(f"({v})" for v in vs) + ")", "boolop")
        for i in range(len(vs)):
            rest = [f"({v})" for j, v in enumerate(vs) if j != i]
            self.add(n, "(" + (" and " if o == "or" else " or ").join(rest) + ")", "drop condition")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, self.src(n.operand), "drop not")
        elif isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            self.add(n, self.src(n.operand), "drop minus")
        elif isinstance(n.op, ast.USub):
            self.add(n, self.src(n.operand), "drop minus")
            return
        self.generic_visit(n)

    def visit_Constant(self, n):
        if not self.func:
            return
        v = n.value
        if isinstance(v, bool):
            self.add(n, repr(not v), "bool")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
            if v != 0:
                self.add(n, str(v - 1), "const")
            else:
                self.add(n, "(-1)", "const")
        elif isinstance(v, float):
            self.add(n, repr(v * 1e4), "float const")
            self.add(n, repr(v * 1.5), "float const")
        elif isinstance(v, complex):
            self.add(n, f"({-v!r})", "complex const")

    def visit_JoinedStr(self, n):
        return

    def visit_Call(self, n):
        f = self.src(n.func)
        if f in ("warn", "ValueError", "Literal"):
            return
        args = [self.src(a) for a in n.args]
        if f in ("np.conj", "np.real", "np.imag", "np.around", "np.rint", "np.absolute", "np.transpose", "np.abs", "sorted", "set", "np.array", "np.asarray"):
            self.add(n, f"({args[0]})", "drop function")
        if f in ("np.real",):
            self.add(n, f"np.imag({args[0]})", "real/imag")
        if f in ("np.rint", "np.around"):
            self.add(n, f"np.floor({args[0]})", "rint/floor")
        if f == "np.remainder":
            self.add(n, f"({args[0]})", "drop remainder")
        if f.endswith(".copy"):
            self.add(n, f[:-5], "drop copy")
        if f in ("np.all", "all"):
            self.add(n, f.replace("all", "any") + f"({args[0]})", "all/any")
        if f in ("np.any", "any"):
            self.add(n, f.replace("any", "all") + f"({args[0]})", "all/any")
        if f in ("min", "max"):
            self.add(n, ("max" if f == "min" else "min") + "(" + ", ".join(args) + ")", "min/max")
        if f in ("np.cos", "np.sin"):
            self.add(n, ("np.sin" if f == "np.cos" else "np.cos") + f"({args[0]})", "sin/cos")
        if f == "np.einsum" and n.args and isinstance(n.args[0], ast.Constant):
            spec = n.args[0].value
            # swap two adjacent index letters of one operand
            if "->" in spec:
                ins, o = spec.split("->")
                ops = ins.split(",")
                for i, s in enumerate(ops):
                    for j in range(len(s) - 1):
                        if s[j].isalpha() and s[j + 1].isalpha() and s[j] != s[j + 1]:
                            t = s[:j] + s[j + 1] + s[j] + s[j + 2:]
                            self.add(n.args[0], json.dumps(",".join(ops[:i] + [t] + ops[i + 1:]) + "->" + o), "einsum swap")
        # drop keyword arguments
        for k in n.keywords:
            if k.arg is None or k.arg == "optimize":
                continue
            others = [self.src(x.value) if x.arg is None else f"{x.arg}={self.src(x.value)}" for x in n.keywords if x is not k]
            self.add(n, f"{f}({', '.join(args + others)})", f"drop keyword {k.arg}")
        if len(n.args) >= 2 and not (f.startswith("np.") and f not in ("np.dot",)) and f not in ("zip", "range", "isinstance"):
            a2 = [args[1], args[0]] + args[2:]
            kws = [f"{x.arg}={self.src(x.value)}" for x in n.keywords]
            self.add(n, f"{f}({', '.join(a2 + kws)})", "swap arguments")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr == "T":
            self.add(n, f"({self.src(n.value)})", "drop transpose")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and not any(isinstance(e, ast.Slice) for e in n.slice.elts):
            x, y = (self.src(e) for e in n.slice.elts)
            if x != y:
                self.add(n, f"{self.src(n.value)}[{y}, {x}]", "swap indices")
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, "pass", "drop break")
        self.add(n, "continue", "break/continue")

    def visit_Continue(self, n):
        self.add(n, "pass", "drop continue")
        self.add(n, "break", "continue/break")

    def visit_If(self, n):
        if self.func:
            t = self.src(n.test)
            self.add(n.test, f"not ({t})", "negate if")
            self.add(n.test, "True", "if True")
            self.add(n.test, "False", "if False")
        self.generic_visit(n)


def enumerate_mutants():
    out = []
    for f in FILES:
        text = (SRC / f"{f}.py").read_text()
        v = Finder(text)
        v.visit(ast.parse(text))
        seen = set()
        for m in v.out:
            key = (m["a"], m["b"], m["new"])
            if key in seen:
                continue
            seen.add(key)
            m["file"] = f
            new = v.bytes[: m["a"]] + m["new"].encode() + v.bytes[m["b"]:]
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            out.append(m)
    for i, m in enumerate(out):
        m["id"] = i
    return out


def apply(m):
    p = SRC / f"{m['file']}.py"
    raw = p.read_bytes()
    assert raw[m["a"]: m["b"]].decode() == m["old"], m
    p.write_bytes(raw[: m["a"]] + m["new"].encode() + raw[m["b"]:])
    return p, raw


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="agg", SPGLIB_WARNING="OFF")


def run(cmd, timeout, env=ENV, cwd="/repo"):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    mode = sys.argv[1]
    if mode == "list":
        ms = enumerate_mutants()
        Path(sys.argv[2]).write_text(json.dumps(ms))
        print(len(ms))
        return
    lst, out, w, n = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    assert SRC.joinpath("..", ".mutation-copy").exists(), "not running on a copy"
    ms = json.loads(Path(lst).read_text())
    done = set()
    o = Path(f"{out}.{w}")
    if o.exists():
        done = {json.loads(x)["id"] for x in o.read_text().splitlines()}
    for m in ms[w::n]:
        if m["id"] in done:
            continue
        p, raw = apply(m)
        try:
            if mode == "tests":
                rc, _ = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"], 120)
                m["tests"] = rc
            else:
                m["checks"] = []
                env = dict(ENV, VERIF_JOBS="1")
                for prop in m["props"]:
                    rc, so = run(["/verif/check.sh", prop, "quick", "--no-evidence"], 900, env=env, cwd="/verif")
                    msg = re.findall(r"^campaign .*", so, re.M)
                    m["checks"].append([prop, rc, msg[:1]])
                    if rc == 1:
                        break
        finally:
            p.write_bytes(raw)
        with o.open("a") as fh:
            fh.write(json.dumps(m) + "\n")


main()
