"""Enumerate small mutations of gitdb's sources.  usage: mutate.py OUT.jsonl [file ...]
Each line: {"id", "file", "line", "func", "op", "start", "end", "new"} - bytes start..end of the file are replaced by new."""
import ast
import json
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
FILES = ["gitdb/base.py", "gitdb/fun.py", "gitdb/pack.py", "gitdb/stream.py", "gitdb/util.py", "gitdb/db/base.py", "gitdb/db/git.py",
         "gitdb/db/loose.py", "gitdb/db/mem.py", "gitdb/db/pack.py", "gitdb/db/ref.py", "gitdb/utils/encoding.py"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Mult: "//", ast.FloorDiv: "*", ast.Mod: "+"}


def muts(path):
    src = open(os.path.join(REPO, path), "rb").read()
    lines = src.split(b"\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    tree = ast.parse(src)

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = pos(n)
        return src[a:b].decode()
    out = []

    def add(n, op, new, func):
        a, b = pos(n)
        if src[a:b].decode() != new:
            out.append(dict(file=path, line=n.lineno, func=func, op=op, start=a, end=b, new=new, old=src[a:b].decode()))

    def walk(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = (func + "." if func else "") + n.name
            for d in n.decorator_list:
                pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "cmp", "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), func)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else 0, (str, bytes)):
            add(n, "bin", "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), func)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, "inc", str(n.value + 1), func)
            if n.value:
                add(n, "dec", str(n.value - 1), func)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, "bool", str(not n.value), func)
        if isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "boolop", j.join("(%s)" % seg(v) for v in n.values), func)
            for k in range(len(n.values)):
                add(n, "booldrop", (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for i, v in enumerate(n.values) if i != k), func)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "not", "(%s)" % seg(n.operand), func)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, "true", "True", func)
            add(n.test, "false", "False", func)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or (isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Constant, ast.Yield))):
            add(n, "del", "pass", func)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Yield):
            add(n, "del", "pass", func)
        if isinstance(n, ast.AugAssign):
            add(n, "aug", "%s = %s" % (seg(n.target), seg(n.value)), func)
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, "retnone", "return None", func)
        if isinstance(n, ast.Break):
            add(n, "break", "continue", func)
        if isinstance(n, ast.Continue):
            add(n, "continue", "break", func)
            add(n, "continue", "pass", func)
        if isinstance(n, ast.Slice):
            for part in ("lower", "upper"):
                v = getattr(n, part)
                if v is not None and not isinstance(v, ast.Constant):
                    add(v, "slice", "(%s) + 1" % seg(v), func)
                    add(v, "slice", "(%s) - 1" % seg(v), func)
        if isinstance(n, ast.Try):
            for h in n.handlers:
                add(h.body[0], "reraise", "raise", func)
            if n.finalbody:
                add(n.finalbody[0], "nofinal", "pass", func)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            add(n.func, "minmax", "max" if n.func.id == "min" else "min", func)
        for c in ast.iter_child_nodes(n):
            walk(c, func)
    walk(tree, "")
    seen = set()
    for m in out:
        new = src[:m["start"]] + m["new"].encode() + src[m["end"]:]
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        yield m


if __name__ == "__main__":
    with open(sys.argv[1], "w") as f:
        k = 0
        for p in sys.argv[2:] or FILES:
            for m in muts(p):
                m["id"] = "m%04d" % k
                k += 1
                f.write(json.dumps(m) + "\n")
    print(k)
