"""Small random changes of the functions a property is anchored in, run against its quick check (not used by any check).

  python3 tools/mutate.py K SEED ID ...     survivors are printed
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import seed as S

FLIP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
TEXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def functions(prop):
    """(file, names) of the anchors"""
    out = []
    for m in prop["anchors"]["mechanism"]:
        names = set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*\*?[A-Za-z_0-9]*", m["name"].replace("perform_base_*_qc", "perform_base_qc")))
        for f in m["where"].replace(" ", "").split(","):
            out.append((f, names))
    return out


def mutants(prop):
    res = []
    for f, names in functions(prop):
        src = open("/repo/" + f, newline="").read()
        tree = ast.parse(src.replace("\\N", "\\n").replace("\r\n", "\n"))
        lines = src.split("\n")
        starts = [0]
        for x in lines:
            starts.append(starts[-1] + len(x) + 1)

        def off(ln, col):
            line = lines[ln - 1].encode()[:col].decode()
            return starts[ln - 1] + len(line)

        def span(n):
            return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        todo = []
        for node in ast.walk(tree):
            if isinstance(node, ast.ClassDef) and node.name in names:
                todo += [x for x in node.body if isinstance(x, ast.FunctionDef)]
            if isinstance(node, ast.FunctionDef):
                if any(re.fullmatch(p.replace("*", ".*"), node.name) for p in names if p not in ("in", "of", "a")):
                    todo.append(node)
        seen = set()
        for fn in todo:
            if id(fn) in seen:
                continue
            seen.add(id(fn))
            doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
            for n in ast.walk(fn):
                if doc is not None and (n is doc or n is doc.value):
                    continue
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP:
                    a, b = span(n.left)[1], span(n.comparators[0])[0]
                    mid = src[a:b]
                    t = TEXT[type(n.ops[0])]
                    if mid.count(t) == 1:
                        res.append((f, fn.name, n.lineno, a, b, mid.replace(t, FLIP[type(n.ops[0])])))
                if isinstance(n, ast.BoolOp) and len(n.values) >= 2:
                    i = random.randrange(len(n.values) - 1)
                    a, b = span(n.values[i])[1], span(n.values[i + 1])[0]
                    w = "and" if isinstance(n.op, ast.And) else "or"
                    mid = src[a:b]
                    if len(re.findall(r"\b%s\b" % w, mid)) == 1 and len(n.values) == 2:
                        res.append((f, fn.name, n.lineno, a, b, re.sub(r"\b%s\b" % w, "or" if w == "and" else "and", mid)))
                    # drop one operand
                    a, b = span(n.values[i])[0], span(n.values[i + 1])[0]
                    if "(" not in src[span(n.values[i])[1]:b] and ")" not in src[span(n.values[i])[1]:b]:
                        res.append((f, fn.name, n.lineno, a, b, ""))
                if isinstance(n, ast.BinOp):
                    a, b = span(n.left)[1], span(n.right)[0]
                    mid = src[a:b]
                    for k, t, u in ((ast.Add, "+", "-"), (ast.Sub, "-", "+"), (ast.Mult, "*", "/"), (ast.Div, "/", "*")):
                        if isinstance(n.op, k) and mid.count(t) == 1:
                            res.append((f, fn.name, n.lineno, a, b, mid.replace(t, u)))
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    a, b = span(n)
                    res.append((f, fn.name, n.lineno, a, b, repr(n.value + random.choice([1, -1])) if isinstance(n.value, int)
                                else repr(n.value * random.choice([0.9, 1.1]) + (0.1 if not n.value else 0))))
                if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                    a, b = span(n)
                    res.append((f, fn.name, n.lineno, a, b, repr(not n.value)))
                if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                    a, b = span(n)
                    res.append((f, fn.name, n.lineno, a, b, src[slice(*span(n.operand))]))
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                        isinstance(n, ast.Expr) and "print" in src[slice(*span(n))]):
                    a, b = span(n)
                    res.append((f, fn.name, n.lineno, a, b, "pass"))
                if isinstance(n, ast.If):
                    a, b = span(n.test)
                    res.append((f, fn.name, n.lineno, a, b, random.choice(["True", "False"])))
    return [r for r in res if "assert" not in open("/repo/" + r[0], newline="").read().split("\n")[r[2] - 1]]


ALL = {json.loads(x)["id"]: json.loads(x) for x in open(S.ROOT + "/properties.jsonl")}


def try_one(job):
    prop, (f, fn, ln, a, b, new) = job
    d = S.copy()
    try:
        p = d + "/repo/" + f
        src = open(p, newline="").read()
        old = src.split("\n")[ln - 1].strip()
        out = src[:a] + new + src[b:]
        now = out.split("\n")[ln - 1].strip()
        what = "%s %s:%d %s | %s -> %s" % (prop, f, ln, fn, old, now)
        open(p, "w", newline="").write(out)
        S.ns(d, "bash /opt/vp/build.sh && timeout 60 bash /opt/vp/test.sh %s/o.json" % d)
        try:
            got = set(json.load(open(d + "/o.json"))["passed"])
        except Exception:
            return what, "tests"
        if S.STABLE - got:
            return what, "tests"
        for q in [prop] + [x for x in ALL if x != prop and any(f == g and fn in names for g, names in functions(ALL[x]))]:
            r = S.ns(d, "cd /verif && timeout 600 python3-vt engine/run.py %s --tier quick" % q)
            if r.returncode == 1 and "VIOLATION property=%s " % q in r.stdout:
                return what, "caught" if q == prop else "caught by " + q
        bad = [x for x in r.stdout.splitlines() if x.startswith("INCONCLUSIVE")]
        return what, "SURVIVED rc=%d %s" % (r.returncode, " | ".join(bad)[:200])
    finally:
        shutil.rmtree(d)


def main():
    k, sd = int(sys.argv[1]), int(sys.argv[2])
    ids = sys.argv[3:]
    props = {json.loads(x)["id"]: json.loads(x) for x in open(S.ROOT + "/properties.jsonl")}
    jobs = []
    for i in ids:
        random.seed("%d %s" % (sd, i))
        ms = mutants(props[i])
        random.shuffle(ms)
        jobs += [(i, m) for m in ms[:k]]
    with ThreadPoolExecutor(int(os.environ.get("N", "3"))) as ex:
        tally = {}
        for what, verdict in ex.map(try_one, jobs):
            t = tally.setdefault(what.split()[0], {})
            t[verdict.split()[0]] = t.get(verdict.split()[0], 0) + 1
            print(verdict.ljust(10), what, flush=True)
        print(tally)


if __name__ == "__main__":
    main()
