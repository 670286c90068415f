#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, not a check).

mutate.py list                      number the mutants
mutate.py run OUT [slice] [-j N]    run the mapped checks on each in a private mount of /repo and /verif
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PKG = "/repo/gwpopulation"
MAP = {  # file, function prefix -> checks tried in order
    "hyperpe.py": {"resample_posteriors": "C06", "posterior_predictive_resample": "C07", "generate_extra_statistics": "C05", "generate_rate_posterior_sample": "C11 C04",
                   "log_likelihood_ratio": "C03 C01 C05", "maximum_uncertainty": "C03", "RateLikelihood": "C04 C11", "NullHyperparameterLikelihood": "C05", "": "C01 C02 C03 C05 C30"},
    "vt.py": {"GridVT": "C10", "surveyed_hypervolume": "C11", "check_convergence": "C09", "vt_factor": "C09", "detection_efficiency": "C08", "": "C08 C09 C11 C10"},
    "utils.py": {"beta_dist": "C14 C28", "powerlaw": "C12 C28", "truncnorm": "C13 C28", "unnormalized_2d_gaussian": "C22", "von_mises": "C22", "apply_conditions": "C28", "trapezoid": "C10 C18 C27", "": "C26 C01 C27"},
    "conversions.py": {"": "C15"},
    "backend.py": {"": "C26"},
    "models/mass.py": {"double_power_law": "C17", "Interpolated": "C20 C28 C19", "BaseSmoothed": "C18 C28 C19", "": "C16 C17 C18"},
    "models/spin.py": {"GaussianChiEffChiP": "C22", "Spline": "C20", "spin_magnitude": "C14", "": "C21 C14 C22"},
    "models/redshift.py": {"total_four_volume": "C11", "": "C23 C11"},
    "models/interped.py": {"": "C20 C19"},
    "experimental/cosmo_models.py": {"detector_frame": "C24", "": "C25 C24 C23"},
    "experimental/jax.py": {"": "C32"},
    "experimental/numpyro.py": {"": "C29"},
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"]}
TXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in"}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}


def mutants(fn):
    src = open(os.path.join(PKG, fn)).read()
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda ln, col: off[ln - 1] + col
    out = []

    def between(a, b, old, new, ctx, node):
        seg = raw[a:b].decode()
        i = seg.find(old)
        if i < 0:
            return
        out.append((fn, ctx, node.lineno, a + i, a + i + len(old.encode()), new))

    def walk(node, ctx):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            ctx = ctx + [node.name]
        body_doc = None
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            body_doc = node.body[0]
        for c in ast.iter_child_nodes(node):
            if c is not body_doc:
                walk(c, ctx)
        name = ".".join(ctx)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            between(pos(node.left.end_lineno, node.left.end_col_offset), pos(node.right.lineno, node.right.col_offset), OPS[type(node.op)], BIN[type(node.op)], name, node)
        elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            between(pos(node.target.end_lineno, node.target.end_col_offset), pos(node.value.lineno, node.value.col_offset), OPS[type(node.op)] + "=", BIN[type(node.op)] + "=", name, node)
        elif isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            for new in CMP[type(node.ops[0])]:
                between(pos(node.left.end_lineno, node.left.end_col_offset), pos(node.comparators[0].lineno, node.comparators[0].col_offset), TXT[type(node.ops[0])], new, name, node)
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            out.append((fn, name, node.lineno, a, b, repr(node.value + 1)))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            out.append((fn, name, node.lineno, a, b, repr(not node.value)))
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            new = None
            if node.id.endswith("_1"):
                new = node.id[:-2] + "_2"
            elif node.id.endswith("_2"):
                new = node.id[:-2] + "_1"
            elif node.id in ("mmin", "mmax", "alpha", "beta", "mu", "var", "high", "low"):
                new = dict(mmin="mmax", mmax="mmin", alpha="beta", beta="alpha", mu="var", var="mu", high="low", low="high")[node.id]
            if new and new in src:
                a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
                out.append((fn, name, node.lineno, a, b, new))
        elif isinstance(node, ast.Attribute) and node.attr in ("mean", "sum", "log", "exp", "copy", "divide", "nan_to_num"):
            new = dict(mean="sum", sum="mean", log="log1p", exp="expm1", nan_to_num="asarray").get(node.attr)
            if new:
                b = pos(node.end_lineno, node.end_col_offset)
                out.append((fn, name, node.lineno, b - len(node.attr), b, new))
        elif isinstance(node, ast.If):
            a, b = pos(node.test.lineno, node.test.col_offset), pos(node.test.end_lineno, node.test.end_col_offset)
            out.append((fn, name, node.lineno, a, b, "not (" + raw[a:b].decode() + ")"))
        elif isinstance(node, (ast.AugAssign,)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            pass
        if isinstance(node, ast.AugAssign):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            out.append((fn, name, node.lineno, a, b, "pass"))
    walk(ast.parse(src), [])
    return out


def checks(fn, name):
    best = max((k for k in MAP[fn] if k == "" or any(p.startswith(k) or k in p for p in name.split("."))), key=len)
    return MAP[fn][best].split()


def everything():
    out = []
    for fn in MAP:
        for m in mutants(fn):
            if m[1]:
                out.append(m)
    return out


def run(i, m, base):
    fn, name, line, a, b, new = m
    d = "%s/m%d" % (base, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run("mkdir %s/verif && cp -a /verif/check.py /verif/run.sh /verif/props /verif/symx /verif/known_findings.json %s/verif/" % (d, d), shell=True, check=True)
    p = os.path.join(d, "repo/gwpopulation", fn)
    raw = open(p, "rb").read()
    old = raw[a:b].decode()
    open(p, "wb").write(raw[:a] + new.encode() + raw[b:])
    res = []
    caught = None
    for c in checks(fn, name):
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && timeout 800 ./run.sh %s -j %s" % (d, d, c, os.environ.get("MJ", "4"))], capture_output=True, text=True)
        und = r.stdout.count("UNDECIDED")
        res.append((c, r.returncode, und))
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            caught = c
            break
        if r.returncode == 2 and "cannot load" in r.stderr:
            caught = "import"
            break
    shutil.rmtree(d, ignore_errors=True)
    return dict(i=i, file=fn, name=name, line=line, old=old, new=new, caught=caught, res=res)


if __name__ == "__main__":
    ms = everything()
    if sys.argv[1] == "list":
        for i, m in enumerate(ms):
            raw = open(os.path.join(PKG, m[0]), "rb").read()
            print(i, m[0], m[1], m[2], raw[m[3]:m[4]].decode()[:40], "->", m[5][:40], checks(m[0], m[1]))
    else:
        sl = sys.argv[3] if len(sys.argv) > 3 else ":"
        idx = list(range(len(ms)))[slice(*[int(x) if x else None for x in sl.split(":")])]
        if len(sys.argv) > 4:
            done = set()
            if os.path.exists(sys.argv[2]):
                done = {json.loads(l)["i"] for l in open(sys.argv[2])}
            idx = [i for i in idx if i not in done]
        base = "/tmp/mutants"
        with ThreadPoolExecutor(int(os.environ.get("MN", "2"))) as ex, open(sys.argv[2], "a") as f:
            for r in ex.map(lambda i: run(i, ms[i], base), idx):
                f.write(json.dumps(r) + "\n")
                f.flush()
