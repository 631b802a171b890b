#!/usr/bin/env python3
"""Development aid: systematic small mutations (operators, constants, calls, dropped statements and keywords) of every line of
pySLM2, each run against the checks of the file it touches until one reports it.  No check reads this file.
   astmut.py list FILE
   astmut.py run FILE [K...]    a small part of the checks, in one process each; appends to /tmp/am/FILE.log
   astmut.py full FILE K...     the whole quick checks"""
import ast, concurrent.futures, os, shutil, subprocess, sys, time, json
PY = "/opt/venv/bin/python"
ROOT = "/repo/pySLM2/"
CHECKS = {"profile.py": "P04 P05 P01 P03 P28 P02 P19 P08 P27", "window.py": "P04 P03 P28 P19", "analysis.py": "P06 P05 P24", "_backend.py": "P19 P20 P27",
          "_lib.py": "P12 P13 P14 P15 P16 P20 P17 P29 P19", "slm.py": "P08 P07 P12 P17 P18 P29 P27 P11 P26 P10 P09 P14 P16 P24", "simulation.py": "P09 P10 P11 P07 P27 P24 P19",
          "util/controller.py": "P21 P22 P23 P25", "util/sample.py": "P25"}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/", "*"], ast.Pow: ["*"], ast.Mod: ["+"]}
NAMES = {"fftshift": "ifftshift", "ifftshift": "fftshift", "cos": "sin", "sin": "cos", "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "ones_like": "zeros_like", "real": "imag", "imag": "real",
         "_fourier_transform": "_inverse_fourier_transform", "_inverse_fourier_transform": "_fourier_transform", "fft2": "ifft2", "ifft2": "fft2", "fft2d": "ifft2d", "ifft2d": "fft2d", "abs": "identity", "logical_or": "logical_and",
         "dtype": "dtype_complex", "dtype_complex": "dtype", "Nx": "Ny", "Ny": "Nx", "_Nx": "_Ny", "_Ny": "_Nx", "_padding_x": "_padding_y", "_padding_y": "_padding_x", "complex64": "complex128", "float32": "float64", "float64": "float32",
         "reduce_max": "reduce_min", "ceil": "floor", "x": "y", "y": "x", "_x0": "_y0", "_y0": "_x0", "_wx": "_wy", "_wy": "_wx", "phase_in": "phase_out", "phase_out": "phase_in", "_n": "_m", "_m": "_n", "_l": "_p", "ALP_ENABLE": "ALP_DEFAULT", "int32": "int64",
         "ENABLE": "DISABLE", "DISABLE": "ENABLE", "rows": "cols", "cols": "rows", "_output_field": "_input_field", "_input_field": "_output_field", "lru_cache": None}


def mutations(path):
    src = open(path, newline="").read().replace("\r\n", "\n")
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda l, c: off[l - 1] + c
    out = []

    def add(a, b, new, what, line): out.append((a, b, new.encode(), "%d: %s" % (line, what)))
    docs = set()
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n): ch.parent = n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): docs.add(id(n.body[0].value))
    seg = lambda n: raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    for n in ast.walk(tree):
        if not hasattr(n, "lineno"): continue
        a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                add(a, b, "%s %s %s" % (seg(n.left), new, seg(n.comparators[0])), "compare -> %s" % new, n.lineno)
        elif isinstance(n, ast.BinOp):
            l, r = seg(n.left), seg(n.right)
            lo, ro = raw[a:pos(n.left.end_lineno, n.left.end_col_offset)].decode(), raw[pos(n.right.lineno, n.right.col_offset):b].decode()
            mid = raw[pos(n.left.end_lineno, n.left.end_col_offset):pos(n.right.lineno, n.right.col_offset)].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.Mod: "%"}.get(type(n.op))
            for new in BIN.get(type(n.op), []):
                add(a, b, lo + mid.replace(sym, new, 1) + ro, "%s -> %s in %s" % (sym, new, seg(n)[:50]), n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(a, b, "(%s)" % seg(n.operand), "drop %s" % seg(n)[:40], n.lineno)
        elif isinstance(n, ast.Constant) and id(n) not in docs and not isinstance(getattr(n, "parent", None), (ast.Subscript, ast.JoinedStr)):
            v = n.value
            if isinstance(v, bool): add(a, b, str(not v), "%s flipped" % v, n.lineno)
            elif isinstance(v, (int, float)):
                add(a, b, repr(v + 1), "%r + 1" % v, n.lineno)
            elif isinstance(v, complex): add(a, b, "-1j", "-1j", n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and NAMES[n.attr]:
            add(b - len(n.attr), b, NAMES[n.attr], "%s -> %s" % (seg(n)[:50], NAMES[n.attr]), n.lineno)
        elif isinstance(n, ast.Name) and n.id in NAMES and NAMES[n.id] and isinstance(n.ctx, ast.Load):
            add(a, b, NAMES[n.id], "%s -> %s" % (n.id, NAMES[n.id]), n.lineno)
        elif isinstance(n, ast.keyword) and n.arg:
            parent = n.parent
            # drop the keyword together with the comma before it
            c = raw.rfind(b",", 0, a)
            if isinstance(parent, ast.Call) and (len(parent.args) + len(parent.keywords)) > 1 and c > pos(parent.lineno, parent.col_offset):
                add(c, b, "", "drop keyword %s" % n.arg, n.lineno)
        elif isinstance(n, (ast.Assign, ast.Expr, ast.Raise, ast.Assert)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(getattr(n, "parent", None), (ast.Module, ast.ClassDef)): continue
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and False: continue
            add(a, b, "pass", "drop %s" % seg(n)[:60].replace("\n", " "), n.lineno)
        if isinstance(n, ast.If):
            t = n.test
            add(pos(t.lineno, t.col_offset), pos(t.end_lineno, t.end_col_offset), "(not (%s))" % seg(t), "negate if %s" % seg(t)[:40], n.lineno)
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                if "lru_cache" in seg(d) or "tf.function" in seg(d) or "_check_init" in seg(d):
                    dl = off[d.lineno - 1]
                    add(dl, off[d.lineno], "", "drop decorator %s of %s" % (seg(d), n.name), d.lineno)
    res, seen = [], set()
    for a, b, new, what in out:
        m = raw[:a] + new + raw[b:]
        if m in seen: continue
        try: compile(m, path, "exec")
        except SyntaxError: continue
        seen.add(m)
        res.append((what, m))
    return res


def run(f, k, what, data, full):
    d = "/tmp/am/%s_%d" % (f.replace("/", "_"), k)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "docs", "*.ipynb", "__pycache__"))
    open(os.path.join(d, "pySLM2", f), "wb").write(data)
    t = time.time()
    mc = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc/")
    env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS="8", VERIF_FAILFAST="1", CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3", TF_ENABLE_ONEDNN_OPTS="0", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONPATH="")
    try:
        for p in CHECKS[f].split():
            if full:
                r = subprocess.run(["nice", sys.executable, mc + "run.py", p], capture_output=True, text=True, env=env)
                if r.returncode: return "%s %s %.0fs" % ("killed" if r.returncode == 1 else "ERROR", p, time.time() - t)
            else:       # a small part of the check in one process: enough for most mutants
                for dt in ("float32", "float64"):
                    try:
                        r = subprocess.run(["nice", PY, mc + "worker.py", p, "--dtype", dt, "--shard", "5", "--shards", "37", "--tier", "quick", "--seed", "1", "--out", d + "/out.json", "--limit", "8"], capture_output=True, text=True, env=env, cwd=d, timeout=240)
                    except subprocess.TimeoutExpired:
                        return "TIMEOUT %s" % p
                    if r.returncode: return "ERROR %s %s" % (p, r.stderr[-200:].replace("\n", " / "))
                    if json.load(open(d + "/out.json"))["violations"]: return "killed %s %.0fs" % (p, time.time() - t)
        return "SURVIVED %.0fs" % (time.time() - t)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    f = sys.argv[2]
    ms = mutations(ROOT + f)
    if sys.argv[1] == "list":
        for k, (w, _) in enumerate(ms): print(k, w)
        sys.exit()
    ks = [int(k) for k in sys.argv[3:]] or range(len(ms))
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("AM_JOBS", "3"))) as ex, open("/tmp/am/%s.log" % f.replace("/", "_"), "a") as log:
        fs = {k: ex.submit(run, f, k, ms[k][0], ms[k][1], sys.argv[1] == "full") for k in ks}
        for k, x in fs.items():
            log.write("%d %s [%s]\n" % (k, x.result(), ms[k][0])); log.flush()
