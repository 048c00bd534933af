#!/usr/bin/env python3
"""refac.py SPEC.py [name ...]: apply behaviour-preserving rewrites to a scratch copy of
/repo, run its tests and then the checks concerned; every check must stay quiet.

SPEC.py defines R = {name: {"file": path, "funcs": {qualname: source}, "edits": [(old, new)],
"checks": [...]}}; `funcs` replaces whole functions (empty source removes them), a key starting with "+"
adds the source after the function named."""
import ast, json, os, shutil, subprocess, sys, textwrap, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = {
    "cutting_plane.py": ["C01", "C02", "C03", "C04", "C05", "C06", "C27"],
    "ell.py": ["C11", "C13", "C14", "C15", "C26"], "ell_stable.py": ["C12", "C13", "C14", "C15", "C26"],
    "ell_calc.py": ["C07", "C08", "C09", "C11", "C12", "C15", "C26"], "ell_calc_core.py": ["C08", "C09", "C10", "C11", "C15", "C26"],
    "ldlt_mgr.py": ["C14", "C15", "C16", "C17", "C18", "C19"], "skeleton.py": ["C29"], "lmi_oracle.py": ["C14", "C15", "C18"], "lmi0_oracle.py": ["C14", "C15", "C18"],
    "lmi_old_oracle.py": ["C14", "C15", "C18"], "lowpass_oracle.py": ["C14", "C15", "C20", "C21"],
    "profit_oracle.py": ["C14", "C15", "C22", "C23"], "conjugate_gradient.py": ["C14", "C24"], "spectral_fact.py": ["C25"],
    "ell_config.py": ["C01", "C04", "C07", "C27", "C28"], "ell_typing.py": ["C01", "C11", "C28"], "__init__.py": ["C28"],
}


def find(tree, qual):
    body = tree.body
    for part in qual.split("."):
        node = next(n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part)
        body = node.body
    return node


def rewrite(src, spec):
    for old, new in spec.get("edits", ()):
        assert src.count(old) == 1, "edit %r matches %d times" % (old, src.count(old))
        src = src.replace(old, new)
    for q, code in spec.get("funcs", {}).items():
        node = find(ast.parse(src), q.lstrip("+"))
        lines = src.split("\n")
        first = min([node.lineno] + [d.lineno for d in node.decorator_list])
        ind = " " * node.col_offset
        new = [ind + l if l.strip() else "" for l in textwrap.dedent(code).strip("\n").split("\n")] if code.strip() else []
        if q.startswith("+"):
            lines[node.end_lineno:node.end_lineno] = [""] + new
        else:
            lines[first - 1:node.end_lineno] = new
        src = "\n".join(lines)
    return src


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    bad = 0
    for name, spec in ns["R"].items():
        if want and name not in want:
            continue
        W = tempfile.mkdtemp(prefix="refac.")
        try:
            subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
            p = os.path.join(W, "repo/src/ellalgo", spec["file"])
            raw = open(p, newline="").read()
            crlf = "\r\n" in raw
            out = rewrite(raw.replace("\r\n", "\n"), spec)
            open(p, "w", newline="").write(out.replace("\n", "\r\n") if crlf else out)
            if "--notest" not in sys.argv:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=W + "/repo",
                                   env=dict(os.environ, PYTHONPATH=W + "/repo/src"), capture_output=True, text=True)
                if t.returncode:
                    print(name, "TESTS FAIL", t.stdout[-600:])
                    bad += 1
                    continue
            res = []
            for c in spec.get("checks") or BY[os.path.basename(spec["file"])]:
                r = subprocess.run(["python3-vt", V + "/check.py", c], capture_output=True, text=True,
                                   env=dict(os.environ, ELL_REPO=W + "/repo", ELL_EVIDENCE=W + "/ev", VERIF_SEED="1", VERIF_TIER="quick"))
                res.append("%s=%d" % (c, r.returncode))
                if r.returncode:
                    bad += 1
                    print(name, c, r.returncode, r.stdout[:900], r.stderr[-600:])
            print(name, *res, flush=True)
        finally:
            shutil.rmtree(W)
    sys.exit(bool(bad))


if __name__ == "__main__":
    main()
