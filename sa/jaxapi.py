"""Which public names the installed jax / numpy / scipy / tqdm provide, read from their sources (never imported)."""
import ast
import functools
import glob
import os

ROOTS = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))


def _module_file(mod):
    rel = mod.replace(".", "/")
    for r in ROOTS:
        for cand in (f"{r}/{rel}/__init__.py", f"{r}/{rel}.py"):
            if os.path.isfile(cand):
                return cand
        if os.path.isdir(f"{r}/{rel}"):
            return f"{r}/{rel}/"
    return None


def is_module(mod):
    return _module_file(mod) is not None


@functools.lru_cache(None)
def names(mod, depth=0):
    """set of top level names of a module, or None when they cannot be listed statically"""
    f = _module_file(mod)
    if f is None or f.endswith("/"):
        return set() if f else None
    out, dynamic = set(), False
    files = [f]
    if f.endswith(".py") and os.path.isfile(f + "i"):
        files.append(f + "i")
    pkg = mod if f.endswith("__init__.py") else mod.rpartition(".")[0]
    for g in files:
        try:
            tree = ast.parse(open(g, encoding="utf-8").read())
        except (SyntaxError, UnicodeDecodeError):
            return None

        def visit(body):
            nonlocal dynamic
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    if s.name == "__getattr__":
                        # the only dynamic names are those of the deprecation table
                        dynamic = dynamic or mod.split(".")[0] not in ("jax", "numpy")
                    out.add(s.name)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        out.add((a.asname or a.name).split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        if a.name == "*":
                            base = s.module or ""
                            if s.level:
                                parts = pkg.split(".")
                                parts = parts[:len(parts) - (s.level - 1)]
                                base = ".".join(parts + ([s.module] if s.module else []))
                            sub = names(base, depth + 1) if depth < 6 else None
                            if sub is None:
                                dynamic = True
                            else:
                                out.update(n for n in sub if not n.startswith("_"))
                        else:
                            out.add(a.asname or a.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                out.add(n.id)
                                if n.id == "_deprecations" and isinstance(s.value, ast.Dict):
                                    for k, v in zip(s.value.keys, s.value.values):
                                        # an entry whose replacement is None was removed
                                        if isinstance(k, ast.Constant):
                                            removed = isinstance(v, ast.Tuple) and len(v.elts) == 2 and \
                                                isinstance(v.elts[1], ast.Constant) and v.elts[1].value is None
                                            if not removed:
                                                out.add(k.value)
                elif isinstance(s, ast.If):
                    visit(s.body)
                    visit(s.orelse)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                    for h in s.handlers:
                        visit(h.body)
                    visit(s.orelse)
                    visit(s.finalbody)
                elif isinstance(s, (ast.With, ast.For)):
                    visit(s.body)
        visit(tree.body)
    return None if dynamic else out


def exists(dotted):
    """True / False / None (unknown)"""
    parts = dotted.split(".")
    if is_module(dotted):
        return True
    mod, name = ".".join(parts[:-1]), parts[-1]
    if not is_module(mod):
        return None
    ns = names(mod)
    if ns is None:
        return None
    return name in ns
