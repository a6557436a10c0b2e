"""C24: everything advertised can be imported with the declared dependencies."""
import ast
import builtins
import glob
import json
import os
import re
import symtable
import sys

from .. import interp as I

EXPLANATION = """Imports: every module of the package is taken as the first one imported in a fresh abstract interpreter, in which only the
dependencies declared in the package metadata, what those require themselves and the standard library exist; then all the
others are imported.  None may raise, and every module must end with the same public names whatever was first.  Names: the scopes of
every function are computed from the source (symbol tables); each name that is looked up in the module has to be bound there
after import or be a builtin, each attribute of a module of the package has to exist, each `from` import inside a function has
to resolve, and names taken from torch have to occur in torch's own sources.  Sources must parse with the oldest declared
Python.  Advertised names: each entry of each __all__ is bound, each published layer, kernel and function is reachable under
its name, and the code examples in README and tutorial use names and keyword arguments that exist."""
RULE = "free names, imports, module attributes and __all__ entries are bound in the module they are looked up in, for every first import"
TECHNIQUE = "abstract interpretation of module initialization with name resolution over symbol tables"

# what torch and tqdm install along with themselves
TRANSITIVE = {"torch": ["typing_extensions", "sympy", "networkx", "jinja2", "fsspec", "filelock", "functorch", "torchgen"],
              "tqdm": []}
LAYERS = ["G%sConv%s" % (k, g) for k in ("Lifting", "Separable", "") for g in ("SE2", "E2", "SE3", "E3")]
POOLS = ["G%s%sSpatialPool%dd" % (a, k, d) for a in ("", "Adaptive") for k in ("Max", "Avg") for d in (2, 3)]
POOLS += ["G%s%sPool" % (k, w) for k in ("Max", "Avg") for w in ("Group", "Global")]
OTHER = ["G%sNorm%dd" % (k, d) for k in ("Batch", "Instance") for d in (2, 3)] + [
    "GLayerNorm", "GReLU", "GLeakyReLU", "GGELU", "GWrap"]
BASES = ["G%sConv%dd" % (k, d) for k in ("Lifting", "Separable", "") for d in (2, 3)]
KERNELS = ["G%sKernel%s" % (k, g) for k in ("Lifting", "Separable", "") for g in ("SE2", "E2", "SE3", "E3")] + [
    "GSubgroupKernelSO3", "GroupKernel", "GKernel", "GSeparableKernel", "GLiftingKernel", "GSubgroupKernel"]
PUBLIC = {
    "gconv": LAYERS + POOLS + OTHER,
    "gconv.gnn": LAYERS + POOLS + OTHER + BASES,
    "gconv.gnn.modules": LAYERS + POOLS + OTHER,
    "gconv.gnn.kernels": KERNELS,
    "gconv.gnn.functional": ["create_grid_R2", "create_grid_R3", "grid_sample", "create_spherical_mask_R2", "create_spherical_mask_R3"],
    "gconv.geometry": ["so2", "o2", "so3", "o3", "interpolation", "repulsion"],
    "gconv.geometry.groups": ["so2", "o2", "so3", "o3"],
}


def dependencies(root):
    """(declared dependencies, oldest declared Python) from pyproject.toml, setup.cfg or setup.py."""
    deps, py = None, (3, 8)
    p = os.path.join(root, "pyproject.toml")
    if os.path.exists(p):
        import tomllib
        d = tomllib.load(open(p, "rb")).get("project", {})
        deps = d.get("dependencies")
        m = re.search(r"(\d+)\.(\d+)", d.get("requires-python", ""))
        if m:
            py = (int(m.group(1)), int(m.group(2)))
    p = os.path.join(root, "setup.py")
    if deps is None and os.path.exists(p):
        for n in ast.walk(ast.parse(open(p).read())):
            if isinstance(n, ast.keyword) and n.arg == "install_requires":
                deps = ast.literal_eval(n.value)
    if deps is None:
        return ["torch", "tqdm"], py
    return [re.split(r"[^A-Za-z0-9_.-]", x.strip())[0].lower().replace("-", "_") for x in deps], py


def modules(root):
    """Names of all modules of the package that are not tests."""
    out = []
    for dp, dn, fn in os.walk(os.path.join(root, "gconv")):
        dn[:] = sorted(x for x in dn if x not in ("tests", "test", "__pycache__"))
        for f in sorted(fn):
            if not f.endswith(".py"):
                continue
            rel = os.path.relpath(os.path.join(dp, f), root)[:-3].split(os.sep)
            if rel[-1] == "__init__":
                rel = rel[:-1]
            out.append((".".join(rel), os.path.join(dp, f)))
    return out


def public(m):
    return sorted(n for n in m.ns if not n.startswith("_") and not n.startswith("*"))


def order(K, first, mods, allowed):
    """Import one module first, then all the others."""
    K.it.allowed_imports = allowed
    K.it.load(first)
    K.good()
    for n, _ in mods:
        K.it.load(n)
        K.good()
    return {n: public(K.it.mods[n]) for n, _ in mods}


# ------------------------------------------------------------------ names
class Strip(ast.NodeTransformer):
    """Annotations are not evaluated under `from __future__ import annotations`."""

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        return self.generic_visit(n)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return ast.copy_location(ast.Assign([n.target], n.value), n)


def line_of(tree, name):
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            return n.lineno
    return 0


def free_names(tree):
    """Names looked up in the module's globals from any scope, names assigned as globals in functions."""
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names)
                 for n in tree.body)
    t = ast.parse(ast.unparse(tree))
    if future:
        t = ast.fix_missing_locations(Strip().visit(t))
    st = symtable.symtable(ast.unparse(t), "m", "exec")
    used, given = {}, set()

    def walk(s):
        for x in s.get_symbols():
            if s.get_type() != "module" and x.is_global():
                if x.is_referenced():
                    used.setdefault(x.get_name(), s.get_name())
                if x.is_declared_global() and x.is_assigned():
                    given.add(x.get_name())
        for c in s.get_children():
            walk(c)
    walk(st)
    return used, given


def scopes_attr(tree):
    """(base name, attribute chain, line) of attribute reads whose base is not local to the function."""
    out = []

    def bound(fn):
        b = set()
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            b.add(x.arg)
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for x in n.names:
                        b.add((x.asname or x.name).split(".")[0])
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    b.add(n.name)
                elif isinstance(n, ast.arg):
                    b.add(n.arg)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    b.add(n.name)
        return b

    def chain(n):
        c = []
        while isinstance(n, ast.Attribute):
            c.insert(0, n.attr)
            n = n.value
        return (n.id, c) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) else None

    def walk(n, local):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x] + getattr(n, "decorator_list", []):
                walk(d, local)
            inner = local | bound(n)
            for s in (n.body if isinstance(n.body, list) else [n.body]):
                walk(s, inner)
            return
        if isinstance(n, ast.Attribute):
            c = chain(n)
            if c is not None and isinstance(n.ctx, ast.Load) and c[0] not in local:
                out.append((c[0], c[1], n.lineno))
                return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            local = local | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.arguments):
                continue
            walk(x, local)
    for s in tree.body:
        walk(s, frozenset())
    return out


_words = {}


def torch_words(path):
    """All words of torch's sources that a name of this torch module could come from (None: not installed)."""
    if path in _words:
        return _words[path]
    base = None
    for pat in ("/opt/vp/*/lib/python3*/site-packages/torch", "/usr/lib/python3*/site-packages/torch", "/opt/*/lib/python3*/site-packages/torch",
                "/usr/local/lib/python3*/*-packages/torch", "/usr/lib/python3/dist-packages/torch"):
        for f in glob.glob(pat):
            if os.path.exists(os.path.join(f, "__init__.py")):
                base = base or f
    r = None
    if base:
        d = os.path.join(base, *path.split(".")[1:])
        files = [d + ".py"] if os.path.exists(d + ".py") else glob.glob(os.path.join(d, "*.py")) + glob.glob(os.path.join(d, "*.pyi"))
        if path == "torch":
            files += glob.glob(os.path.join(base, "_C", "*.pyi"))
        elif path.startswith("torch.nn"):
            files += glob.glob(os.path.join(base, "nn", "*.py*")) + glob.glob(os.path.join(base, "nn", "modules", "__init__.py")) + \
                glob.glob(os.path.join(base, "_C", "*.pyi"))
        if files:
            r = set()
            for f in files:
                r |= set(re.findall(r"[A-Za-z_]\w*", open(f, errors="replace").read()))
            r |= {os.path.splitext(os.path.basename(x))[0] for x in glob.glob(os.path.join(d, "*"))}
    _words[path] = r
    return r


def resolve(K, name, path, rel):
    """Every name the module uses is bound."""
    m = K.it.load(name)
    tree = ast.parse(open(path).read())
    used, given = free_names(tree)
    where = lambda ln, fn="": "%s:%d %s" % (rel, ln, fn)  # noqa: E731
    for n, fn in sorted(used.items()):
        ok = n in m.ns or n in given or hasattr(builtins, n) or n in ("__file__", "__name__", "__doc__", "__class__", "__path__")
        K.require(ok, "name", "%s: the name %s used in %s is defined" % (name, n, fn), "neither the module nor the builtins define it",
                  where=where(line_of(tree, n), fn))
    for n, ch, ln in scopes_attr(tree):
        v = m.ns.get(n)
        for k, a in enumerate(ch):
            if isinstance(v, I.ModuleV):
                full = "%s.%s" % (v.name, a)
                ok = a in v.ns or full in K.it.mods
                if not ok and v.is_pkg:
                    p, pkg = K.it.find_module(full)
                    ok = False if p is None and not pkg else ok
                K.require(ok, "attribute", "%s: %s exists" % (name, ".".join([n] + ch[:k + 1])), "%s does not define %s" % (v.name, a),
                          where=where(ln))
                v = v.ns.get(a, K.it.mods.get(full))
                continue
            if isinstance(v, I.Lib) and v.path.split(".")[0] == "torch":
                w = torch_words(v.path)
                if w is not None:
                    K.require(a in w, "attribute", "%s: %s exists" % (name, ".".join([n] + ch[:k + 1])),
                              "torch's %s does not mention %s" % (v.path, a), where=where(ln))
                v = I.Lib(v.path + "." + a) if a in ("nn", "functional", "init", "linalg", "autograd", "optim", "modules") else None
                continue
            break
    # imports inside functions
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(fn):
                if isinstance(n, ast.ImportFrom):
                    pk = name if os.path.basename(path) == "__init__.py" else name.rpartition(".")[0]
                    for _ in range(max(0, n.level - 1)):
                        pk = pk.rpartition(".")[0]
                    src = (pk + ("." + n.module if n.module else "")) if n.level else n.module
                    if src.split(".")[0] != "gconv":
                        continue
                    mv = K.it.load(src)
                    for x in n.names:
                        K.require(x.name == "*" or x.name in mv.ns or K.it.find_module(src + "." + x.name)[0] is not None, "import",
                                  "%s: %s can be imported from %s" % (name, x.name, src), "it does not define it", where=where(n.lineno))
    al = m.ns.get("__all__")
    if al is not None:
        for x in (al.items if isinstance(al, I.PyList) else al):
            K.require(x in m.ns or K.it.find_module(name + "." + x)[0] is not None, "__all__", "%s: advertised name %s exists" % (name, x),
                      "the module does not define it", where=where(1))


def published(K, mod, names):
    m = K.it.load(mod)
    for n in names:
        v = m.ns.get(n, K.it.mods.get(mod + "." + n))
        K.require(v is not None, "public", "%s.%s is reachable" % (mod, n), "%s has no name %s" % (mod, n))
        have = v.name.split(".")[-1] if isinstance(v, I.ModuleV) else getattr(v, "name", None)
        if have is not None and isinstance(v, (I.Class, I.Func, I.ModuleV)):
            K.require(have == n or isinstance(v, I.Func), "public", "%s.%s is what its name says" % (mod, n), "it is %s" % have)


# ------------------------------------------------------------------ documentation
def examples(root):
    """[(file, source)] of the code examples of the documentation."""
    out = []
    p = os.path.join(root, "README.md")
    if os.path.exists(p):
        for k, b in enumerate(re.findall(r"```python3?\n(.*?)```", open(p).read(), re.S)):
            out.append(("README.md, example %d" % (k + 1), b))
    for p in sorted(glob.glob(os.path.join(root, "*.ipynb"))):
        src = "\n".join("".join(c["source"]) for c in json.load(open(p))["cells"] if c["cell_type"] == "code")
        out.append((os.path.basename(p), src))
    return out


def example(K, file, src):
    """Names imported from the package exist and calls bind to their signatures."""
    tree = ast.parse(src)
    env = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == "gconv":
                    m = K.it.load(a.name)
                    env[a.asname or "gconv"] = m if a.asname else K.it.load("gconv")
        elif isinstance(n, ast.ImportFrom) and n.module and n.module.split(".")[0] == "gconv":
            m = K.it.load(n.module)
            for a in n.names:
                v = m.ns.get(a.name, K.it.mods.get(n.module + "." + a.name))
                K.require(v is not None, "documented", "%s: %s can be imported from %s" % (file, a.name, n.module), "it does not exist",
                          where="%s:%d" % (file, n.lineno))
                env[a.asname or a.name] = v

    def value(n):
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.Attribute):
            v = value(n.value)
            if isinstance(v, I.ModuleV):
                r = v.ns.get(n.attr, K.it.mods.get(v.name + "." + n.attr))
                K.require(r is not None, "documented", "%s: %s.%s exists" % (file, v.name, n.attr), "it does not", where="%s:%d" % (file, n.lineno))
                return r
        return None
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            value(n)
        if isinstance(n, ast.Call):
            v = value(n.func)
            if isinstance(v, I.Class):
                init = v.lookup("__init__") if hasattr(v, "lookup") else None
                bind(K, file, n, init, v.name, 1)
            elif isinstance(v, I.Func):
                bind(K, file, n, v, v.name, 0)


def bind(K, file, call, f, name, skip):
    if not isinstance(f, I.Func) or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kw = [x.arg for x in a.kwonlyargs]
    where = "%s:%d" % (file, call.lineno)
    K.require(a.vararg is not None or len(call.args) <= len(pos), "documented", "%s: %s takes the documented arguments" % (file, name),
              "it takes %d by position" % len(pos), where=where)
    for k in call.keywords:
        K.require(a.kwarg is not None or k.arg in pos[len(call.args):] + kw, "documented", "%s: %s takes %s" % (file, name, k.arg),
                  "it has no such argument", where=where)
    need = pos[:len(pos) - len(a.defaults)][len(call.args):]
    miss = [x for x in need if x not in {k.arg for k in call.keywords}]
    K.require(not miss, "documented", "%s: %s needs no more than the documented arguments" % (file, name), "it needs %s" % miss, where=where)


def check(ck):
    root = ck.root
    mods = modules(root)
    deps, py = dependencies(root)
    allowed = set(deps) | {x for d in deps for x in TRANSITIVE.get(d, [])} | {"gconv"}
    for name, path in mods:
        rel = os.path.relpath(path, root)

        def parse(K, path=path, rel=rel, name=name):
            try:
                ast.parse(open(path).read(), feature_version=py)
                K.good()
            except SyntaxError as e:
                K.violate("syntax", "%s parses with Python %d.%d" % (name, *py), str(e), where="%s:%s" % (rel, e.lineno))
        ck.case("%s: syntax" % name, parse, name + ":", modes=[])

        def first(K, name=name):
            got = order(K, name, mods, allowed)
            for n, _ in mods:
                K.it.mods.pop(n, None)
            K2 = order(K, "gconv", mods, allowed)
            for n in got:
                K.require(got[n] == K2[n], "order", "%s has the same names when %s is imported first" % (n, name),
                          "they differ by %s" % sorted(set(got[n]) ^ set(K2[n])))
        ck.case("%s imported first" % name, first, name, modes=[])

        def names(K, name=name, path=path, rel=rel):
            for n, _ in mods:
                K.it.load(n)
            resolve(K, name, path, rel)
        ck.case("%s: names" % name, names, name, modes=[])
    for mod, ns in PUBLIC.items():
        ck.case("%s: published names" % mod, lambda K, mod=mod, ns=ns: published(K, mod, ns), mod, modes=[])
    for file, src in examples(root):
        def doc(K, file=file, src=src):
            for n, _ in mods:
                K.it.load(n)
            example(K, file, src)
        ck.case("%s: documented code" % file, doc, "gconv", modes=[])
