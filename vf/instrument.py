"""Instrumented build of /repo/fluids: an import hook that rewrites every ordering/equality
comparison (and two-argument min/max) of the package into a probe which reports its operands,
and a line-coverage monitor (sys.monitoring).  Nothing is written to disk."""
import ast, importlib.abc, importlib.machinery, importlib.util, operator, os, sys

REPO = os.environ.get("VF_REPO", "/repo")
SITES = []            # site id -> (module, lineno, func qualname, text)
_rec = None           # dict site -> [min nonneg d, max neg d]  while a monitored call runs
OPS = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge,
       "Eq": operator.eq, "NotEq": operator.ne}
STRICT = {"Lt": False, "LtE": True, "Gt": True, "GtE": False, "Eq": False, "NotEq": False}

def start():
    global _rec
    _rec = {}
    return _rec

def stop():
    global _rec
    r = _rec
    _rec = None
    return r

def _note(site, d, side):
    r = _rec.get(site)
    if r is None:
        r = _rec[site] = [None, None]
    if side:
        if r[0] is None or abs(d) < abs(r[0]):
            r[0] = d
    else:
        if r[1] is None or abs(d) < abs(r[1]):
            r[1] = d

def _mk(opname):
    op = OPS[opname]
    def cmp(site, a, b):
        res = op(a, b)
        if _rec is not None:
            ta = type(a); tb = type(b)
            if (ta is float or ta is int) and (tb is float or tb is int):
                try:
                    d = a - b
                    if d == d:
                        _note(site, float(d), bool(res))
                except OverflowError:
                    pass
        return res
    return cmp
CMPS = {k: _mk(k) for k in OPS}

def _vmin(site, a, b):
    if _rec is not None:
        try:
            d = float(a - b)
            if d == d: _note(site, d, d < 0)
        except Exception:
            pass
    return min(a, b)

def _vmax(site, a, b):
    if _rec is not None:
        try:
            d = float(a - b)
            if d == d: _note(site, d, d < 0)
        except Exception:
            pass
    return max(a, b)

class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        # defaults/decorators/annotations untouched
        n.body = [self.visit(s) for s in n.body]
        self.stack.pop()
        return n
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        self.stack.pop()
        return n
    def site(self, node, text):
        SITES.append((self.mod, node.lineno, ".".join(self.stack), text))
        return ast.Constant(len(SITES) - 1)
    def visit_Compare(self, n):
        text = ast.unparse(n)[:80]
        self.generic_visit(n)
        if not self.stack:
            return n
        if not all(type(o).__name__ in OPS for o in n.ops):
            return n
        if len(n.ops) > 1 and not all(isinstance(c, (ast.Name, ast.Constant)) for c in n.comparators[:-1]):
            return n
        parts = []
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            parts.append(ast.Call(ast.Name("__vf_%s__" % type(op).__name__, ast.Load()),
                                  [self.site(n, text), left, right], []))
            left = right
        if len(parts) == 1:
            return ast.copy_location(parts[0], n)
        return ast.copy_location(ast.BoolOp(ast.And(), parts), n)
    def visit_Call(self, n):
        text = ast.unparse(n)[:80] if isinstance(n.func, ast.Name) and n.func.id in ("min", "max") else None
        self.generic_visit(n)
        if (text and self.stack and len(n.args) == 2 and not n.keywords
                and not any(isinstance(a, ast.Starred) for a in n.args)):
            return ast.copy_location(ast.Call(ast.Name("__vf_%s__" % n.func.id, ast.Load()),
                                              [self.site(n, text)] + n.args, []), n)
        return n

class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = T(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)
    def exec_module(self, module):
        for k, v in CMPS.items():
            module.__dict__["__vf_%s__" % k] = v
        module.__dict__["__vf_min__"] = _vmin
        module.__dict__["__vf_max__"] = _vmax
        super().exec_module(module)

SKIP = {"fluids.numba", "fluids.numba_vectorized", "fluids.vectorized"}

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "fluids" and not fullname.startswith("fluids."):
            return None
        if fullname in SKIP:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, [REPO] if fullname == "fluids" else path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec

def install():
    sys.dont_write_bytecode = True
    if "fluids" in sys.modules:
        raise RuntimeError("fluids already imported")
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, Finder())

# ---- line coverage -------------------------------------------------------
LINES = set()
_TOOL = 3
def cover_on():
    m = sys.monitoring
    m.use_tool_id(_TOOL, "vf")
    root = os.path.join(REPO, "fluids") + os.sep
    def line(code, ln):
        if code.co_filename.startswith(root):
            LINES.add((code.co_filename[len(root):], ln))
        return m.DISABLE
    m.register_callback(_TOOL, m.events.LINE, line)
    m.set_events(_TOOL, m.events.LINE)
