"""Loads spflow.* from the source text under REPO on every run (no byte-code cache).  Mechanical rewrites, applied to every
module, so that the symbolic lane can substitute its own version where a size is symbolic (with concrete values each of them
is exactly the construct it replaces); nothing is dropped:
  {..}, {e for ..}                          -> set([..])
  [e for i in range(a) for j in range(b)]   -> __rangecomp__(lambda i, j: e, lambda: a, lambda i: b)
  list(range(a)), list(x)                   -> __rangecomp__(lambda i: i, lambda: a), __list__(x)
  for i in range(a): <check-only body>      -> for i in __anyrange__(a): ..   (one arbitrary iteration when a is symbolic)
A body is check-only if it consists of bindings of names that occur nowhere else in the function, tests and raises."""
import ast, importlib.machinery, os, sys


class SymList:
    """the list [fn(i, j, ..) for i in range(n0) for j in range(n1) ..] with symbolic length"""

    def __init__(self, fn, lens):
        self.fn, self.lens = fn, lens

    def size(self):
        n = 1
        for k in self.lens:
            n = n * k
        return n

    def _concrete(self, *a):
        from .symt import NeedConcrete, of_size
        raise NeedConcrete(next(of_size(k) for k in self.lens if is_sym(k)))

    __iter__ = __len__ = __getitem__ = __contains__ = __add__ = __radd__ = __bool__ = _concrete


def is_sym(n):
    if type(n).__name__ != "SymInt":
        return False
    return n.node.e.const() is None if hasattr(n.node, "e") else False


def rangecomp(fn, *lens):
    out = []

    def go(k, idx):
        if k == len(lens):
            out.append(fn(*idx))
            return
        for i in range(lens[k]()):
            go(k + 1, (*idx, i))
    ns = [f() for f in lens]
    if any(is_sym(n) for n in ns):
        return SymList(fn, ns)
    go(0, ())
    return out


def list_(*x):
    return x[0] if x and isinstance(x[0], SymList) else list(*x)


def anyrange(n):
    if is_sym(n):
        from .symt import fresh_size_index
        return [fresh_size_index(n)]
    return range(n)


def product(*xs, repeat=1):
    import itertools
    if repeat == 1 and any(isinstance(x, SymList) for x in xs) and all(
            isinstance(x, SymList) and len(x.lens) == 1 or isinstance(x, list) and x == list(range(len(x))) for x in xs):
        return SymList(lambda *i: tuple(x.fn(k) if isinstance(x, SymList) else k for x, k in zip(xs, i)),
                       [x.lens[0] if isinstance(x, SymList) else len(x) for x in xs])
    return itertools.product(*xs, repeat=repeat)


def len_(x):
    return x.size() if isinstance(x, SymList) else len(x)


def _range1(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "range" and len(n.args) == 1 and not n.keywords \
        and not isinstance(n.args[0], ast.Starred)


def _plain(*ns):
    return not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for n in ns for x in ast.walk(n))


def _lam(args, body):
    return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)


def _call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


class _Rw(ast.NodeTransformer):
    def __init__(self):
        self.fn = []

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call("set", ast.ListComp(n.elt, n.generators)), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call("set", ast.List(n.elts, ast.Load())), n)

    def visit_ListComp(self, n):
        g = n.generators
        ok = all(_range1(x.iter) and not x.ifs and not x.is_async and isinstance(x.target, ast.Name) for x in g) and _plain(n) \
            and len({x.target.id for x in g}) == len(g) and self.fn
        self.generic_visit(n)
        if not ok:
            return n
        names = [x.target.id for x in g]
        lens = []
        for k, x in enumerate(g):
            used = {y.id for y in ast.walk(x.iter) if isinstance(y, ast.Name)} & set(names[:k])
            lens.append(_lam(names[:k] if used else [], x.iter.args[0]))
        if any(l.args.args for l in lens):
            return n
        return ast.copy_location(_call("__rangecomp__", _lam(names, n.elt), *lens), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "list" and not n.keywords and len(n.args) == 1 and not isinstance(n.args[0], ast.Starred):
            if _range1(n.args[0]) and _plain(n):
                return ast.copy_location(_call("__rangecomp__", _lam(["i"], ast.Name("i", ast.Load())), _lam([], n.args[0].args[0])), n)
            return ast.copy_location(_call("__list__", n.args[0]), n)
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_For(self, n):
        if _range1(n.iter) and isinstance(n.target, ast.Name) and not n.orelse and self.fn and self.check_only(n):
            n.iter = ast.copy_location(_call("__anyrange__", n.iter.args[0]), n.iter)
        self.generic_visit(n)
        return n

    def check_only(self, loop):
        bound = set()

        def ok(ss):
            for s in ss:
                if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                    bound.update(t.id for t in s.targets)
                elif isinstance(s, ast.If):
                    if not (ok(s.body) and ok(s.orelse)):
                        return False
                elif isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse:
                    bound.add(s.target.id)
                    if not ok(s.body):
                        return False
                elif not isinstance(s, (ast.Raise, ast.Pass)):
                    return False
            return True
        if not ok(loop.body) or not _plain(loop):
            return False
        bound.add(loop.target.id)
        for b in bound - {loop.target.id}:      # bound before it is read, so no state is carried between iterations
            occ = min((x for x in ast.walk(loop) if isinstance(x, ast.Name) and x.id == b), key=lambda x: (x.lineno, x.col_offset))
            if not any(isinstance(s, ast.Assign) and any(t is occ for t in s.targets) and not any(
                    isinstance(x, ast.Name) and x.id == b for x in ast.walk(s.value)) for s in loop.body) and not any(
                    isinstance(s, ast.For) and s.target is occ for s in ast.walk(loop)):
                return False
        return not (bound & self.outside(self.fn[-1], loop))

    def outside(self, n, loop):
        """names occurring in n outside the loop (names bound by a comprehension are its own)"""
        if n is loop:
            return set()
        if isinstance(n, ast.Name):
            return {n.id}
        out = set()
        for c in ast.iter_child_nodes(n):
            out |= self.outside(c, loop)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            out -= {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        return out


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = ast.fix_missing_locations(_Rw().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(__rangecomp__=rangecomp, __list__=list_, __anyrange__=anyrange)
        super().exec_module(module)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "spflow" and not name.startswith("spflow."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if not any(f is Finder for f in sys.meta_path):
        sys.meta_path.insert(0, Finder)
