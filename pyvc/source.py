"""Access to the source in /repo: the ASTs that are verified are the code that runs."""
import ast
import inspect
import importlib
import os
import sys
import types as pytypes
from .values import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
PACKAGE = 'webauthn_rp'
MODULES = ['errors', 'constants', 'types', 'utils', 'asn1', 'validators', 'converters',
           'verifiers', 'attesters', 'parsers', 'registrars', 'backends', 'builders']


class Desugar(ast.NodeTransformer):
    """A match statement over constants and captures, as the chain of tests it stands for."""
    n = 0

    def visit_Match(self, m):
        self.generic_visit(m)
        Desugar.n += 1
        tmp = '$match%d' % Desugar.n
        used = lambda: ast.Name(tmp, ast.Load())
        chain = []
        for c in reversed(m.cases):
            t, names = self.test(c.pattern, used)
            if t is None:
                return m
            for x in names:
                t = t + [ast.Tuple([ast.NamedExpr(ast.Name(x, ast.Store()), used())], ast.Load())]
            if c.guard is not None:
                t = t + [c.guard]
            if not t:
                chain = c.body
            else:
                test = t[0] if len(t) == 1 else ast.BoolOp(ast.And(), t)
                chain = [ast.If(test, c.body, chain)]
        out = [ast.Assign([ast.Name(tmp, ast.Store())], m.subject)] + chain
        for x in out:
            for y in ast.walk(x):
                if isinstance(y, (ast.expr, ast.stmt)) and not hasattr(y, 'lineno'):
                    ast.copy_location(y, m)
        return out

    def test(self, p, used):
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(used(), [ast.Eq()], [p.value])], []
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(used(), [ast.Is()], [ast.Constant(p.value)])], []
        if isinstance(p, ast.MatchOr):
            ts = [self.test(x, used) for x in p.patterns]
            if any(t is None or names or len(t) != 1 for t, names in ts):
                return None, None
            return [ast.BoolOp(ast.Or(), [t[0] for t, _ in ts])], []
        if isinstance(p, ast.MatchAs):
            t, names = ([], []) if p.pattern is None else self.test(p.pattern, used)
            return t, names if t is None or p.name is None else names + [p.name]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return [ast.Call(ast.Name('isinstance', ast.Load()), [used(), p.cls], [])], []
        return None, None


def parse(f):
    return Desugar().visit(ast.parse(open(f, encoding='utf-8').read(), f))


class Source:
    package = PACKAGE

    def __init__(self):
        self.mods = {}
        self.trees = {}
        self.synth = {}
        self._locals = {}
        self._gen = {}
        for m in MODULES:
            mod = importlib.import_module(PACKAGE + '.' + m)
            self.add_module(mod)
        # modules a refactoring may have added
        d = os.path.join(REPO, PACKAGE)
        for root, _, fs in os.walk(d):
            for f in fs:
                if f.endswith('.py') and f != '__init__.py':
                    name = os.path.relpath(os.path.join(root, f), REPO)[:-3].replace(os.sep, '.')
                    if name in sys.modules:
                        self.add_module(sys.modules[name])

    def add_module(self, mod):
        f = mod.__file__
        if not os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError('%s is not loaded from %s' % (f, REPO))
        if mod.__name__ in self.trees:
            return
        self.mods[mod.__name__] = mod
        self.trees[mod.__name__] = parse(f)

    def lemmas(self):
        m = importlib.import_module('specs.lemmas')
        if m.__name__ not in self.trees:
            self.mods[m.__name__] = m
            self.trees[m.__name__] = parse(m.__file__)
        return m

    def is_package(self, fn):
        if isinstance(fn, pytypes.MethodType):
            fn = fn.__func__
        if getattr(fn, '__module__', None) == 'specs.lemmas' and 'specs.lemmas' in self.mods:
            return True
        return isinstance(fn, pytypes.FunctionType) and \
            (fn.__module__ or '').split('.')[0] == PACKAGE or \
            isinstance(fn, pytypes.FunctionType) and getattr(fn, '__code__', None) is not None and \
            os.path.realpath(fn.__code__.co_filename).startswith(os.path.realpath(REPO) + os.sep + PACKAGE)

    def has_source(self, fn):
        try:
            self.find(fn)
            return True
        except Unsupported:
            return False

    def find(self, fn):
        """-> (function node, defining class or None)"""
        modname = None
        cf = os.path.realpath(fn.__code__.co_filename)
        for n, m in self.mods.items():
            if os.path.realpath(m.__file__) == cf:
                modname = n
        if modname is None:
            m = sys.modules.get(fn.__module__)
            if m is not None and getattr(m, '__file__', None) and os.path.realpath(m.__file__) == cf and \
                    cf.startswith(os.path.realpath(REPO) + os.sep):
                self.add_module(m)
                modname = m.__name__
        if modname is None:
            raise Unsupported('no source for %s' % fn.__qualname__)
        line = fn.__code__.co_firstlineno
        hit = None
        for node in ast.walk(self.trees[modname]):
            if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                l = node.lineno
                if getattr(node, 'decorator_list', None):
                    l = min(l, node.decorator_list[0].lineno)
                name = getattr(node, 'name', '<lambda>')
                if l == line and name == fn.__name__ or l == line and isinstance(node, ast.Lambda) \
                        and fn.__code__.co_name == '<lambda>' or \
                        l == line and name == fn.__code__.co_name:
                    hit = node
                    break
        if hit is None or isinstance(hit, ast.AsyncFunctionDef):
            raise Unsupported('no source for %s' % fn.__qualname__)
        cls = None
        parts = fn.__qualname__.split('.')
        if len(parts) > 1 and '<locals>' not in parts:
            o = self.mods[modname]
            for p in parts[:-1]:
                o = getattr(o, p, None)
            cls = o if isinstance(o, type) else None
        return hit, cls

    def locals_of(self, node):
        if id(node) not in self._locals:
            names, glob = set(), set()

            def walk(n, top):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        names.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for x in ast.walk(c):
                            if isinstance(x, ast.NamedExpr):
                                names.add(x.target.id)
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                        names.add(c.id)
                    if isinstance(c, ast.Global):
                        glob.update(c.names)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        names.add(c.name)
                    walk(c, False)
            if not isinstance(node, ast.Lambda):
                for b in node.body:
                    walk(ast.Module(body=[b], type_ignores=[]), True)
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                names.add(x.arg)
            self._locals[id(node)] = (names - glob, glob, node)
        return self._locals[id(node)][0]

    def globals_of(self, frame):
        for v in self._locals.values():
            if v[0] is frame.locals:
                return v[1]
        return ()

    def is_generator(self, node):
        if id(node) not in self._gen:
            g = False
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    g = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            self._gen[id(node)] = g
        return self._gen[id(node)]

    def resolve(self, qual, missing_ok=False):
        """'parsers.parse_origin' or 'backends.CredentialsBackend.handle..'"""
        parts = qual.split('#')[0].split('.')
        if parts[0] == 'lemma':
            return getattr(self.lemmas(), parts[1])
        o = self.mods.get(PACKAGE + '.' + parts[0])
        for p in parts[1:]:
            o = getattr(o, p, None)
        if o is None and not missing_ok:
            raise KeyError(qual)
        return o
