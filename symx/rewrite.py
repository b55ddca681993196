"""
Second way of loading the code under test, used when hashing symbolic values blows up (see ``HashBlowup``).

The dict and set displays and comprehensions of the ``rebulk`` modules are compiled to constructions of the tables
of ``shims`` whose keys may be symbolic; nothing else of the source changes, and the files are not touched.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

ACTIVE = False


class _Tables(ast.NodeTransformer):
    def _call(self, node, name, *args):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if node.keys and all(k is None or isinstance(k, ast.Constant) for k in node.keys):
            return node
        if any(k is None for k in node.keys):
            return node
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return self._call(node, "__sx_dict__", *([ast.List(elts=pairs, ctx=ast.Load())] if pairs else []))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return self._call(node, "__sx_dict__", ast.GeneratorExp(elt=elt, generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, "__sx_set__", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, "__sx_set__", ast.GeneratorExp(elt=node.elt, generators=node.generators))


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = _Tables().visit(ast.parse(data, path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        from . import shims

        module.__dict__["__sx_dict__"] = shims.SymDict
        module.__dict__["__sx_set__"] = shims.SetShim
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if (name != "rebulk" and not name.startswith("rebulk.")) or name.startswith("rebulk.test"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, os.fspath(spec.loader.path))
        return spec


def activate():
    global ACTIVE
    from . import shims

    ACTIVE = True
    shims.SymSet.table = shims.SymDict
    sys.meta_path.insert(0, _Finder())
