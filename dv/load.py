"""Load the modules of /repo for symbolic execution.

The text that is executed is the current source of each module; the only rewriting is syntactic and meaning
preserving over the mathematical reals:
  float literal c     ->  exact rational of its decimal text
  a / b, a /= b       ->  exact division when both are integers (else the operator itself)
  a ** b              ->  exact power
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import shims

REPO = os.environ.get('DV_REPO', '/repo')

PREFIXES = ('Patro', 'IntervalArithmetic')

class Exact(ast.NodeTransformer):

    def __init__(self, source):
        self.source = source

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            text = self.source and ast.get_source_segment(self.source, node) or repr(node.value)
            text = text.replace('_', '')
            return ast.copy_location(ast.Call(ast.Name('__dv_const__', ast.Load()), [ast.Constant(text)], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node if all(isinstance(v, ast.Constant) for v in node.values) else self.generic_visit(node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Pow)):
            name = '__dv_div__' if isinstance(node.op, ast.Div) else '__dv_pow__'
            return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Pow)):
            name = '__dv_idiv__' if isinstance(node.op, ast.Div) else '__dv_pow__'
            t = node.target
            simple = isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)) or \
                (isinstance(t, ast.Subscript) and isinstance(t.value, (ast.Name, ast.Attribute))
                 and isinstance(t.slice, (ast.Name, ast.Constant)))
            if not simple:
                return node
            load = ast.parse(ast.unparse(t), mode='eval').body
            val = ast.Call(ast.Name(name, ast.Load()), [load, node.value], [])
            return ast.copy_location(ast.Assign([t], val), node)
        return node

def builtins_of_module():
    from . import loops
    b = dict(shims.BUILTINS)
    b['__dv_const__'] = shims.const
    b['__dv_div__'] = shims.true_div
    b['__dv_idiv__'] = shims.idiv
    b['__dv_pow__'] = shims.power
    b['__dv_loops__'] = loops.RUNTIME
    return b

class DvLoader(importlib.machinery.SourceFileLoader):

    def source_to_code(self, data, path, *, _optimize=-1):
        source = data.decode('utf8') if isinstance(data, bytes) else data
        tree = ast.parse(source, path)
        tree = Exact(source).visit(tree)
        from . import loops
        tree = loops.instrument(tree, self.name)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec')

    def get_code(self, fullname):
        # never use or write cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__['__builtins__'] = builtins_of_module()
        exec(self.get_code(module.__name__), module.__dict__)

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.split('.')[0] not in PREFIXES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or spec.origin is None or not spec.origin.endswith('.py'):
            return spec
        loader = DvLoader(fullname, spec.origin)
        return importlib.util.spec_from_file_location(fullname, spec.origin, loader=loader,
                                                      submodule_search_locations=spec.submodule_search_locations)

def install():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
