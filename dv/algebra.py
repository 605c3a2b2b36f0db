"""Stand-ins of sympy and yaml for symbolic execution, i.e. the contracts assumed on these two libraries.

sympy: sympify() reads an expression with the usual meaning of its operators, free_symbols are the names it holds, subs()
replaces names by closed values, evalf() is the value of a closed expression (to n digits), str() is read back by sympify().
What is not covered by these contracts is Unsupported, i.e. left to the run on the real libraries.
yaml: what dump() wrote for plain data (text, numbers, booleans, None, lists and dictionaries) is what load() returns."""

import ast
import builtins
from fractions import Fraction

from . import sym
from .sym import SymReal, Unsupported, to_fraction

OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}
LEVEL = {'+': 1, '-': 1, '*': 2, '/': 2, 'neg': 3, '**': 4, 'num': 5, 'sym': 5}

class SympifyError(ValueError):
    pass

def is_number(x):
    return isinstance(x, (builtins.int, builtins.float, Fraction, SymReal)) and not isinstance(x, builtins.bool)

class Basic:

    def __init__(self, *tree):
        self.tree = tree

    def __str__(self):
        return _text(self.tree)[0]

    __repr__ = __str__

    def __eq__(self, other):
        raise Unsupported('comparison of expressions')

    def __hash__(self):
        return id(self)

    @property
    def free_symbols(self):
        return {Symbol(n) for n in sorted(_names(self.tree))}

    @property
    def is_number(self):
        return not _names(self.tree)

    def subs(self, *args, **kw):
        if kw or len(args) not in (1, 2):
            raise Unsupported('arguments of subs()')
        pairs = [tuple(args)] if len(args) == 2 else (list(args[0].items()) if isinstance(args[0], dict) else list(args[0]))
        values = {}
        for k, v in pairs:
            k = k.name if isinstance(k, Symbol) else k
            if not isinstance(k, str):
                raise Unsupported('substitution of an expression')
            v = _sympify(v)
            if _names(v.tree) and k in _names(self.tree):
                raise Unsupported('substitution by an expression that is not closed')
            values[k] = v.tree
        return _make(_subs(self.tree, values))

    def xreplace(self, rule):
        return self.subs(rule)

    def evalf(self, n=15, *args, **kw):
        if args or kw:
            raise Unsupported('arguments of evalf()')
        if _names(self.tree):
            return self
        v = _value(self.tree)
        if n < 15:
            raise Unsupported('evaluation to a few digits')
        return Float(v)

    n = evalf

    def __float__(self):
        if _names(self.tree):
            raise TypeError("Cannot convert expression to float")
        return _value(self.tree)

    def __int__(self):
        v = self.__float__()
        return v.__trunc__() if not isinstance(v, builtins.int) else v

    def _bin(op, swap=False):
        def f(self, o):
            if not isinstance(o, Basic) and not is_number(o):
                return NotImplemented
            a, b = self.tree, _sympify(o).tree
            return _make((op, b, a) if swap else (op, a, b))
        return f

    __add__, __radd__ = _bin('+'), _bin('+', True)
    __sub__, __rsub__ = _bin('-'), _bin('-', True)
    __mul__, __rmul__ = _bin('*'), _bin('*', True)
    __truediv__, __rtruediv__ = _bin('/'), _bin('/', True)
    __pow__, __rpow__ = _bin('**'), _bin('**', True)

    def __neg__(self):
        return _make(('neg', self.tree))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'sympy expression: {name}')

class Expr(Basic):
    pass

class Symbol(Expr):

    def __init__(self, name):
        super().__init__('sym', str(name))

    @property
    def name(self):
        return self.tree[1]

    def __eq__(self, other):
        return isinstance(other, Symbol) and other.name == self.name

    def __hash__(self):
        return hash(self.name)

class Number(Expr):
    def __init__(self, value):
        super().__init__('num', value)

class Float(Number):
    pass

class Integer(Number):
    pass

class Rational(Number):
    pass

def _make(tree):
    if tree[0] == 'sym':
        return Symbol(tree[1])
    if tree[0] == 'num':
        return _number(tree[1])
    if not _names(tree):
        # closed expressions of whole numbers are computed
        return _closed(tree)
    return Expr(*tree)

def _closed(tree):
    v = _value(tree)
    if isinstance(v, SymReal) or not isinstance(v, (builtins.int, Fraction)):
        return Expr(*tree)
    return Integer(int(v)) if v == int(v) else Rational(v)

def _number(v):
    if isinstance(v, builtins.int) or isinstance(v, SymReal) and sym.is_whole(v):
        return Integer(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return Integer(int(v))
    return Float(v)

def _names(t):
    if t[0] == 'sym':
        return {t[1]}
    if t[0] == 'num':
        return set()
    return set().union(*(_names(x) for x in t[1:]))

def _subs(t, values):
    if t[0] == 'sym':
        return values.get(t[1], t)
    if t[0] == 'num':
        return t
    return (t[0],) + tuple(_subs(x, values) for x in t[1:])

def _value(t):
    from .shims import power, true_div
    if t[0] == 'num':
        return t[1]
    if t[0] == 'sym':
        raise Unsupported('value of a name')
    v = [_value(x) for x in t[1:]]
    if t[0] == 'neg':
        return -v[0]
    if t[0] == '+':
        return v[0] + v[1]
    if t[0] == '-':
        return v[0] - v[1]
    if t[0] == '*':
        return v[0]*v[1]
    if t[0] == '/':
        return true_div(v[0], v[1]) if not isinstance(v[0], SymReal) and not isinstance(v[1], SymReal) else v[0]/v[1]
    return power(v[0], v[1])

def _text(t):
    """text, level of the outermost operator"""
    k = t[0]
    if k == 'sym':
        return t[1], LEVEL[k]
    if k == 'num':
        v = t[1]
        if isinstance(v, Fraction):
            return (str(v.numerator), 5) if v.denominator == 1 else (f'{v.numerator}/{v.denominator}', 2)
        s = str(v)
        return s, 3 if s.startswith('-') else 5
    def sub(x, level):
        s, l = _text(x)
        return s if l >= level else f'({s})'
    if k == 'neg':
        return '-' + sub(t[1], 4), 3
    if k == '**':
        return sub(t[1], 5) + '**' + sub(t[2], 5), 4
    l = LEVEL[k]
    return f'{sub(t[1], l)} {k} {sub(t[2], l + 1)}' if l == 1 else f'{sub(t[1], l)}{k}{sub(t[2], l + 1)}', l

def _tree(node, source):
    if isinstance(node, ast.Expression):
        return _tree(node.body, source)
    if isinstance(node, ast.BinOp) and type(node.op) in OPS:
        return (OPS[type(node.op)], _tree(node.left, source), _tree(node.right, source))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return ('neg', _tree(node.operand, source))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.UAdd):
        return _tree(node.operand, source)
    if isinstance(node, ast.Name):
        return ('sym', node.id)
    if isinstance(node, ast.Constant) and type(node.value) in (builtins.int, builtins.float):
        text = ast.get_source_segment(source, node)
        v = sym.E.parse_numeral(text) if sym.E is not None else None
        if v is None:
            v = builtins.int(text) if type(node.value) is builtins.int else Fraction(text.replace('_', ''))
        return ('num', v)
    raise Unsupported(f'expression {source!r}')

def _sympify(x):
    if isinstance(x, Basic):
        return x
    if is_number(x):
        return _number(to_fraction(x) if isinstance(x, builtins.float) else x)
    if isinstance(x, str):
        text = x.strip().replace('^', '**')
        try:
            tree = ast.parse(text, mode='eval')
        except SyntaxError:
            raise SympifyError(x)
        return _make(_tree(tree, text))
    raise Unsupported(f'sympify({type(x).__name__})')

class _Namespace:
    def __init__(self, name, **kw):
        self.__name__ = name
        self.__dict__.update(kw)
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'{self.__name__}.{name}')

def _sympify_call(x, *args, **kw):
    if args or kw:
        raise Unsupported('arguments of sympify()')
    return _sympify(x)

_CLASSES = dict(Basic=Basic, Expr=Expr, Symbol=Symbol, Float=Float, Integer=Integer, Number=Number, Rational=Rational)

SYMPY = _Namespace('sympy', sympify=_sympify_call, S=_sympify_call, SympifyError=SympifyError, **_CLASSES)
SYMPY.core = _Namespace('sympy.core', expr=_Namespace('sympy.core.expr', Expr=Expr), **_CLASSES)
SYMPY.core.numbers = SYMPY.core.symbol = SYMPY.core.basic = SYMPY.core.sympify = SYMPY

####################################################################################################

class RepresenterError(Exception):
    pass

def _plain(x):
    if x is None or type(x) in (str, builtins.bool, builtins.int, builtins.float) or isinstance(x, (Fraction, SymReal)):
        return x
    if type(x) is list:
        return [_plain(i) for i in x]
    if type(x) is dict:
        return {_plain(k): _plain(v) for k, v in x.items()}
    raise RepresenterError(f'cannot represent an object of {type(x)}')

class Yaml:

    def __init__(self):
        import yaml
        self._yaml = yaml
        self._documents = {}
        self.SafeLoader, self.Loader, self.FullLoader = yaml.SafeLoader, yaml.Loader, yaml.FullLoader
        self.YAMLError = yaml.YAMLError

    def dump(self, data, stream=None, **kw):
        token = f'document: {len(self._documents)}\n'
        self._documents[token] = _plain(data)
        if stream is None:
            return token
        stream.write(token)

    def safe_dump(self, data, stream=None, **kw):
        return self.dump(data, stream, **kw)

    def load(self, stream, Loader=None):
        text = stream.read() if hasattr(stream, 'read') else stream
        if text in self._documents:
            return _plain(self._documents[text])
        return self._yaml.load(text, Loader=Loader or self._yaml.SafeLoader)

    def safe_load(self, stream):
        return self.load(stream)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'yaml.{name}')

YAML = Yaml()
