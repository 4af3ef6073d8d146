"""Stand-in for the part of sympy used by the measurements: arithmetic expressions over named symbols with exact (symbolic) numbers."""
import ast
import types
from fractions import Fraction

from . import sym as S


def number(text):
    v = S.parse_token(text)
    return S.sym(Fraction(text)) if v is None else v


class SympifyError(ValueError):
    pass


class Expr:
    """tree: ('n', value) ('s', name) (op, left, right)"""

    def __new__(cls, tree):
        kind = cls
        if cls is Expr and tree[0] == 'n':
            v = tree[1]
            kind = Float if not v.is_const or Fraction(v.value).denominator != 1 else Integer
        elif cls is Expr and tree[0] == 's':
            kind = Symbol
        o = object.__new__(kind)
        o.tree = tree
        return o

    def __init__(self, tree):
        pass

    def _names(self, t):
        if t[0] == 's':
            return {t[1]}
        if t[0] == 'n':
            return set()
        return self._names(t[1]) | self._names(t[2])

    @property
    def free_symbols(self):
        return {Symbol(n) for n in self._names(self.tree)}

    @property
    def is_number(self):
        return not self._names(self.tree)

    def subs(self, *args):
        if len(args) == 2:
            pairs = [args]
        else:
            m = args[0]
            pairs = list(m.items()) if isinstance(m, dict) else list(m)
            if isinstance(m, dict):
                pairs.sort(key=lambda p: str(p[0]))
        t = self.tree
        for k, v in pairs:
            t = self._replace(t, str(k), sympify(v).tree)
        return Expr(t)

    xreplace = subs

    def _replace(self, t, name, by):
        if t[0] == 's':
            return by if t[1] == name else t
        if t[0] == 'n':
            return t
        return (t[0], self._replace(t[1], name, by), self._replace(t[2], name, by))

    def _value(self, t):
        if t[0] == 's':
            raise TypeError('Cannot convert expression to float')
        if t[0] == 'n':
            return t[1]
        a, b = self._value(t[1]), self._value(t[2])
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b}[t[0]]()

    def evalf(self, n=15, *a, **k):
        if not self.is_number:
            return self
        v = S.sym(self._value(self.tree))
        if n < 15:
            # n significant digits
            e = S.fresh_real('evalf')
            r = S.run()
            d = Fraction(1, 10**n)
            r.assume(S.zb(e >= -d))
            r.assume(S.zb(e <= d))
            v = v * (1 + e)
        return Expr(('n', v))

    n = evalf

    def __float__(self):
        return self._value(self.tree)

    def __int__(self):
        return int(self._value(self.tree))

    def _str(self, t):
        if t[0] == 's':
            return t[1]
        if t[0] == 'n':
            v = t[1]
            if v.is_const and Fraction(v.value).denominator == 1:
                return str(int(Fraction(v.value)))
            if v.is_const:
                f = Fraction(v.value)
                return f'({f.numerator}/{f.denominator})'
            return str(v)
        return f'({self._str(t[1])} {t[0]} {self._str(t[2])})'

    def __str__(self):
        return self._str(self.tree)

    __repr__ = __str__

    def __eq__(self, o):
        return str(self) == str(o)

    def __hash__(self):
        return hash(str(self))


class Integer(Expr):
    pass


class Float(Expr):
    pass


class Symbol(Expr):
    def __new__(cls, tree, **k):
        return Expr.__new__(cls, tree if isinstance(tree, tuple) else ('s', tree))

    def __init__(self, *a, **k):
        pass

    @property
    def name(self):
        return self.tree[1]


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}


def _tree(n, src):
    if isinstance(n, ast.Expression):
        return _tree(n.body, src)
    if isinstance(n, ast.BinOp) and type(n.op) in OPS:
        t = (OPS[type(n.op)], _tree(n.left, src), _tree(n.right, src))
        if t[1][0] == t[2][0] == 'n' and (t[0] != '**'):
            return ('n', S.sym(object.__new__(Expr)._value(t)))
        return t
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        t = _tree(n.operand, src)
        if t[0] == 'n':
            return ('n', -t[1])
        return ('*', ('n', S.sym(-1)), t)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.UAdd):
        return _tree(n.operand, src)
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        return ('n', number(ast.get_source_segment(src, n)))
    if isinstance(n, ast.Name):
        return ('s', n.id)
    raise S.Unsupported('sympify ' + ast.dump(n))


def sympify(x, *a, **k):
    if isinstance(x, Expr):
        return x
    if isinstance(x, str):
        src = x.strip()
        try:
            t = ast.parse(src, mode='eval')
        except SyntaxError as e:
            raise SympifyError(str(e))
        return Expr(_tree(t, src))
    return Expr(('n', S.sym(x)))


def module():
    m = types.ModuleType('sympy')
    m.sympify, m.S, m.Symbol, m.Integer, m.Float, m.SympifyError = sympify, sympify, Symbol, Integer, Float, SympifyError
    m.Expr = Expr
    m.Rational = Float
    m.symbols = Symbol
    m.core = types.ModuleType('sympy.core')
    m.core.expr = types.ModuleType('sympy.core.expr')
    m.core.expr.Expr = Expr
    return m


MODULE = module()


# -- ast: numerals standing for symbolic values ------------------------------------------------------

class _Numbers(ast.NodeTransformer):
    def __init__(self, src):
        self.src = src

    def visit_Constant(self, n):
        if isinstance(n.value, (int, float)):
            text = ast.get_source_segment(self.src, n)
            if text and S.parse_token(text) is not None:
                return ast.copy_location(ast.Call(ast.Name('float', ast.Load()), [ast.Constant(text)], []), n)
        return n


def ast_module():
    m = types.ModuleType('ast')
    for k, v in vars(ast).items():
        if not k.startswith('__'):
            setattr(m, k, v)

    def parse(source, *a, **k):
        return ast.fix_missing_locations(_Numbers(source).visit(ast.parse(source, *a, **k)))
    m.parse = parse
    return m


AST = ast_module()


def yaml_numbers():
    """yaml writes and reads the numerals"""
    import yaml
    from .shims import FloatShim

    def represent(d, x):
        return d.represent_scalar('tag:yaml.org,2002:float', str(x))

    def construct(loader, node):
        text = loader.construct_scalar(node)
        v = S.parse_token(text)
        return float(text) if v is None else v
    for c in (S.SymReal,):
        yaml.Dumper.add_representer(c, represent)
    yaml.SafeLoader.add_constructor('tag:yaml.org,2002:float', construct)
