"""Abstract interpreter for the JavaScript sources: bytes of the entropy source are symbols, undecidable branches fork."""
import json
import math
import os
import subprocess
from ..terms import Undecided

HERE = os.path.dirname(os.path.abspath(__file__))


class BadJS(Exception):
    pass


def parse(files):
    p = subprocess.run(['node', HERE + '/ast.js'] + list(files), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise Undecided('JavaScript front end: ' + p.stderr[-300:])
    return json.loads(p.stdout)


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


class _Undef:
    def __repr__(self):
        return 'undefined'

    def __bool__(self):
        return False


UNDEF = _Undef()


class Sym:
    """expression over entropy bytes: e = ('tok', i) | (op, a, b)"""

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return show(self.e)


def show(e):
    if isinstance(e, Sym):
        return show(e.e)
    if isinstance(e, tuple):
        if e[0] == 'tok':
            return 'random[%d]' % e[1]
        return '(%s)' % (' %s ' % e[0]).join(show(x) for x in e[1:])
    return repr(e)


def toks(e, out):
    if isinstance(e, Sym):
        e = e.e
    if isinstance(e, tuple):
        if e[0] == 'tok':
            out.add(e[1])
        else:
            for x in e[1:]:
                toks(x, out)
    return out


class Obj:
    def __init__(self, cls='Object', props=None):
        self.cls = cls
        self.props = props if props is not None else {}
        self.items = None       # arrays

    def __repr__(self):
        return '<%s>' % self.cls


class Func:
    def __init__(self, node, env, this=None):
        self.node, self.env, self.this = node, env, this
        self.props = {}


class Native:
    def __init__(self, f, new=None, props=None, name=''):
        self.f, self.new, self.props, self.name = f, new, props or {}, name


class Throw(Exception):
    def __init__(self, v):
        self.v = v


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    def __init__(self, label=None):
        self.label = label


class Cont(Exception):
    def __init__(self, label=None):
        self.label = label


class Env:
    def __init__(self, parent=None):
        self.v = {}
        self.parent = parent

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e
            e = e.parent
        return None


def err(kind, msg=''):
    return Throw(Obj(kind, {'message': msg, 'name': kind}))


def toint32(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        return 0
    x = int(x) & 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def num(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, float)):
        return x
    if x is UNDEF:
        return math.nan
    if x is None:
        return 0
    if isinstance(x, str):
        t = x.strip()
        if not t:
            return 0
        try:
            return norm(int(t, 0) if t[:2].lower() in ('0x', '0b', '0o') else float(t))
        except ValueError:
            return math.nan
    if isinstance(x, Obj) and x.items is not None:
        return num(','.join(tostr(i) for i in x.items))
    return math.nan


def norm(x):
    if isinstance(x, float) and not math.isinf(x) and not math.isnan(x) and x == int(x) and abs(x) < 2 ** 53:
        return int(x)
    return x


def tostr(x):
    if isinstance(x, str):
        return x
    if x is UNDEF:
        return 'undefined'
    if x is None:
        return 'null'
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, Sym):
        raise Undecided('text of an entropy byte')
    if isinstance(x, float):
        if math.isnan(x):
            return 'NaN'
        if math.isinf(x):
            return 'Infinity' if x > 0 else '-Infinity'
        return repr(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Obj) and x.items is not None:
        return ','.join(tostr(i) for i in x.items)
    return '[object]'


def binop(op, a, b):
    """concrete operators"""
    if op == '+':
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, Obj) or isinstance(b, Obj):
            return tostr(a) + tostr(b)
        return norm(num(a) + num(b))
    if op == '===' or op == '!==':
        if isinstance(a, bool) != isinstance(b, bool):
            r = False
        elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
            r = a == b
        elif isinstance(a, str) and isinstance(b, str):
            r = a == b
        else:
            r = a is b
        return r if op == '===' else not r
    if op == '==' or op == '!=':
        nul = lambda x: x is None or x is UNDEF
        if nul(a) or nul(b):
            r = nul(a) and nul(b)
        elif isinstance(a, str) and isinstance(b, str):
            r = a == b
        elif isinstance(a, (Obj, Func, Native)) or isinstance(b, (Obj, Func, Native)):
            r = a is b
        else:
            r = num(a) == num(b)
        return r if op == '==' else not r
    if op in ('<', '>', '<=', '>='):
        if isinstance(a, str) and isinstance(b, str):
            x, y = a, b
        else:
            x, y = num(a), num(b)
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
    x, y = num(a), num(b)
    if op == '-':
        return norm(x - y)
    if op == '*':
        return norm(x * y)
    if op == '/':
        if y == 0:
            return math.nan if x == 0 or x != x else math.copysign(math.inf, x)
        return norm(x / y)
    if op == '%':
        if y == 0 or isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
            return math.nan
        return norm(math.fmod(x, y))
    if op == '**':
        return norm(x ** y)
    if op == '<<':
        return toint32(toint32(x) << (toint32(y) & 31))
    if op == '>>':
        return toint32(x) >> (toint32(y) & 31)
    if op == '>>>':
        return (toint32(x) & 0xffffffff) >> (toint32(y) & 31)
    if op == '&':
        return toint32(toint32(x) & toint32(y))
    if op == '|':
        return toint32(toint32(x) | toint32(y))
    if op == '^':
        return toint32(toint32(x) ^ toint32(y))
    raise Undecided('operator ' + op)


def unop(op, x):
    if op == '!':
        return not truthy(x)
    if op == '-':
        return norm(-num(x))
    if op == '+':
        return norm(num(x))
    if op == '~':
        return ~toint32(num(x))
    if op == 'bool':
        return truthy(x)
    if op == 'u8':
        return toint32(num(x)) & 255
    raise Undecided('operator ' + op)


def truthy(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return not (x == 0 or x != x)
    return bool(x) if isinstance(x, (bool, str)) else not (x is UNDEF or x is None)


def ev(e, val):
    """evaluate a symbolic expression with token values"""
    if isinstance(e, Sym):
        e = e.e
    if not isinstance(e, tuple):
        return e
    if e[0] == 'tok':
        return val[e[1]]
    xs = [ev(x, val) for x in e[1:]]
    return unop(e[0], xs[0]) if len(xs) == 1 else binop(e[0], xs[0], xs[1])


OPS = {'PlusToken': '+', 'MinusToken': '-', 'AsteriskToken': '*', 'SlashToken': '/', 'PercentToken': '%', 'AsteriskAsteriskToken': '**',
       'EqualsEqualsEqualsToken': '===', 'ExclamationEqualsEqualsToken': '!==', 'EqualsEqualsToken': '==', 'ExclamationEqualsToken': '!=',
       'LessThanToken': '<', 'GreaterThanToken': '>', 'LessThanEqualsToken': '<=', 'GreaterThanEqualsToken': '>=',
       'AmpersandToken': '&', 'BarToken': '|', 'CaretToken': '^', 'LessThanLessThanToken': '<<', 'GreaterThanGreaterThanToken': '>>',
       'GreaterThanGreaterThanGreaterThanToken': '>>>'}
ASSIGN = {k[:-5] + 'EqualsToken': v for k, v in OPS.items() if v in ('+', '-', '*', '/', '%', '**', '&', '|', '^', '<<', '>>', '>>>')}


class Interp:
    def __init__(self, glob, choices=(), max_steps=4000000):
        self.glob = Env()
        self.glob.v.update(glob)
        self.choices = list(choices)
        self.made = []
        self.poss = {}          # token -> set of values
        self.steps = 0
        self.max_steps = max_steps
        self.line = 0

    # ---------------------------------------------------------- decisions
    def cond(self, v):
        if not isinstance(v, Sym):
            return truthy(v)
        ts = sorted(toks(v, set()))
        if len(ts) == 1:
            t = ts[0]
            p = self.poss.get(t, range(256))
            yes = [x for x in p if truthy(ev(v, {t: x}))]
            if len(yes) == len(p):
                return True
            if not yes:
                return False
            d = self.choose()
            ys = set(yes)
            self.poss[t] = yes if d else [x for x in p if x not in ys]
            return d
        return self.choose()

    def choose(self):
        i = len(self.made)
        d = self.choices[i] if i < len(self.choices) else True
        self.made.append(d)
        return d

    # ---------------------------------------------------------- statements
    def hoist(self, stmts, env):
        for s in stmts:
            if s['k'] == 'FunctionDeclaration':
                env.v[s['name']['escapedText']] = Func(s, env)
        self.hoistvar(stmts, env)

    def hoistvar(self, n, env):
        if isinstance(n, list):
            for x in n:
                self.hoistvar(x, env)
        elif isinstance(n, dict):
            if n['k'] in ('FunctionExpression', 'FunctionDeclaration', 'ArrowFunction', 'MethodDeclaration', 'ClassDeclaration'):
                return
            if n['k'] == 'VariableDeclarationList':
                for d in n['declarations']:
                    if d['name']['k'] == 'Identifier':
                        env.v.setdefault(d['name']['escapedText'], UNDEF)
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    self.hoistvar(v, env) if not isinstance(v, dict) or 'k' in v else None

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('too many steps')
        self.line = s['line']
        k = s['k']
        if k == 'ExpressionStatement':
            self.expr(s['expression'], env)
        elif k == 'VariableStatement':
            self.decl(s['declarationList'], env)
        elif k == 'IfStatement':
            if self.cond(self.expr(s['expression'], env)):
                self.stmt(s['thenStatement'], env)
            elif 'elseStatement' in s:
                self.stmt(s['elseStatement'], env)
        elif k == 'Block':
            self.block(s['statements'], env)
        elif k == 'ReturnStatement':
            raise Ret(self.expr(s['expression'], env) if 'expression' in s else UNDEF)
        elif k == 'ThrowStatement':
            raise Throw(self.expr(s['expression'], env))
        elif k == 'ForStatement':
            i = s.get('initializer')
            if i is not None:
                if i['k'] == 'VariableDeclarationList':
                    self.decl(i, env)
                else:
                    self.expr(i, env)
            while 'condition' not in s or self.cond(self.expr(s['condition'], env)):
                if not self.body(s['statement'], env):
                    break
                if 'incrementor' in s:
                    self.expr(s['incrementor'], env)
        elif k == 'WhileStatement':
            while self.cond(self.expr(s['expression'], env)):
                if not self.body(s['statement'], env):
                    break
        elif k == 'DoStatement':
            while True:
                if not self.body(s['statement'], env):
                    break
                if not self.cond(self.expr(s['expression'], env)):
                    break
        elif k == 'ForOfStatement':
            for x in list(self.iter(self.expr(s['expression'], env))):
                i = s['initializer']
                if i['k'] == 'VariableDeclarationList':
                    self.bind(i['declarations'][0]['name'], x, env)
                else:
                    self.assign(i, x, env)
                if not self.body(s['statement'], env):
                    break
        elif k == 'BreakStatement':
            raise Brk()
        elif k == 'ContinueStatement':
            raise Cont()
        elif k == 'TryStatement':
            try:
                try:
                    self.block(s['tryBlock']['statements'], env)
                except Throw as t:
                    if 'catchClause' not in s:
                        raise
                    c = s['catchClause']
                    if 'variableDeclaration' in c:
                        self.bind(c['variableDeclaration']['name'], t.v, env)
                    self.block(c['block']['statements'], env)
            finally:
                if 'finallyBlock' in s:
                    self.block(s['finallyBlock']['statements'], env)
        elif k in ('FunctionDeclaration', 'EmptyStatement'):
            pass
        elif k == 'SwitchStatement':
            v = self.expr(s['expression'], env)
            on = False
            cl = s['caseBlock']['clauses']
            try:
                for c in cl:
                    if not on and c['k'] == 'CaseClause' and self.cond(self.bin('===', v, self.expr(c['expression'], env))):
                        on = True
                    if on:
                        self.block(c['statements'], env)
                if not on:
                    for c in cl:
                        on = on or c['k'] == 'DefaultClause'
                        if on:
                            self.block(c['statements'], env)
            except Brk:
                pass
        else:
            raise Undecided('JavaScript %s at line %d' % (k, s['line']))

    def body(self, s, env):
        try:
            self.stmt(s, env)
        except Brk:
            return False
        except Cont:
            pass
        return True

    def decl(self, l, env):
        for d in l['declarations']:
            if 'initializer' in d:
                self.bind(d['name'], self.expr(d['initializer'], env), env)
            elif d['name']['k'] == 'Identifier':
                env.v.setdefault(d['name']['escapedText'], UNDEF)

    def bind(self, n, v, env):
        if n['k'] == 'Identifier':
            env.v[n['escapedText']] = v
        elif n['k'] == 'ArrayBindingPattern':
            it = list(self.iter(v))
            for i, e in enumerate(n['elements']):
                if e['k'] == 'BindingElement':
                    self.bind(e['name'], it[i] if i < len(it) else UNDEF, env)
        elif n['k'] == 'ObjectBindingPattern':
            for e in n['elements']:
                self.bind(e['name'], self.get(v, e.get('propertyName', e['name'])['escapedText']), env)
        else:
            raise Undecided('binding ' + n['k'])

    def iter(self, v):
        if isinstance(v, Obj) and v.items is not None:
            return v.items
        if isinstance(v, str):
            return list(v)
        raise Undecided('iteration over %r' % (v,))

    # ---------------------------------------------------------- expressions
    def bin(self, op, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and x.e[0] == 'tok':
                    if (op in ('|', '^', '+') and y == 0 and not isinstance(y, (bool, str))) or (op == '&' and y == 255):
                        return x
            if op in ('===', '!==') and not isinstance(a, (Sym, int, float)) | isinstance(b, (Sym, int, float)) and \
                    not (isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float))):
                return op == '!=='
            if op in ('===', '!==') and (isinstance(a, (Obj, str, Func, Native, bool)) or isinstance(b, (Obj, str, Func, Native, bool)) or a in (UNDEF, None) or b in (UNDEF, None)):
                return op == '!=='
            if isinstance(a, (Obj, str)) or isinstance(b, (Obj, str)):
                raise Undecided('text of an entropy byte')
            return Sym((op, a, b))
        return binop(op, a, b)

    def expr(self, e, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('too many steps')
        k = e['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Undecided('JavaScript %s at line %d' % (k, e['line']))
        return m(e, env)

    def x_Identifier(self, e, env):
        n = e['escapedText']
        if n == 'undefined':
            return UNDEF
        s = env.find(n)
        if s is None:
            raise err('ReferenceError', n + ' is not defined')
        return s.v[n]

    def x_NumericLiteral(self, e, env):
        return norm(float(int(e['text'])) if e['text'].isdigit() else float(e['text']))

    def x_StringLiteral(self, e, env):
        return e['text']
    x_NoSubstitutionTemplateLiteral = x_StringLiteral

    def x_TemplateExpression(self, e, env):
        s = e['head'].get('text', '')
        for t in e['templateSpans']:
            s += tostr(self.expr(t['expression'], env)) + t['literal'].get('text', '')
        return s

    def x_TrueKeyword(self, e, env):
        return True

    def x_FalseKeyword(self, e, env):
        return False

    def x_NullKeyword(self, e, env):
        return None

    def x_ThisKeyword(self, e, env):
        s = env.find('this')
        return s.v['this'] if s else UNDEF

    def x_ParenthesizedExpression(self, e, env):
        return self.expr(e['expression'], env)

    def x_FunctionExpression(self, e, env):
        return Func(e, env)

    def x_ArrowFunction(self, e, env):
        return Func(e, env)

    def x_TypeOfExpression(self, e, env):
        x = e['expression']
        while x['k'] == 'ParenthesizedExpression':
            x = x['expression']
        if x['k'] == 'Identifier' and x['escapedText'] != 'undefined' and env.find(x['escapedText']) is None:
            return 'undefined'
        v = self.expr(x, env)
        if isinstance(v, bool):
            return 'boolean'
        if isinstance(v, (int, float, Sym)):
            return 'number'
        if isinstance(v, str):
            return 'string'
        if v is UNDEF:
            return 'undefined'
        if isinstance(v, (Func, Native)):
            return 'function'
        return 'object'

    def x_VoidExpression(self, e, env):
        self.expr(e['expression'], env)
        return UNDEF

    def x_ConditionalExpression(self, e, env):
        return self.expr(e['whenTrue'] if self.cond(self.expr(e['condition'], env)) else e['whenFalse'], env)

    def x_ArrayLiteralExpression(self, e, env):
        o = Obj('Array')
        o.items = []
        for x in e['elements']:
            if x['k'] == 'SpreadElement':
                o.items += self.iter(self.expr(x['expression'], env))
            else:
                o.items.append(self.expr(x, env))
        return o

    def x_ObjectLiteralExpression(self, e, env):
        o = Obj()
        for p in e['properties']:
            if p['k'] == 'PropertyAssignment' and p['name']['k'] in ('Identifier', 'StringLiteral'):
                o.props[p['name'].get('escapedText', p['name'].get('text'))] = self.expr(p['initializer'], env)
            elif p['k'] == 'ShorthandPropertyAssignment':
                o.props[p['name']['escapedText']] = self.x_Identifier(p['name'], env)
            else:
                raise Undecided('object literal')
        return o

    def x_PrefixUnaryExpression(self, e, env):
        op = e['operator']
        if op in ('PlusPlusToken', 'MinusMinusToken'):
            v = self.bin('+' if op[0] == 'P' else '-', self.expr(e['operand'], env), 1)
            self.assign(e['operand'], v, env)
            return v
        v = self.expr(e['operand'], env)
        o = {'ExclamationToken': '!', 'MinusToken': '-', 'PlusToken': '+', 'TildeToken': '~'}[op]
        if isinstance(v, Sym):
            return v if o == '+' else Sym((o, v))
        return unop(o, v)

    def x_PostfixUnaryExpression(self, e, env):
        v = self.expr(e['operand'], env)
        self.assign(e['operand'], self.bin('+' if e['operator'] == 'PlusPlusToken' else '-', v, 1), env)
        return v

    def x_BinaryExpression(self, e, env):
        op = e['operatorToken']['k']
        if op == 'EqualsToken':
            v = self.expr(e['right'], env)
            self.assign(e['left'], v, env)
            return v
        if op == 'AmpersandAmpersandToken':
            a = self.expr(e['left'], env)
            return self.expr(e['right'], env) if self.cond(a) else a
        if op == 'BarBarToken':
            a = self.expr(e['left'], env)
            return a if self.cond(a) else self.expr(e['right'], env)
        if op == 'QuestionQuestionToken':
            a = self.expr(e['left'], env)
            return self.expr(e['right'], env) if a is UNDEF or a is None else a
        if op == 'CommaToken':
            self.expr(e['left'], env)
            return self.expr(e['right'], env)
        if op in ASSIGN:
            v = self.bin(ASSIGN[op], self.expr(e['left'], env), self.expr(e['right'], env))
            self.assign(e['left'], v, env)
            return v
        if op in OPS:
            return self.bin(OPS[op], self.expr(e['left'], env), self.expr(e['right'], env))
        if op == 'InKeyword':
            o = self.expr(e['right'], env)
            n = tostr(self.expr(e['left'], env))
            if isinstance(o, (Obj, Native, Func)):
                return self.get(o, n) is not UNDEF
        if op == 'InstanceOfKeyword':
            a, b = self.expr(e['left'], env), self.expr(e['right'], env)
            if isinstance(b, Native):
                return isinstance(a, Obj) and (a.cls == b.name or b.name == 'Object' or b.name == 'Error' and a.cls.endswith('Error'))
        raise Undecided('operator %s at line %d' % (op, e['line']))

    def x_PropertyAccessExpression(self, e, env):
        o = self.expr(e['expression'], env)
        if 'questionDotToken' in e and (o is UNDEF or o is None):
            return UNDEF
        return self.get(o, e['name']['escapedText'])

    def x_ElementAccessExpression(self, e, env):
        o = self.expr(e['expression'], env)
        if 'questionDotToken' in e and (o is UNDEF or o is None):
            return UNDEF
        i = self.expr(e['argumentExpression'], env)
        return self.index(o, i)

    def index(self, o, i):
        if isinstance(i, Sym):
            raise Undecided('index chosen by entropy')
        if isinstance(o, Obj) and o.items is not None and isinstance(i, (int, float)) and not isinstance(i, bool):
            return o.items[i] if isinstance(i, int) and 0 <= i < len(o.items) else UNDEF
        if isinstance(o, str) and isinstance(i, int):
            return o[i] if 0 <= i < len(o) else UNDEF
        return self.get(o, tostr(i))

    def get(self, o, n):
        if o is UNDEF or o is None:
            raise err('TypeError', 'property %s of %r' % (n, o))
        if isinstance(o, Obj):
            if n in o.props:
                return o.props[n]
            if o.items is not None:
                if n == 'length':
                    return len(o.items)
                if n == 'byteLength' and o.cls == 'Uint8Array':
                    return len(o.items)
                f = getattr(self, 'arr_' + n, None)
                if f is not None:
                    return Native(lambda it, this, *a: f(o, *a))
                if n.isdigit():
                    return self.index(o, int(n))
                raise Undecided('array member ' + n)
            return UNDEF
        if isinstance(o, (Native, Func)):
            if n in o.props:
                return o.props[n]
            if n in ('call', 'apply', 'bind'):
                if n == 'call':
                    return Native(lambda it, this, *a: self.call(o, a[0] if a else UNDEF, list(a[1:])))
                if n == 'apply':
                    return Native(lambda it, this, t=UNDEF, l=None: self.call(o, t, list(self.iter(l)) if isinstance(l, Obj) else []))
                return Native(lambda it, this, *a: Native(lambda it2, th2, *b: self.call(o, a[0] if a else UNDEF, list(a[1:]) + list(b))))
            return UNDEF
        if isinstance(o, str):
            if n == 'length':
                return len(o)
            raise Undecided('string member ' + n)
        return UNDEF

    def assign(self, t, v, env):
        k = t['k']
        if k == 'Identifier':
            s = env.find(t['escapedText']) or self.glob
            s.v[t['escapedText']] = v
        elif k in ('PropertyAccessExpression', 'ElementAccessExpression'):
            o = self.expr(t['expression'], env)
            n = t['name']['escapedText'] if k[0] == 'P' else self.expr(t['argumentExpression'], env)
            if isinstance(n, Sym):
                raise Undecided('index chosen by entropy')
            if isinstance(o, Obj) and o.items is not None and isinstance(n, int):
                if n < len(o.items):
                    o.items[n] = self.element(o, v)
                elif o.cls == 'Array':
                    o.items += [UNDEF] * (n - len(o.items)) + [v]
            elif isinstance(o, (Obj, Native, Func)):
                o.props[tostr(n)] = v
            elif o is UNDEF or o is None:
                raise err('TypeError')
        elif k == 'ParenthesizedExpression':
            self.assign(t['expression'], v, env)
        elif k in ('ArrayLiteralExpression',):
            it = list(self.iter(v))
            for i, x in enumerate(t['elements']):
                self.assign(x, it[i] if i < len(it) else UNDEF, env)
        else:
            raise Undecided('assignment to ' + k)

    def element(self, o, v):
        if o.cls == 'Uint8Array':
            if isinstance(v, Sym):
                return v if v.e[0] == 'tok' else Sym(('u8', v))
            return unop('u8', v)
        return v

    def args(self, e, env):
        out = []
        for a in e.get('arguments', []):
            if a['k'] == 'SpreadElement':
                out += self.iter(self.expr(a['expression'], env))
            else:
                out.append(self.expr(a, env))
        return out

    def x_CallExpression(self, e, env):
        c = e['expression']
        while c['k'] == 'ParenthesizedExpression':
            c = c['expression']
        this = UNDEF
        if c['k'] in ('PropertyAccessExpression', 'ElementAccessExpression'):
            this = self.expr(c['expression'], env)
            if 'questionDotToken' in c and (this is UNDEF or this is None):
                return UNDEF
            f = self.get(this, c['name']['escapedText']) if c['k'][0] == 'P' else self.index(this, self.expr(c['argumentExpression'], env))
        else:
            f = self.expr(c, env)
        if 'questionDotToken' in e and (f is UNDEF or f is None):
            return UNDEF
        self.line = e['line']
        return self.call(f, this, self.args(e, env))

    def x_NewExpression(self, e, env):
        f = self.expr(e['expression'], env)
        a = self.args(e, env)
        if isinstance(f, Native) and f.new is not None:
            return f.new(self, *a)
        if isinstance(f, Func):
            o = Obj(f.node.get('name', {}).get('escapedText', 'Object'))
            r = self.call(f, o, a)
            return r if isinstance(r, Obj) else o
        if f is UNDEF or isinstance(f, (int, float, str)) or f is None:
            raise err('TypeError', 'not a constructor')
        raise Undecided('new %r' % (f,))

    def call(self, f, this, a):
        if isinstance(f, Native):
            if f.f is None:
                raise err('TypeError')
            return f.f(self, this, *a)
        if not isinstance(f, Func):
            raise err('TypeError', 'not a function')
        env = Env(f.env)
        n = f.node
        if n['k'] != 'ArrowFunction':
            env.v['this'] = this
            o = Obj('Array')
            o.items = list(a)
            env.v['arguments'] = o
        for i, p in enumerate(n.get('parameters', [])):
            if 'dotDotDotToken' in p:
                v = Obj('Array')
                v.items = list(a[i:])
            else:
                v = a[i] if i < len(a) else UNDEF
                if v is UNDEF and 'initializer' in p:
                    v = self.expr(p['initializer'], env)
            self.bind(p['name'], v, env)
        b = n['body']
        if b['k'] != 'Block':
            return self.expr(b, env)
        self.hoist(b['statements'], env)
        try:
            self.block(b['statements'], env)
        except Ret as r:
            return r.v
        return UNDEF

    # ---------------------------------------------------------- arrays
    def mk(self, o, items):
        r = Obj(o.cls)
        r.items = list(items)
        return r

    def arr_forEach(self, o, f, this=UNDEF):
        for i, x in enumerate(list(o.items)):
            self.call(f, this, [x, i, o])
        return UNDEF

    def arr_map(self, o, f, this=UNDEF):
        r = self.mk(o, [])
        r.items = [self.element(r, self.call(f, this, [x, i, o])) for i, x in enumerate(list(o.items))]
        return r

    def arr_every(self, o, f, this=UNDEF):
        for i, x in enumerate(list(o.items)):
            if not self.cond(self.call(f, this, [x, i, o])):
                return False
        return True

    def arr_some(self, o, f, this=UNDEF):
        for i, x in enumerate(list(o.items)):
            if self.cond(self.call(f, this, [x, i, o])):
                return True
        return False

    def arr_push(self, o, *a):
        o.items += list(a)
        return len(o.items)

    def arr_reduce(self, o, f, *init):
        it = list(o.items)
        acc = init[0] if init else it.pop(0)
        for i, x in enumerate(it):
            acc = self.call(f, UNDEF, [acc, x, i, o])
        return acc

    def rng(self, o, a, b):
        n = len(o.items)

        def c(x, d):
            x = d if x is UNDEF else int(num(x))
            return max(0, x + n) if x < 0 else min(x, n)
        return c(a, 0), c(b, n)

    def arr_slice(self, o, a=UNDEF, b=UNDEF):
        a, b = self.rng(o, a, b)
        return self.mk(o, o.items[a:b])

    def arr_subarray(self, o, a=UNDEF, b=UNDEF):
        a, b = self.rng(o, a, b)
        base, off = getattr(o, 'view', (o, 0))
        r = Obj(o.cls)
        r.items = View(base.items if not isinstance(base.items, View) else base.items, a, max(0, b - a))
        return r

    def arr_fill(self, o, v, a=UNDEF, b=UNDEF):
        a, b = self.rng(o, a, b)
        for i in range(a, b):
            o.items[i] = self.element(o, v)
        return o

    def arr_set(self, o, src, off=0):
        for i, x in enumerate(self.iter(src)):
            o.items[off + i] = self.element(o, x)
        return UNDEF

    def arr_indexOf(self, o, v):
        for i, x in enumerate(list(o.items)):
            if self.cond(self.bin('===', x, v)):
                return i
        return -1

    def arr_concat(self, o, *ls):
        r = self.mk(o, o.items)
        for l in ls:
            r.items += self.iter(l) if isinstance(l, Obj) and l.items is not None else [l]
        return r


class View(list):
    """window on another list"""

    def __init__(self, base, a, n):
        super().__init__()
        self.base, self.a, self.n = base, a, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self.base[self.a + k] for k in range(*i.indices(self.n))]
        return self.base[self.a + i]

    def __setitem__(self, i, v):
        self.base[self.a + i] = v

    def __iter__(self):
        return iter([self.base[self.a + k] for k in range(self.n)])


def std(crypto_at=('globalThis',), deliver=None):
    """global bindings; deliver(interp, array) fills an array from the entropy source; None: no Web Crypto"""
    u8 = lambda it, x=0, *r: _u8(it, x)
    g = {}

    def error(kind):
        return Native(lambda it, this, m='', *a: Obj(kind, {'message': m, 'name': kind}), lambda it, m='', *a: Obj(kind, {'message': m, 'name': kind}), name=kind)
    for k in ('Error', 'TypeError', 'RangeError', 'ReferenceError'):
        g[k] = error(k)
    frm = Native(lambda it, this, src, f=UNDEF: _u8(it, src) if f is UNDEF else it.arr_map(_u8(it, src), f))
    g['Uint8Array'] = Native(lambda it, this, *a: _raise(err('TypeError')), u8, {'from': frm}, 'Uint8Array')
    g['Uint8ClampedArray'] = g['Uint8Array']

    def arr_from(it, this, src, f=UNDEF):
        r = Obj('Array')
        if isinstance(src, Obj) and src.items is None and isinstance(src.props.get('length'), int):
            r.items = [UNDEF] * src.props['length']
        else:
            r.items = list(it.iter(src))
        return r if f is UNDEF else it.arr_map(r, f)

    def arr_new(it, *a):
        r = Obj('Array')
        r.items = [UNDEF] * a[0] if len(a) == 1 and isinstance(a[0], int) else list(a)
        return r
    g['Array'] = Native(lambda it, this, *a: arr_new(it, *a), arr_new, {'from': Native(arr_from), 'isArray': Native(lambda it, this, x: isinstance(x, Obj) and x.cls == 'Array')}, 'Array')
    g['Number'] = Native(lambda it, this, x=0: x if isinstance(x, Sym) else norm(num(x)), None, {
        'isInteger': Native(lambda it, this, x=UNDEF: isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Sym)),
        'isSafeInteger': Native(lambda it, this, x=UNDEF: isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Sym)),
        'isFinite': Native(lambda it, this, x=UNDEF: isinstance(x, (int, float)) and not isinstance(x, bool) and not math.isinf(x) and not math.isnan(x)),
        'MAX_SAFE_INTEGER': 2 ** 53 - 1}, 'Number')
    g['NaN'], g['Infinity'] = math.nan, math.inf
    g['isNaN'] = Native(lambda it, this, x=UNDEF: num(x) != num(x))

    def m1(f):
        return Native(lambda it, this, x=UNDEF, *r: norm(f(num(x))) if not isinstance(x, Sym) else x)

    def predictable(nm):
        def f(it, *a):
            it.predictable.append((nm, it.line))
            return Sym(('opaque',)) if False else 0.25
        return f
    g['Math'] = Obj('Math', {'floor': m1(math.floor), 'ceil': m1(math.ceil), 'trunc': m1(math.trunc), 'abs': m1(abs),
                             'min': Native(lambda it, this, *a: norm(min(num(x) for x in a))), 'max': Native(lambda it, this, *a: norm(max(num(x) for x in a))),
                             'random': Native(lambda it, this, *a: predictable('Math.random')(it))})
    g['Date'] = Native(lambda it, this, *a: predictable('Date')(it), lambda it, *a: (predictable('Date')(it), Obj('Date', {'getTime': Native(lambda it, this: 7)}))[1],
                       {'now': Native(lambda it, this: predictable('Date.now')(it))}, 'Date')
    g['performance'] = Obj('performance', {'now': Native(lambda it, this: predictable('performance.now')(it))})
    g['console'] = Obj('console', {k: Native(lambda it, this, *a: UNDEF) for k in ('log', 'warn', 'error', 'info', 'debug')})
    gt = Obj('global')
    vec = []

    def vecnew(it):
        o = Obj('Uint8Vector')
        o.vec = []

        def push(it, this, v=UNDEF):
            o.vec.append(v if isinstance(v, Sym) else unop('u8', v))       # what embind does in a release build
            return UNDEF

        def resize(it, this, n, v=0):
            del o.vec[n:]
            o.vec.extend([v] * (n - len(o.vec)))
            return UNDEF

        def vset(it, this, i, v):
            if 0 <= i < len(o.vec):
                o.vec[i] = v
                return True
            return False
        o.props.update(push_back=Native(push), resize=Native(resize), set=Native(vset), size=Native(lambda it, this: len(o.vec)),
                       get=Native(lambda it, this, i: o.vec[i] if 0 <= i < len(o.vec) else UNDEF), delete=Native(lambda it, this: UNDEF))
        return o
    g['Module'] = Obj('Module', {'Uint8Vector': Native(None, vecnew, name='Uint8Vector')})
    for n in ('globalThis', 'self', 'window'):
        g[n] = Obj(n)
    if deliver is not None:
        c = Obj('Crypto', {'getRandomValues': Native(lambda it, this, a=UNDEF: deliver(it, a))} if deliver != 'nofunc' else {})
        for n in crypto_at:
            g[n].props['crypto'] = c
        if 'globalThis' in crypto_at:
            g['crypto'] = c
    for n in ('globalThis', 'self', 'window'):
        for k, v in g.items():
            if k not in ('globalThis', 'self', 'window', 'Module') and not (k == 'crypto'):
                g[n].props.setdefault(k, v)
    return g


def _raise(x):
    raise x


def _u8(it, x):
    o = Obj('Uint8Array')
    if isinstance(x, Obj) and x.items is not None:
        o.items = []
        o.items = [it.element(o, v) for v in x.items]
        return o
    if isinstance(x, Sym):
        raise Undecided('array size chosen by entropy')
    n = num(x)
    n = 0 if n != n else int(n)
    if n < 0 or n > 1 << 32:
        raise err('RangeError', 'invalid length')
    o.items = [0] * n
    return o


def explore(make, go, max_paths=600, first=None):
    """run all paths (or the first few): make(choices) -> interp; go(interp) -> outcome; yields (interp, outcome)"""
    todo = [()]
    n = 0
    while todo:
        ch = todo.pop()
        n += 1
        if first is not None and n > first:
            return
        if n > max_paths:
            raise Undecided('too many paths')
        it = make(ch)
        it.predictable = []
        out = go(it)
        for i in range(len(it.made) - 1, len(ch) - 1, -1):
            if it.made[i]:
                todo.append(tuple(it.made[:i]) + (False,))
        yield it, out
