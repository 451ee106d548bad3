"""LLVM textual IR reader (clang 18 and rustc's LLVM), with layout, CFG,
post-dominators, natural loops and debug locations."""
import re

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"
 | [%@$!]"(?:[^"\\]|\\.)*"
 | "(?:[^"\\]|\\.)*"
 | [%@$][-a-zA-Z$._0-9]+
 | ![-a-zA-Z$._0-9\\]*
 | \#[0-9]+
 | -?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?
 | -?[0-9]+
 | 0x[KMLHR]?[0-9A-Fa-f]+
 | [a-zA-Z_][-a-zA-Z0-9_.$]*
 | \.\.\.
 | [()\[\]{}<>,=*|:]
''', re.X)


def unq(s):
    """%"x" -> x"""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m[1], 16)), s)
    return s


def cstr(tok):
    body = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        ch = body[i]
        if ch == '\\':
            if body[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(body[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(ch))
            i += 1
    return bytes(out)


I1 = ('i', 1)
PTR = ('ptr',)
VOID = ('void',)

SKIPWORDS = {
    'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'zeroext',
    'signext', 'inreg', 'immarg', 'nofree', 'nest', 'swiftself', 'allocptr', 'allocalign', 'noext', 'writable',
    'dead_on_unwind', 'dead_on_return', 'nofpclass', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'internal', 'private',
    'linkonce_odr', 'linkonce', 'weak_odr', 'weak', 'external', 'available_externally', 'hidden', 'default', 'protected',
    'common', 'appending', 'thread_local', 'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'nsw', 'nuw', 'exact', 'disjoint',
    'inbounds', 'nneg', 'nusw', 'samesign', 'volatile', 'atomic', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
    'reassoc', 'extern_weak', 'dso_preemptable', 'dllimport', 'dllexport', 'preallocated', 'inalloca', 'unordered', 'monotonic', 'acquire',
    'release', 'acq_rel', 'seq_cst', 'no_sanitize_address', 'nosync', 'nounwind',
}
SKIPPAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype', 'range', 'captures',
             'initializes', 'memory', 'nofpclass', 'inrange', 'syncscope', 'preallocated', 'inalloca', 'dead_on_return', 'alignstack'}


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        x = self.t[self.i] if self.i < len(self.t) else ''
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise SyntaxError('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t[max(0, self.i - 12):self.i + 12])))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return
            elif x == '':
                raise SyntaxError('paren')

    def skip_attrs(self):
        info = {}
        while True:
            x = self.peek()
            if x in SKIPWORDS:
                self.next()
                if x == 'thread_local' and self.peek() == '(':
                    self.skip_parens()
            elif x in SKIPPAREN:
                self.next()
                if self.peek() == '(':
                    st = self.i
                    self.skip_parens()
                    info[x] = self.t[st + 1:self.i - 1]
                elif x == 'align':
                    self.next()
            elif x.startswith('#') or (x.startswith('"') and x.endswith('"')):
                self.next()
                if self.eat('='):
                    self.next()
            elif x in ('addrspace', 'cc', 'comdat', 'section', 'partition', 'gc', 'prefix', 'prologue') and x in ('addrspace',):
                self.next()
                self.skip_parens()
            else:
                return info

    def type(self):
        x = self.next()
        t = None
        if x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            t = PTR
        elif x == 'void':
            t = VOID
        elif x in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
            t = (x,)
        elif x in ('label', 'metadata', 'token'):
            t = (x,)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            els = []
            if not self.eat('}'):
                while True:
                    els.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('struct', tuple(els), False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                els = []
                if not self.eat('}'):
                    while True:
                        els.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('struct', tuple(els), True)
            else:
                if self.eat('vscale'):
                    self.expect('x')
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x.startswith('%'):
            t = ('named', unq(x))
        elif x == 'opaque':
            t = ('struct', (), False)
        else:
            raise SyntaxError('type? %s in %s' % (x, ' '.join(self.t[max(0, self.i - 6):self.i + 8])))
        # function type?
        while self.peek() == '(' and t[0] != 'label':
            self.skip_parens()
            t = ('fn', t)
        while self.eat('*'):
            t = PTR
        return t

    def value(self, ty):
        """-> operand: ('l',name) | ('k',pyvalue) | ('g',name) | ('agg',ty,[ops]) | ('undef',ty) | ('gepc',...)..."""
        x = self.next()
        if x.startswith('%'):
            return ('l', unq(x))
        if x.startswith('@'):
            return ('g', unq(x))
        if x == 'true':
            return ('k', 1)
        if x == 'false':
            return ('k', 0)
        if x == 'null':
            return ('k', 0)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x == 'zeroinitializer':
            return ('zero', ty)
        if x == 'none':
            return ('k', 0)
        if x[0] == '-' or x[0].isdigit():
            if ty[0] == 'i':
                return ('k', int(x) & ((1 << ty[1]) - 1))
            if x.startswith('0x'):
                import struct
                h = x[2:]
                if h[0] in 'KMLHR':
                    return ('k', 0.0)
                return ('k', struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0])
            return ('k', float(x))
        if x.startswith('c"'):
            return ('bytes', cstr(x))
        if x == '<' or x == '[' or x == '{':
            close = {'<': '>', '[': ']', '{': '}'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                els = self._agg('}')
                self.expect('>')
                return ('agg', ty, els)
            return ('agg', ty, self._agg(close))
        if x == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('agg', ty, [(t, v)] * ty[1])
        if x == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                self.skip_attrs()
                t = self.type()
                self.skip_attrs()
                ops.append((t, self.value(t)))
                if self.eat(')'):
                    break
                self.expect(',')
            return ('gepc', bt, ops)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('castc', x, t, v, t2)
        if x in ('sub', 'add', 'xor', 'and', 'or', 'shl', 'mul'):
            self.skip_attrs()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('binc', x, t, a, b)
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            return self.value(ty)
        if x == 'asm':
            while self.peek() != '(':
                self.next()
            return ('asm',)
        raise SyntaxError('value? %s in %s' % (x, ' '.join(self.t[max(0, self.i - 10):self.i + 8])))

    def _agg(self, close):
        els = []
        if self.eat(close):
            return els
        while True:
            t = self.type()
            els.append((t, self.value(t)))
            if self.eat(close):
                return els
            self.expect(',')


class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'bb', 'idx', 'h')

    def __init__(self, op, res, ty, ops, x=None, dbg=None):
        self.op, self.res, self.ty, self.ops, self.x, self.dbg = op, res, ty, ops, x, dbg
        self.h = None

    def __repr__(self):
        return '%s = %s %s %s' % (self.res, self.op, self.ops, self.x)


class Block:
    __slots__ = ('name', 'phis', 'insts', 'succs', 'preds', 'fn', 'first')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.insts = []
        self.succs = []
        self.preds = []


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self._parsed = False
        self.dbg = None
        self.params = []
        self.internal = ' internal ' in header.split('@')[0] + ' ' or ' private ' in header.split('@')[0]
        m = re.search(r'!dbg (![0-9]+)', header)
        if m:
            self.dbg = m[1]

    def loc(self):
        return self.mod.subprogram_loc(self.dbg)

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        p = P(TOK.findall(self.header[len('define'):]), self.mod)
        p.skip_attrs()
        while p.peek() in ('cc',) or p.peek().startswith('#'):
            p.next()
        p.skip_attrs()
        self.rty = p.type()
        p.skip_attrs()
        p.next()   # name
        p.expect('(')
        self.params = []
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.eat(')')
                    break
                t = p.type()
                info = p.skip_attrs()
                nm = unq(p.next()) if p.peek().startswith('%') else '_%d' % len(self.params)
                self.params.append((nm, t, info))
                if p.eat(')'):
                    break
                p.expect(',')
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.body
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if not ln.startswith(' '):
                m = re.match(r'((?:"(?:[^"\\]|\\.)*")|[-a-zA-Z$._0-9]+):', s)
                if m:
                    nm = m[1]
                    nm = unq('%' + nm)
                    cur = Block(nm)
                    cur.fn = self
                    self.blocks[nm] = cur
                    self.order.append(nm)
                    continue
            if cur is None:
                cur = Block('%entry0')
                # unnamed entry block: number = number of params (unnamed)
                nm = str(len(self.params))
                cur = Block(nm)
                cur.fn = self
                self.blocks[nm] = cur
                self.order.append(nm)
            if s.startswith('#dbg_'):
                continue
            # multi-line constructs
            if s.endswith('[') and (s.startswith('switch') or ' switch ' in s):
                while True:
                    t = lines[i].strip()
                    i += 1
                    s += ' ' + t
                    if t.startswith(']'):
                        break
            # landingpad / invoke continuation lines
            while i < n and lines[i].startswith('          ') and not lines[i].strip().startswith(';'):
                s += ' ' + lines[i].strip()
                i += 1
            ins = self.parse_inst(s)
            if ins is None:
                continue
            ins.bb = cur
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                ins.idx = len(cur.insts)
                cur.insts.append(ins)
        self.entry = self.order[0]
        for b in self.blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succs = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                b.succs = list(dict.fromkeys([t.x[0]] + [d for _, d in t.x[1]]))
            elif t.op == 'invoke':
                b.succs = [t.x['normal'], t.x['unwind']]
            else:
                b.succs = []
        for b in self.blocks.values():
            for s_ in b.succs:
                self.blocks[s_].preds.append(b.name)
        self._cfg()
        return self

    # ------------------------------------------------------------ instructions
    def parse_inst(self, s):
        dbg = None
        m = re.search(r', !dbg (![0-9]+)', s)
        if m:
            dbg = m[1]
            s = s[:m.start()] + s[m.end():]
        k = s.find(', !')
        # drop trailing metadata
        mm = re.search(r'(, ![a-zA-Z_.]+ ![0-9{}]+)+\s*$', s)
        if mm:
            s = s[:mm.start()]
        p = P(TOK.findall(s), self.mod)
        res = None
        if p.peek(1) == '=' and p.peek().startswith('%'):
            res = unq(p.next())
            p.next()
        while p.peek() in ('tail', 'musttail', 'notail'):
            p.next()
        op = p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = []
            while p.peek() in SKIPWORDS:
                flags.append(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Inst(op, res, t, [a, b], flags, dbg)
        if op == 'fneg':
            p.skip_attrs()
            t = p.type()
            return Inst(op, res, t, [p.value(t)], None, dbg)
        if op in ('icmp', 'fcmp'):
            p.skip_attrs()
            pred = p.next()
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Inst(op, res, t, [a, b], pred, dbg)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'addrspacecast'):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            t2 = p.type()
            return Inst(op, res, t2, [a], t, dbg)
        if op == 'load':
            atomic = 'atomic' in p.t[:6]
            p.skip_attrs()
            t = p.type()
            p.expect(',')
            t2 = p.type()
            a = p.value(t2)
            return Inst(op, res, t, [a], atomic, dbg)
        if op == 'store':
            atomic = 'atomic' in p.t[:4]
            p.skip_attrs()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            a = p.value(t2)
            return Inst(op, res, t, [v, a], atomic, dbg)
        if op == 'alloca':
            p.skip_attrs()
            t = p.type()
            cnt = ('k', 1)
            ct = ('i', 32)
            if p.eat(','):
                if p.peek() == 'align':
                    pass
                else:
                    ct = p.type()
                    cnt = p.value(ct)
            return Inst(op, res, t, [cnt], ct, dbg)
        if op == 'getelementptr':
            p.skip_attrs()
            bt = p.type()
            p.expect(',')
            ops = []
            tys = []
            while True:
                t = p.type()
                p.skip_attrs()
                tys.append(t)
                ops.append(p.value(t))
                if not p.eat(','):
                    break
            return Inst(op, res, bt, ops, tys, dbg)
        if op == 'phi':
            p.skip_attrs()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = unq(p.next())
                p.expect(']')
                inc.append((v, b))
                if not p.eat(','):
                    break
            return Inst(op, res, t, [], dict((b, v) for v, b in inc), dbg)
        if op == 'select':
            p.skip_attrs()
            t = p.type()
            c = p.value(t)
            p.expect(',')
            t1 = p.type()
            a = p.value(t1)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            return Inst(op, res, t1, [c, a, b], t, dbg)
        if op == 'freeze':
            t = p.type()
            return Inst(op, res, t, [p.value(t)], None, dbg)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Inst(op, None, VOID, [], [unq(p.next())], dbg)
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = unq(p.next())
            p.expect(',')
            p.expect('label')
            b = unq(p.next())
            return Inst(op, None, VOID, [c], [a, b], dbg)
        if op == 'switch':
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            d = unq(p.next())
            p.expect('[')
            cases = []
            while not p.eat(']'):
                t2 = p.type()
                v = p.value(t2)
                p.expect(',')
                p.expect('label')
                cases.append((v[1], unq(p.next())))
            return Inst(op, None, t, [c], (d, cases), dbg)
        if op == 'ret':
            t = p.type()
            if t == VOID:
                return Inst(op, None, t, [], None, dbg)
            return Inst(op, None, t, [p.value(t)], None, dbg)
        if op == 'unreachable':
            return Inst(op, None, VOID, [], None, dbg)
        if op == 'resume':
            t = p.type()
            return Inst(op, None, t, [p.value(t)], None, dbg)
        if op in ('call', 'invoke'):
            p.skip_attrs()
            while p.peek() == 'cc' or p.peek().startswith('#'):
                p.next()
            p.skip_attrs()
            rt = p.type()
            if rt[0] == 'fn':
                rt = rt[1]
            p.skip_attrs()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            tys = []
            if not p.eat(')'):
                while True:
                    if p.peek() == 'metadata':
                        # skip metadata argument
                        d = 0
                        while True:
                            y = p.peek()
                            if d == 0 and y in (',', ')'):
                                break
                            if y in '({[':
                                d += 1
                            elif y in ')}]' and y:
                                d -= 1
                            p.next()
                        args.append(('k', 0))
                        tys.append(('metadata',))
                    else:
                        t = p.type()
                        p.skip_attrs()
                        tys.append(t)
                        args.append(p.value(t))
                    if p.eat(')'):
                        break
                    p.expect(',')
            x = {'callee': callee, 'tys': tys}
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.expect('label')
                x['normal'] = unq(p.next())
                p.expect('unwind')
                p.expect('label')
                x['unwind'] = unq(p.next())
            return Inst(op, res, rt, args, x, dbg)
        if op == 'landingpad':
            t = p.type()
            clauses = []
            cleanup = False
            while p.peek():
                y = p.next()
                if y == 'cleanup':
                    cleanup = True
                elif y == 'catch':
                    tt = p.type()
                    clauses.append(('catch', p.value(tt)))
                elif y == 'filter':
                    tt = p.type()
                    clauses.append(('filter', p.value(tt)))
            return Inst(op, res, t, [], (cleanup, clauses), dbg)
        if op in ('extractvalue', 'insertvalue'):
            t = p.type()
            a = p.value(t)
            ops = [a]
            tys = [t]
            if op == 'insertvalue':
                p.expect(',')
                t2 = p.type()
                tys.append(t2)
                ops.append(p.value(t2))
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Inst(op, res, t, ops, (idx, tys), dbg)
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            ops = []
            tys = []
            while True:
                t = p.type()
                tys.append(t)
                ops.append(p.value(t))
                if not p.eat(','):
                    break
            return Inst(op, res, tys[0], ops, tys, dbg)
        if op in ('cmpxchg', 'atomicrmw', 'fence'):
            ops = []
            tys = []
            kind = None
            if op == 'atomicrmw':
                p.skip_attrs()
                kind = p.next()
            if op != 'fence':
                p.skip_attrs()
                while True:
                    t = p.type()
                    tys.append(t)
                    ops.append(p.value(t))
                    if not p.eat(','):
                        break
                    if p.peek() in SKIPPAREN:
                        break
            return Inst(op, res, tys[-1] if tys else VOID, ops, (kind, tys), dbg)
        raise SyntaxError('inst? ' + s)

    # ------------------------------------------------------------ CFG analyses
    def _cfg(self):
        # reverse postorder
        seen = set()
        post = []
        stack = [(self.entry, iter(self.blocks[self.entry].succs))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.rpoi = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for q in self.blocks[b].preds:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = new, q
                            while x != y:
                                while self.rpoi[x] > self.rpoi[y]:
                                    x = idom[x]
                                while self.rpoi[y] > self.rpoi[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        # natural loops
        self.loops = {}      # header -> set of blocks
        for b in self.rpo:
            for s in self.blocks[b].succs:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        y = work.pop()
                        if y not in body:
                            body.add(y)
                            work.extend(q for q in self.blocks[y].preds if q in self.rpoi)
        self.inner = {}      # block -> innermost loop header
        for h, body in sorted(self.loops.items(), key=lambda kv: -len(kv[1])):
            for b in body:
                self.inner[b] = h
        # live blocks: can reach a ret
        live = set(b for b in self.rpo if self.blocks[b].insts[-1].op == 'ret')
        work = list(live)
        while work:
            b = work.pop()
            for q in self.blocks[b].preds:
                if q not in live and q in self.rpoi:
                    live.add(q)
                    work.append(q)
        self.live = live
        # post-dominators over live blocks, virtual exit None
        self.ipdom = self._pdom(live)

    def _pdom(self, live):
        EX = '<exit>'
        succ = {b: [s for s in self.blocks[b].succs if s in live] for b in self.rpo if b in live}
        for b in succ:
            if self.blocks[b].insts[-1].op == 'ret':
                succ[b] = [EX]
        pred = {b: [] for b in succ}
        pred[EX] = []
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        seen = {EX}
        post = []
        stack = [(EX, iter(pred[EX]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(pred[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        ri = {b: i for i, b in enumerate(rpo)}
        ip = {EX: EX}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for q in succ.get(b, []):
                    if q in ip:
                        if new is None:
                            new = q
                        else:
                            x, y = new, q
                            while x != y:
                                while ri[x] > ri[y]:
                                    x = ip[x]
                                while ri[y] > ri[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    changed = True
        return {b: (None if v == EX else v) for b, v in ip.items() if b != EX}

    @property
    def regty(self):
        r = getattr(self, '_regty', None)
        if r is None:
            r = self._regty = {}
            for nm, t, info in self.params:
                r[nm] = t
            for i in self.insts():
                if i.res is not None:
                    if i.op in ('icmp', 'fcmp'):
                        r[i.res] = ('i', 1)
                    elif i.op in ('alloca', 'getelementptr', 'inttoptr'):
                        r[i.res] = ('ptr',)
                    elif i.op in ('insertvalue', 'extractvalue', 'landingpad', 'extractelement', 'insertelement', 'shufflevector'):
                        pass
                    else:
                        r[i.res] = i.ty
        return r

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            nb = self.idom.get(b)
            if nb is None or nb == b:
                return False
            b = nb

    def insts(self):
        self.parse()
        for bn in self.order:
            b = self.blocks[bn]
            for i in b.phis:
                yield i
            for i in b.insts:
                yield i

    def calls(self):
        for i in self.insts():
            if i.op in ('call', 'invoke'):
                c = i.x['callee']
                yield i, (c[1] if c[0] == 'g' else None)


class Module:
    def __init__(self, path, label=None):
        self.path = path
        self.label = label or path
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.md = {}
        self.aliases = {}
        self._sz = {}
        self._load(open(path, encoding='utf-8', errors='surrogateescape').read().split('\n'))

    def _load(self, lines):
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    self.types[unq(m[1])] = m[2]
            elif c == '@':
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                if m:
                    if re.search(r'\balias\b', m[2].split('"')[0]):
                        mm = re.search(r'ptr (@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\s*$', m[2])
                        if mm:
                            self.aliases[unq(m[1])] = unq(mm[1])
                    else:
                        self.globals[unq(m[1])] = m[2]
            elif ln.startswith('define'):
                hdr = ln
                while not hdr.rstrip().endswith('{'):
                    hdr += lines[i]
                    i += 1
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', hdr)
                nm = unq(m[1])
                self.funcs[nm] = Function(self, nm, hdr, body)
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', ln)
                if m:
                    self.decls.add(unq(m[1]))
            elif c == '!':
                m = re.match(r'(![0-9]+) = (.*)$', ln)
                if m:
                    self.md[m[1]] = m[2]

    # ---------------------------------------------------------------- debug info
    def _field(self, s, f):
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|[^,)]+)' % f, s)
        return m[1].strip('"') if m else None

    def file_of(self, ref, depth=0):
        s = self.md.get(ref, '')
        if s.startswith('!DIFile') or s.startswith('distinct !DIFile'):
            fn = self._field(s, 'filename')
            d = self._field(s, 'directory')
            if fn and not fn.startswith('/') and d:
                fn = d + '/' + fn
            return fn
        f = self._field(s, 'file')
        if f:
            return self.file_of(f)
        sc = self._field(s, 'scope')
        if sc and depth < 30:
            return self.file_of(sc, depth + 1)
        return None

    def loc(self, ref):
        """(file, line, col) of a DILocation, innermost"""
        if not ref:
            return None
        s = self.md.get(ref, '')
        line = self._field(s, 'line')
        sc = self._field(s, 'scope')
        return (self.file_of(sc) if sc else None, int(line) if line else 0)

    def locs(self, ref):
        out = []
        while ref:
            out.append(self.loc(ref))
            ref = self._field(self.md.get(ref, ''), 'inlinedAt')
        return out

    def subprogram_loc(self, ref):
        if not ref:
            return None
        s = self.md.get(ref, '')
        line = self._field(s, 'line')
        return (self.file_of(ref), int(line) if line else 0)

    # ---------------------------------------------------------------- layout
    def resolve(self, t):
        while t[0] == 'named':
            body = self.types.get(t[1])
            if body is None or body == 'opaque':
                return ('struct', (), False)
            if isinstance(body, str):
                body = P(TOK.findall(body), self).type()
                self.types[t[1]] = body
            t = body
        return t

    def sizealign(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._sizealign(t)
        return r

    def _sizealign(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            a = min(a, 16)
            return ((n + a - 1) // a * a, a)
        if k == 'ptr':
            return (8, 8)
        if k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'arr':
            s, a = self.sizealign(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.sizealign(t[2])
            n = s * t[1]
            al = 1
            while al < n:
                al *= 2
            return (n, al)
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.sizealign(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'named':
            return self.sizealign(self.resolve(t))
        if k == 'void' or k == 'fn':
            return (1, 1)
        raise SyntaxError('sizeof %r' % (t,))

    def size(self, t):
        return self.sizealign(t)[0]

    def field_off(self, t, i):
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.sizealign(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise IndexError(i)

    def gep_plan(self, bt, ops, tys):
        """-> (const offset, [(scale, operand, width)])"""
        const = 0
        dyn = []
        t = bt
        for j, (o, ty) in enumerate(zip(ops, tys)):
            if j == 0:
                sc = self.size(t)
            else:
                t = self.resolve(t)
                if t[0] == 'struct':
                    idx = o[1]
                    const += self.field_off(t, idx)
                    t = t[1][idx]
                    continue
                t = t[2]
                sc = self.size(t)
            w = ty[1]
            if o[0] == 'k':
                v = o[1]
                if v >> (w - 1):
                    v -= 1 << w
                const += v * sc
            else:
                dyn.append((sc, o, w))
        return const, dyn
