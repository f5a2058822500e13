"""Parser for the textual LLVM IR that clang 18 emits (opaque pointers).

Only what clang -disable-llvm-passes produces for this code base is parsed in
detail; an instruction that is not understood becomes an ('unsupported', text)
instruction, which the verifier reports as an undischarged obligation when (and
only when) a path reaches it.
"""
import re, struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<num>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<punc>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tok: %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


def unq(n):
    """strip sigil and quotes of %"..." / @"..." names"""
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError('expected %r got %r in %r' % (v, self.peek(), self.t))

    def eof(self):
        return self.i >= len(self.t)


PARAM_ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly
 writable dead_on_unwind immarg returned inreg nest swiftself noreturn nofree nosync nounwind
 dead_on_return inalloca captures noext allocptr'''.split())
PARAM_ATTRS_ARG = set('''align dereferenceable dereferenceable_or_null sret byval byref elementtype
 preallocated range allocalign memory nofpclass initializes'''.split())
LINK = set('''private internal available_externally linkonce weak common appending extern_weak
 linkonce_odr weak_odr external default hidden protected dso_local dso_preemptable unnamed_addr
 local_unnamed_addr thread_local externally_initialized ccc fastcc coldcc constant global
 inrange'''.split())


def parse_type(p):
    k, v = p.next()
    if k == 'word':
        if re.fullmatch(r'i[0-9]+', v):
            t = ('i', int(v[1:]))
        elif v in ('double', 'float', 'void', 'ptr', 'label', 'metadata', 'token', 'x86_fp80', 'opaque', 'half', 'fp128'):
            t = (v,)
        elif v == 'type':
            t = ('type',)
        else:
            raise SyntaxError('type %r' % v)
    elif k == 'loc':
        t = ('struct', unq(v))
    elif v == '[':
        n = int(p.next()[1])
        p.exp('x')
        e = parse_type(p)
        p.exp(']')
        t = ('array', n, e)
    elif v == '{':
        fs = []
        if not p.acc('}'):
            while True:
                fs.append(parse_type(p))
                if p.acc('}'):
                    break
                p.exp(',')
        t = ('lit', tuple(fs), False)
    elif v == '<':
        if p.acc('{'):
            fs = []
            if not p.acc('}'):
                while True:
                    fs.append(parse_type(p))
                    if p.acc('}'):
                        break
                    p.exp(',')
            p.exp('>')
            t = ('lit', tuple(fs), True)
        else:
            n = int(p.next()[1])
            p.exp('x')
            e = parse_type(p)
            p.exp('>')
            t = ('vec', n, e)
    else:
        raise SyntaxError('type tok %r' % (v,))
    # function type suffix
    while p.peek()[1] == '(' and t[0] != 'label':
        # function type  ret (args...)
        save = p.i
        try:
            p.next()
            args = []
            if not p.acc(')'):
                while True:
                    if p.acc('...'):
                        args.append(('...',))
                    else:
                        args.append(parse_type(p))
                        skip_param_attrs(p)
                    if p.acc(')'):
                        break
                    p.exp(',')
            t = ('fn', t, tuple(args))
        except SyntaxError:
            p.i = save
            break
    return t


def skip_param_attrs(p):
    attrs = {}
    while True:
        k, v = p.peek()
        if k == 'word' and v in PARAM_ATTRS:
            p.next()
            attrs[v] = True
        elif k == 'word' and v in PARAM_ATTRS_ARG:
            p.next()
            if p.acc('('):
                d = 1
                ty = None
                if v in ('sret', 'byval', 'elementtype'):
                    ty = parse_type(p)
                while d:
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                attrs[v] = ty
            else:
                p.next()
        elif k == 'str':
            p.next()
            if p.acc('='):
                p.next()
        else:
            return attrs


def parse_double(s):
    if s.startswith('0x'):
        if s[2] in 'KLMHR':
            return None
        return struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    return float(s)


CEXPR = {'getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'add', 'sub', 'addrspacecast', 'trunc', 'icmp'}


def parse_val(p, ty):
    """value of a known type -> ('reg',n) ('glob',n) ('int',n) ('fp',x) ('null',) ('undef',) ('agg',[...]) ..."""
    k, v = p.next()
    if k == 'loc':
        return ('reg', unq(v))
    if k == 'glob':
        return ('glob', unq(v))
    if k == 'num':
        if ty[0] in ('double', 'float', 'x86_fp80'):
            return ('fp', parse_double(v))
        return ('int', int(v, 0))
    if k == 'str':
        return ('cstr', v)
    if k == 'meta':
        # metadata operand
        d = 0
        while not p.eof() and not (d == 0 and p.peek()[1] in (',', ')')):
            x = p.next()[1]
            if x in '({':
                d += 1
            elif x in ')}':
                d -= 1
        return ('meta',)
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('null',)
        if v in CEXPR:
            if v == 'getelementptr':
                while p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    p.next()
                    if p.peek()[1] == '(' and p.t[p.i - 1][1] == 'inrange':
                        while p.next()[1] != ')':
                            pass
                p.exp('(')
                bt = parse_type(p)
                ops = []
                while p.acc(','):
                    p.acc('inrange')
                    t = parse_type(p)
                    ops.append((t, parse_val(p, t)))
                p.exp(')')
                return ('gep', bt, ops)
            p.exp('(')
            t = parse_type(p)
            x = parse_val(p, t)
            while not p.acc(')'):
                p.next()
            return ('cexpr', v, t, x)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return parse_val(p, ty)
        raise SyntaxError('val %r' % v)
    if v in ('{', '[', '<'):
        if v == '<' and p.peek()[1] == '{':
            p.next()
            close = ['}', '>']
        else:
            close = [{'{': '}', '[': ']', '<': '>'}[v]]
        xs = []
        if not p.acc(close[0]):
            while True:
                t = parse_type(p)
                xs.append((t, parse_val(p, t)))
                if p.acc(close[0]):
                    break
                p.exp(',')
        for c in close[1:]:
            p.exp(c)
        return ('agg', xs)
    raise SyntaxError('val %r' % (v,))


class Inst:
    __slots__ = ('op', 'res', 'a', 'text')

    def __init__(self, op, res, text, **a):
        self.op = op
        self.res = res
        self.a = a
        self.text = text

    def __repr__(self):
        return self.text.strip()


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc fptosi fptoui uitofp sitofp fpext fptrunc bitcast ptrtoint inttoptr addrspacecast'.split())
FLAGS = set('nuw nsw exact disjoint nneg fast nnan ninf nsz arcp contract afn reassoc inbounds samesign'.split())


def tv(p):
    t = parse_type(p)
    skip_param_attrs(p)
    return t, parse_val(p, t)


def parse_inst(line):
    toks = tokenize(line)
    p = P(toks)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = unq(p.next()[1])
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op == 'alloca':
        t = parse_type(p)
        n = None
        if p.acc(','):
            if p.peek()[1] not in ('align', 'addrspace'):
                n = tv(p)
        return Inst('alloca', res, line, ty=t, n=n)
    if op == 'load':
        p.acc('atomic')
        p.acc('volatile')
        t = parse_type(p)
        p.exp(',')
        return Inst('load', res, line, ty=t, ptr=tv(p)[1])
    if op == 'store':
        p.acc('volatile')
        t, v = tv(p)
        p.exp(',')
        return Inst('store', None, line, ty=t, val=v, ptr=tv(p)[1])
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = parse_type(p)
        ops = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            ops.append(tv(p))
        return Inst('gep', res, line, bt=bt, ops=ops)
    if op in BIN:
        fl = set()
        while p.peek()[1] in FLAGS:
            fl.add(p.next()[1])
        t = parse_type(p)
        x = parse_val(p, t)
        p.exp(',')
        y = parse_val(p, t)
        return Inst('bin', res, line, o=op, fl=fl, ty=t, x=x, y=y)
    if op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        t, x = tv(p)
        return Inst('fneg', res, line, ty=t, x=x)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        c = p.next()[1]
        t = parse_type(p)
        x = parse_val(p, t)
        p.exp(',')
        y = parse_val(p, t)
        return Inst(op, res, line, c=c, ty=t, x=x, y=y)
    if op in CAST:
        while p.peek()[1] in FLAGS:
            p.next()
        t, x = tv(p)
        p.exp('to')
        return Inst('cast', res, line, o=op, ty=t, x=x, to=parse_type(p))
    if op == 'br':
        if p.acc('label'):
            return Inst('br', None, line, to=unq(p.next()[1]))
        t, c = tv(p)
        p.exp(',')
        p.exp('label')
        a = unq(p.next()[1])
        p.exp(',')
        p.exp('label')
        b = unq(p.next()[1])
        return Inst('condbr', None, line, c=c, a=a, b=b)
    if op == 'switch':
        t, x = tv(p)
        p.exp(',')
        p.exp('label')
        d = unq(p.next()[1])
        p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = parse_type(p)
            cv = parse_val(p, ct)
            p.exp(',')
            p.exp('label')
            cs.append((cv[1], unq(p.next()[1])))
        return Inst('switch', None, line, ty=t, x=x, d=d, cs=cs)
    if op == 'ret':
        if p.acc('void'):
            return Inst('ret', None, line, v=None)
        t, v = tv(p)
        return Inst('ret', None, line, v=(t, v))
    if op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        c = tv(p)
        p.exp(',')
        x = tv(p)
        p.exp(',')
        y = tv(p)
        return Inst('select', res, line, c=c[1], ty=x[0], x=x[1], y=y[1])
    if op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        t = parse_type(p)
        inc = []
        while True:
            p.exp('[')
            v = parse_val(p, t)
            p.exp(',')
            inc.append((v, unq(p.next()[1])))
            p.exp(']')
            if not p.acc(','):
                break
        return Inst('phi', res, line, ty=t, inc=inc)
    if op == 'extractvalue':
        t, x = tv(p)
        ix = []
        while p.acc(','):
            if p.peek()[0] != 'num':
                break
            ix.append(int(p.next()[1]))
        return Inst('extract', res, line, ty=t, x=x, ix=ix)
    if op == 'insertvalue':
        t, x = tv(p)
        p.exp(',')
        t2, y = tv(p)
        ix = []
        while p.acc(','):
            if p.peek()[0] != 'num':
                break
            ix.append(int(p.next()[1]))
        return Inst('insert', res, line, ty=t, x=x, y=y, ix=ix)
    if op == 'freeze':
        t, x = tv(p)
        return Inst('freeze', res, line, x=x)
    if op == 'unreachable':
        return Inst('unreachable', None, line)
    if op == 'resume':
        t, x = tv(p)
        return Inst('resume', None, line, x=x)
    if op == 'landingpad':
        t = parse_type(p)
        cleanup = False
        catches = []
        while not p.eof():
            if p.acc('cleanup'):
                cleanup = True
            elif p.acc('catch'):
                ct, cv = tv(p)
                catches.append(cv)
            elif p.acc('filter'):
                tv(p)
            else:
                break
        return Inst('landingpad', res, line, cleanup=cleanup, catches=catches)
    if op in ('call', 'invoke'):
        while p.peek()[1] in FLAGS or p.peek()[1] in ('ccc', 'fastcc', 'coldcc'):
            p.next()
        skip_param_attrs(p)
        rt = parse_type(p)
        fnty = None
        if rt[0] == 'fn':
            fnty = rt
            rt = rt[1]
        k, v = p.peek()
        if k == 'word' and v == 'asm':
            raise SyntaxError('asm')
        callee = parse_val(p, ('ptr',))
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = parse_type(p)
                at = skip_param_attrs(p)
                args.append((t, parse_val(p, t), at))
                if p.acc(')'):
                    break
                p.exp(',')
        nrm = unw = None
        if op == 'invoke':
            while p.peek()[0] == 'attr' or p.peek()[1] not in ('to',):
                p.next()
            p.exp('to')
            p.exp('label')
            nrm = unq(p.next()[1])
            p.exp('unwind')
            p.exp('label')
            unw = unq(p.next()[1])
        return Inst(op, res, line, rt=rt, callee=callee, args=args, nrm=nrm, unw=unw)
    if op == 'fence':
        return Inst('nop', None, line)
    return Inst('unsupported', res, line)


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, name, attrs)
        self.blocks = {}   # label -> [Inst]  (parsed lazily)
        self.raw = {}
        self.entry = None
        self.ret = None
        self.loops = None

    def block(self, lab):
        b = self.blocks.get(lab)
        if b is None:
            b = []
            for l in self.raw[lab]:
                try:
                    b.append(parse_inst(l))
                except SyntaxError as e:
                    b.append(Inst('unsupported', None, l + '   ; ' + str(e)))
            self.blocks[lab] = b
        return b

    def succs(self, lab):
        t = self.block(lab)[-1]
        if t.op == 'br':
            return [t.a['to']]
        if t.op == 'condbr':
            return [t.a['a'], t.a['b']]
        if t.op == 'switch':
            return [t.a['d']] + [c[1] for c in t.a['cs']]
        if t.op == 'invoke':
            return [t.a['nrm'], t.a['unw']]
        return []

    def reach(self, lab):
        """the blocks a block leads to"""
        memo = self.__dict__.setdefault('reach_memo', {})
        if lab not in memo:
            seen, todo = set(), [lab]
            while todo:
                for x in self.succs(todo.pop()):
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
            memo[lab] = seen
        return memo[lab]

    def find_loops(self):
        """natural loops: header -> set of blocks"""
        if self.loops is not None:
            return self.loops
        order = []
        seen = set()
        st = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(n)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True

        def inter(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = idom[a]
                while num[b] > num[a]:
                    b = idom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [q for q in preds[b] if q in idom]
                n = ps[0]
                for q in ps[1:]:
                    n = inter(n, q)
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(preds[x])
        self.loops = loops
        return loops


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.decls = {}
        self._sz = {}
        self.mutable = set()
        self.internal = set()
        self.private = set()

    # ---- parsing
    def load(self, path):
        cur = None
        lab = None
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if cur is not None:
                if l.startswith('}'):
                    cur = None
                    continue
                s = l.strip()
                if not s or s.startswith(';'):
                    continue
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    lab = m.group(1).strip('"')
                    cur.raw[lab] = []
                    if cur.entry is None:
                        cur.entry = lab
                    continue
                if lab is None:
                    lab = '0'
                    cur.raw[lab] = []
                    cur.entry = lab
                # multi-line: switch / landingpad clauses / invoke
                if s.startswith('switch'):
                    while ']' not in s:
                        s += ' ' + lines[i].strip()
                        i += 1
                elif 'landingpad' in s:
                    while re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                        s += ' ' + lines[i].strip()
                        i += 1
                elif re.search(r'(^|= )invoke ', s):
                    while ' unwind label' not in s:
                        s += ' ' + lines[i].strip()
                        i += 1
                cur.raw[lab].append(s)
                continue
            if l.startswith('%') and ' = type ' in l:
                nm, body = l.split(' = type ', 1)
                nm = unq(nm.strip())
                if body.strip() == 'opaque':
                    self.types[nm] = ('opaque',)
                else:
                    self.types[nm] = parse_type(P(tokenize(body)))
            elif l.startswith('@'):
                try:
                    self._global(l)
                except SyntaxError:
                    pass
            elif l.startswith('define'):
                fn = self._fnhead(l[6:])
                if re.match(r'define (dso_local )?(internal|private) ', l):
                    self.private.add(fn.name)
                if fn.name not in self.fns:
                    self.fns[fn.name] = fn
                cur = fn
                lab = None
            elif l.startswith('declare'):
                try:
                    fn = self._fnhead(l[7:])
                    self.decls[fn.name] = fn
                except SyntaxError:
                    pass

    def _global(self, l):
        p = P(tokenize(l))
        name = unq(p.next()[1])
        p.exp('=')
        ext = const = False
        while p.peek()[0] == 'word' and (p.peek()[1] in LINK or p.peek()[1] == 'addrspace'):
            v = p.next()[1]
            if v in ('external', 'extern_weak'):
                ext = True
            if v == 'internal':
                self.internal.add(name)
            if v == 'constant':
                const = True
            if v in ('thread_local', 'addrspace') and p.peek()[1] == '(':
                while p.next()[1] != ')':
                    pass
        if p.peek()[1] == 'alias':
            p.next()
            parse_type(p)
            p.exp(',')
            t, v = tv(p)
            self.globals[name] = ('alias', v)
            return
        if not const:
            self.mutable.add(name)
        t = parse_type(p)
        v = None
        if not ext and not p.eof() and p.peek()[1] != ',':
            v = parse_val(p, t)
        self.globals.setdefault(name, (t, v))
        if v is not None:
            self.globals[name] = (t, v)

    def changed(self, name):
        """functions in which a global is used other than by a load"""
        if not hasattr(self, '_uses'):
            self._uses = {}
            pat = re.compile(r'@("(?:[^"\\\\]|\\\\.)*"|[-a-zA-Z$._0-9]+)')
            for f, fn in self.fns.items():
                for b in fn.raw.values():
                    for l in b:
                        if '@' in l:
                            for x in pat.findall(l):
                                x = unq('@' + x)
                                if x in self.mutable and not re.search(r'= load (atomic )?\S+, ptr @', l):
                                    self._uses.setdefault(x, set()).add(f)
        return self._uses.get(name, set())

    def _fnhead(self, l):
        p = P(tokenize(l))
        while p.peek()[0] == 'word' and (p.peek()[1] in LINK):
            p.next()
        skip_param_attrs(p)
        rt = None
        save = p.i
        # return type (without swallowing the parameter list)
        rt = parse_type_nofn(p)
        name = unq(p.next()[1])
        fn = Fn(name)
        fn.ret = rt
        p.exp('(')
        idx = 0
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    pass
                else:
                    t = parse_type(p)
                    at = skip_param_attrs(p)
                    nm = None
                    if p.peek()[0] == 'loc':
                        nm = unq(p.next()[1])
                    else:
                        nm = str(idx)
                    fn.params.append((t, nm, at))
                    idx += 1
                if p.acc(')'):
                    break
                p.exp(',')
        return fn

    # ---- layout
    def resolve(self, t):
        while t[0] == 'struct':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        c = self._sz.get(t)
        if c:
            return c
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == 'double':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'array':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'struct':
            if t[1] not in self.types or self.types[t[1]][0] == 'opaque':
                r = (1, 1)
            else:
                r = self.size_align(self.types[t[1]])
        elif k == 'lit':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'fn' or k == 'void':
            r = (1, 1)
        else:
            raise NotImplementedError('size %r' % (t,))
        self._sz[t] = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        """(offset, type) of field i"""
        t = self.resolve(t)
        if t[0] == 'lit':
            off = 0
            for j, f in enumerate(t[1]):
                s, a = self.size_align(f)
                if not t[2]:
                    off = (off + a - 1) // a * a
                if j == i:
                    return off, f
                off += s
        raise NotImplementedError('field %r' % (t,))


def parse_type_nofn(p):
    """parse a type but never treat a following '(' as a function type"""
    # temporarily cut the token list at the first '(' that follows the function name
    k, v = p.peek()
    if k == 'word' and (re.fullmatch(r'i[0-9]+', v) or v in ('double', 'float', 'void', 'ptr', 'x86_fp80')):
        p.next()
        return ('i', int(v[1:])) if v[0] == 'i' and v[1:].isdigit() else (v,)
    return parse_type(p)
