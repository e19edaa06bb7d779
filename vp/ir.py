"""Parser for the subset of textual LLVM-18 IR that clang emits for the muu harnesses.

The parser accepts what it knows and raises IRError on anything else: an instruction that is not
understood is never silently dropped."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<local>%(?:"[^"]*"|[-A-Za-z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-A-Za-z$._0-9]+))
 | (?P<meta>!(?:[-A-Za-z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))
 | (?P<ell>\.\.\.)
 | (?P<word>[A-Za-z_$][-A-Za-z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def unq(n):
    # %"x" -> x ; %x -> x
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n

class Ty:
    __slots__ = ('k', 'n', 'e', 'fs', 'name', 'packed', 'ret', 'args', 'va')
    def __init__(s, k, **kw):
        s.k = k
        s.n = s.e = s.fs = s.name = s.ret = s.args = None
        s.packed = False; s.va = False
        for a, b in kw.items():
            setattr(s, a, b)
    def key(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k in ('half', 'float', 'double', 'x86_fp80', 'fp128', 'ptr', 'void', 'metadata', 'label', 'token', 'bfloat'): return s.k
        if s.k == 'arr': return '[%d x %s]' % (s.n, s.e.key())
        if s.k == 'vec': return '<%d x %s>' % (s.n, s.e.key())
        if s.k == 'named': return '%' + s.name
        if s.k == 'struct': return ('<{' if s.packed else '{') + ','.join(f.key() for f in s.fs) + ('}>' if s.packed else '}')
        if s.k == 'fn': return s.ret.key() + '(' + ','.join(a.key() for a in s.args) + (',...' if s.va else '') + ')'
        if s.k == 'opaque': return 'opaque'
        raise IRError('key ' + s.k)
    def __repr__(s): return s.key()
    def __eq__(s, o): return isinstance(o, Ty) and s.key() == o.key()
    def __hash__(s): return hash(s.key())

I1 = Ty('int', n=1); PTR = Ty('ptr'); VOID = Ty('void')

class Val:
    """k: local,glob,int,fp,null,undef,poison,zero,cstr,agg,ce(const expr),meta"""
    __slots__ = ('k', 'ty', 'v', 'op', 'args', 'srcty')
    def __init__(s, k, ty, v=None, op=None, args=None, srcty=None):
        s.k = k; s.ty = ty; s.v = v; s.op = op; s.args = args; s.srcty = srcty
    def __repr__(s): return '<%s %s %r>' % (s.k, s.ty, s.v)

class Ins:
    def __init__(s, op, **kw):
        s.op = op; s.res = None; s.text = ''
        for a, b in kw.items(): setattr(s, a, b)

class Block:
    def __init__(s, name):
        s.name = name; s.ins = []

class Func:
    pass

class Glob:
    pass

class Module:
    def __init__(s):
        s.types = {}; s.globs = {}; s.funcs = {}; s.decls = {}; s.aliases = {}; s.md = {}

PARAM_ATTRS = set('''zeroext signext inreg noalias nocapture nonnull noundef readonly writeonly readnone returned
 nofree nest swiftself immarg dead_on_unwind writable allocptr nosanitize_memory noext allocalign inalloca'''.split())
FN_PRE = set('''dso_local dso_preemptable internal private linkonce_odr linkonce weak weak_odr external available_externally
 hidden protected default extern_weak unnamed_addr local_unnamed_addr fastcc ccc coldcc common appending thread_local
 externally_initialized tail musttail notail noinline constant global'''.split())
FMF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())

class P:
    def __init__(s, text, mod, where=''):
        s.m = mod; s.where = where; s.text = text
        s.t = []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                if text[i] == ';': break
                raise IRError('token %r in %r' % (text[i:i+30], text[:200]))
            i = m.end()
            k = m.lastgroup
            if k != 'ws': s.t.append((k, m.group()))
        s.i = 0
    def peek(s, o=0): return s.t[s.i+o][1] if s.i+o < len(s.t) else None
    def kind(s, o=0): return s.t[s.i+o][0] if s.i+o < len(s.t) else None
    def next(s):
        if s.i >= len(s.t): raise IRError('eof in ' + s.text[:300])
        r = s.t[s.i][1]; s.i += 1; return r
    def acc(s, x):
        if s.peek() == x and s.kind() in ('p', 'word', 'ell'):
            s.i += 1; return True
        return False
    def exp(s, x):
        if s.peek() != x: raise IRError('expected %r got %r in %s' % (x, s.peek(), s.text[:300]))
        s.i += 1
    def end(s): return s.i >= len(s.t)

    # ---- types
    def type(s):
        t = s.type0()
        while True:
            if s.peek() == '(' and s.kind() == 'p':   # function type
                s.next(); args = []; va = False
                while not s.acc(')'):
                    if s.acc('...'): va = True
                    else: args.append(s.type())
                    s.acc(',')
                t = Ty('fn', ret=t, args=args, va=va)
            elif s.peek() == '*': s.next(); t = PTR
            else: return t
    def type0(s):
        k, v = s.t[s.i]
        if k == 'word':
            s.i += 1
            if re.fullmatch(r'i\d+', v): return Ty('int', n=int(v[1:]))
            if v in ('half', 'float', 'double', 'x86_fp80', 'fp128', 'ptr', 'void', 'metadata', 'label', 'token', 'bfloat', 'opaque'):
                if v == 'ptr' and s.peek() == 'addrspace':
                    raise IRError('addrspace')
                return Ty(v)
            raise IRError('type %r in %s' % (v, s.text[:200]))
        if k == 'local':
            s.i += 1; return Ty('named', name=unq(v))
        if v == '[':
            s.i += 1; n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']'); return Ty('arr', n=n, e=e)
        if v == '{':
            s.i += 1; fs = []
            while not s.acc('}'):
                fs.append(s.type()); s.acc(',')
            return Ty('struct', fs=fs)
        if v == '<':
            s.i += 1
            if s.acc('{'):
                fs = []
                while not s.acc('}'):
                    fs.append(s.type()); s.acc(',')
                s.exp('>'); return Ty('struct', fs=fs, packed=True)
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>'); return Ty('vec', n=n, e=e)
        raise IRError('type %r in %s' % (v, s.text[:200]))
    def is_type(s):
        k, v = s.kind(), s.peek()
        if k == 'word': return bool(re.fullmatch(r'i\d+|half|float|double|x86_fp80|fp128|ptr|void|metadata|label|token|bfloat', v))
        return k == 'local' or v in ('[', '{', '<')

    # ---- values
    def value(s, ty):
        k, v = s.t[s.i]; s.i += 1
        if k == 'local': return Val('local', ty, unq(v))
        if k == 'glob': return Val('glob', ty, unq(v))
        if k == 'num':
            if ty.k == 'int': return Val('int', ty, int(v))
            return Val('fp', ty, v)
        if k == 'cstr': return Val('cstr', ty, cbytes(v[2:-1]))
        if k == 'word':
            if v in ('true', 'false'): return Val('int', ty, 1 if v == 'true' else 0)
            if v == 'null': return Val('null', ty)
            if v == 'none': return Val('null', ty)
            if v in ('undef', 'poison'): return Val(v, ty)
            if v == 'zeroinitializer': return Val('zero', ty)
            if v == 'getelementptr':
                while s.peek() in ('inbounds', 'inrange'): s.next()
                s.exp('('); st = s.type(); s.exp(',')
                a = []
                while True:
                    s.acc('inrange')
                    t = s.type(); a.append(s.value(t))
                    if not s.acc(','): break
                s.exp(')')
                return Val('ce', ty, op='gep', args=a, srcty=st)
            if v in ('ptrtoint', 'inttoptr', 'trunc', 'bitcast', 'zext', 'sext', 'addrspacecast'):
                s.exp('('); t = s.type(); x = s.value(t); s.exp('to'); t2 = s.type(); s.exp(')')
                return Val('ce', t2, op=v, args=[x])
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
                while s.peek() in ('nuw', 'nsw', 'exact'): s.next()
                s.exp('('); t = s.type(); a = s.value(t); s.exp(','); t = s.type(); b = s.value(t); s.exp(')')
                return Val('ce', ty, op=v, args=[a, b])
            if v in ('icmp',):
                pr = s.next(); s.exp('('); t = s.type(); a = s.value(t); s.exp(','); t = s.type(); b = s.value(t); s.exp(')')
                return Val('ce', ty, op='icmp ' + pr, args=[a, b])
            if v in ('dso_local_equivalent', 'no_cfi'):
                return s.value(ty)
            raise IRError('const %r in %s' % (v, s.text[:300]))
        if v in ('[', '{', '<'):
            pk = False
            if v == '<' and s.peek() == '{': s.next(); pk = True; close = '}'
            else: close = {'[': ']', '{': '}', '<': '>'}[v]
            a = []
            while not s.acc(close):
                t = s.type(); a.append(s.value(t)); s.acc(',')
            if pk: s.exp('>')
            return Val('agg', ty, args=a)
        if k == 'meta': 
            return Val('meta', ty, v)
        raise IRError('value %r in %s' % (v, s.text[:300]))
    def tval(s):
        t = s.type()
        if t.k == 'metadata':
            # swallow a metadata operand up to the closing paren/comma at depth 0
            d = 0
            while True:
                p = s.peek()
                if d == 0 and p in (',', ')'): break
                if p in '([{': d += 1
                if p in ')]}': d -= 1
                s.next()
            return Val('meta', t)
        s.param_attrs()
        return s.value(t)
    def param_attrs(s):
        out = {}
        while True:
            p = s.peek()
            if s.kind() == 'word':
                if p in PARAM_ATTRS: s.next(); out[p] = True; continue
                if p == 'align':
                    s.next()
                    if s.acc('('): out['align'] = int(s.next()); s.exp(')')
                    else: out['align'] = int(s.next())
                    continue
                if p in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'nofpclass', 'memory'):
                    s.next(); s.exp('('); d = 1
                    while d:
                        x = s.next()
                        if x == '(': d += 1
                        if x == ')': d -= 1
                    continue
                if p in ('sret', 'byval', 'elementtype', 'byref', 'preallocated'):
                    s.next()
                    if s.acc('('):
                        out[p] = s.type(); s.exp(')')
                    continue
            if s.kind() == 'str':
                s.next()
                if s.acc('='): s.next()
                continue
            return out

def cbytes(x):
    out = bytearray(); i = 0
    while i < len(x):
        if x[i] == '\\':
            if x[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(x[i+1:i+3], 16)); i += 3
        else: out.append(ord(x[i])); i += 1
    return bytes(out)

def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0; n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            mm = re.match(r'%("(?:[^"]*)"|[-A-Za-z$._0-9]+) = type (.*)$', ln)
            nm = mm.group(1)
            if nm.startswith('"'): nm = nm[1:-1]
            p = P(mm.group(2), m)
            m.types[nm] = Ty('opaque') if mm.group(2).strip() == 'opaque' else p.type()
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            parse_func(m, ln, lines[i+1:j]); i = j
        elif ln.startswith('declare'):
            f = parse_proto(m, ln); m.decls[f.name] = f
        i += 1
    return m

def parse_global(m, ln):
    p = P(strip_md(ln), m)
    g = Glob(); g.name = unq(p.next()); p.exp('=')
    g.const = False; g.extern = False
    isalias = False
    while True:
        w = p.peek()
        if w == 'thread_local':
            p.next()
            if p.acc('('): p.next(); p.exp(')')
            continue
        if w in ('addrspace',): raise IRError('addrspace')
        if w in ('constant', 'global'):
            p.next(); g.const = (w == 'constant'); break
        if w in ('alias', 'ifunc'):
            p.next(); isalias = True; break
        if w in ('external', 'extern_weak'): g.extern = True
        if w in FN_PRE: p.next(); continue
        raise IRError('global ' + ln[:200])
    g.ty = p.type(); g.init = None; g.align = None
    if isalias:
        p.exp(',')
        t = p.type(); v = p.value(t)
        m.aliases[g.name] = v.v
        return
    if not g.extern: g.init = p.value(g.ty)
    mm = re.search(r', align (\d+)', ln)
    if mm: g.align = int(mm.group(1))
    m.globs[g.name] = g

def strip_md(ln):
    # drop trailing ", !foo !12" attachments
    ln = re.sub(r'(, ![A-Za-z_.]+ (![0-9]+|!\{\}))+\s*$', '', ln)
    return ln

def parse_proto(m, ln):
    ln = strip_md(ln)
    p = P(ln.rstrip('{ '), m)
    p.next()
    f = Func(); f.linkage = None
    while p.peek() in FN_PRE or p.kind() == 'str':
        f.linkage = f.linkage or p.peek(); p.next()
    p.param_attrs()
    f.ret = p.type()
    f.name = unq(p.next()); p.exp('(')
    f.params = []; f.va = False; k = 0
    while not p.acc(')'):
        if p.acc('...'): f.va = True; continue
        t = p.type(); at = p.param_attrs() if t.k != 'metadata' else {}
        nm = None
        if p.kind() == 'local': nm = unq(p.next())
        else: nm = str(k)
        f.params.append((t, nm, at)); k += 1
        p.acc(',')
    mm = re.search(r'#(\d+)', ln.split(')')[-1])
    f.attrs = ln
    return f

def parse_func(m, head, body):
    f = parse_proto(m, head)
    f.blocks = []
    cur = None
    # join continuation lines
    joined = []
    for ln in body:
        if not ln.strip(): continue
        if ln.startswith('   ') or ln.startswith('  ]'):
            joined[-1] += ' ' + ln.strip()
        else: joined.append(ln)
    for ln in joined:
        if not ln.startswith(' '):
            lab = ln.split(';')[0].strip()
            assert lab.endswith(':'), ln
            lab = lab[:-1]
            if lab.startswith('"'): lab = lab[1:-1]
            cur = Block(lab); f.blocks.append(cur); continue
        if cur is None:
            nm = str(len([1 for q in f.params if q[1].isdigit()]))
            cur = Block(nm); f.blocks.append(cur)
        s = ln.strip()
        if s.startswith('#dbg') or s.startswith(';'): continue
        ins = parse_ins(m, s)
        if ins is not None: cur.ins.append(ins)
    m.funcs[f.name] = f

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

def parse_ins(m, s):
    dbg = None
    mm = re.search(r', !dbg !(\d+)', s)
    if mm: dbg = int(mm.group(1))
    s0 = s
    s = strip_md(s)
    p = P(s, m)
    res = None
    if p.kind() == 'local' and p.peek(1) == '=':
        res = unq(p.next()); p.next()
    op = p.next()
    I = None
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FMF: fl.add(p.next())
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        I = Ins(op, ty=t, a=a, b=b, flags=fl)
    elif op == 'fneg':
        while p.peek() in FMF: p.next()
        t = p.type(); I = Ins(op, ty=t, a=p.value(t))
    elif op in CAST:
        fl = set()
        while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF: fl.add(p.next())
        t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
        I = Ins(op, ty=t2, a=a, flags=fl)
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FMF: p.next()
        pr = p.next()
        while p.peek() in FMF: p.next()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        rt = I1 if t.k != 'vec' else Ty('vec', n=t.n, e=I1)
        I = Ins(op, pred=pr, ty=rt, a=a, b=b)
    elif op == 'alloca':
        while p.peek() in ('inalloca',): p.next()
        t = p.type(); cnt = None; al = None
        while p.acc(','):
            if p.acc('align'): al = int(p.next())
            else: cnt = p.tval()
        I = Ins(op, ty=PTR, ety=t, cnt=cnt, align=al)
    elif op == 'load':
        at = p.acc('atomic'); p.acc('volatile')
        t = p.type(); p.exp(','); a = p.tval()
        I = Ins(op, ty=t, a=a, atomic=at)
    elif op == 'store':
        at = p.acc('atomic'); p.acc('volatile')
        v = p.tval(); p.exp(','); a = p.tval()
        I = Ins(op, ty=VOID, v=v, a=a, atomic=at)
    elif op == 'getelementptr':
        fl = set()
        while p.peek() in ('inbounds', 'nuw', 'nusw'): fl.add(p.next())
        st = p.type(); a = []
        while p.acc(','): a.append(p.tval())
        I = Ins(op, ty=PTR, sty=st, args=a)
    elif op == 'phi':
        while p.peek() in FMF: p.next()
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = unq(p.next()); p.exp(']'); inc.append((v, b))
            if not p.acc(','): break
        I = Ins(op, ty=t, inc=inc)
    elif op == 'select':
        while p.peek() in FMF: p.next()
        c = p.tval(); p.exp(','); a = p.tval(); p.exp(','); b = p.tval()
        I = Ins(op, ty=a.ty, c=c, a=a, b=b)
    elif op == 'br':
        if p.acc('label'): I = Ins('br', dest=unq(p.next()))
        else:
            c = p.tval(); p.exp(','); p.exp('label'); a = unq(p.next()); p.exp(','); p.exp('label'); b = unq(p.next())
            I = Ins('condbr', c=c, t=a, f=b)
    elif op == 'switch':
        v = p.tval(); p.exp(','); p.exp('label'); d = unq(p.next()); p.exp('['); cs = []
        while not p.acc(']'):
            k = p.tval(); p.exp(','); p.exp('label'); cs.append((k, unq(p.next())))
        I = Ins(op, v=v, default=d, cases=cs)
    elif op == 'ret':
        if p.peek() == 'void': I = Ins(op, v=None)
        else: I = Ins(op, v=p.tval())
    elif op in ('unreachable', 'resume'):
        I = Ins(op)
    elif op in ('call', 'invoke'):
        while p.peek() in FMF or p.peek() in FN_PRE: p.next()
        p.param_attrs()
        rt = p.type0()
        fty = None
        if p.peek() == '(' :
            # either a full fn type (varargs) or call args (never: callee comes first)
            save = p.i; p.i = p.i
            p.next(); args = []; va = False
            while not p.acc(')'):
                if p.acc('...'): va = True
                else: args.append(p.type())
                p.acc(',')
            fty = Ty('fn', ret=rt, args=args, va=va)
        if p.kind() == 'word' and p.peek() == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
            a = p.next(); p.exp(','); c = p.next()
            callee = Val('asm', PTR, (a, c))
        else: callee = p.value(PTR)
        p.exp('('); args = []
        while not p.acc(')'):
            args.append(p.tval()); p.acc(',')
        I = Ins('call', ty=rt, callee=callee, args=args, fty=fty, normal=None)
        if op == 'invoke':
            mm = re.search(r'to label (%(?:"[^"]*"|[-A-Za-z$._0-9]+))', s)
            I.normal = unq(mm.group(1))
    elif op == 'extractvalue':
        a = p.tval(); ix = []
        while p.acc(','): ix.append(int(p.next()))
        I = Ins(op, a=a, idx=ix, ty=None)
    elif op == 'insertvalue':
        a = p.tval(); p.exp(','); b = p.tval(); ix = []
        while p.acc(','): ix.append(int(p.next()))
        I = Ins(op, a=a, b=b, idx=ix, ty=a.ty)
    elif op == 'extractelement':
        a = p.tval(); p.exp(','); b = p.tval(); I = Ins(op, a=a, i=b, ty=a.ty.e)
    elif op == 'insertelement':
        a = p.tval(); p.exp(','); b = p.tval(); p.exp(','); i = p.tval(); I = Ins(op, a=a, b=b, i=i, ty=a.ty)
    elif op == 'shufflevector':
        a = p.tval(); p.exp(','); b = p.tval(); p.exp(','); c = p.tval()
        I = Ins(op, a=a, b=b, m=c, ty=Ty('vec', n=c.ty.n, e=a.ty.e))
    elif op == 'freeze':
        a = p.tval(); I = Ins(op, a=a, ty=a.ty)
    elif op == 'landingpad':
        I = Ins(op, ty=p.type())
    elif op == 'atomicrmw':
        p.acc('volatile'); o = p.next(); a = p.tval(); p.exp(','); v = p.tval()
        I = Ins(op, rop=o, a=a, v=v, ty=v.ty)
    elif op == 'cmpxchg':
        p.acc('weak'); p.acc('volatile'); a = p.tval(); p.exp(','); c = p.tval(); p.exp(','); n = p.tval()
        I = Ins(op, a=a, c=c, n=n, ty=Ty('struct', fs=[c.ty, I1]))
    elif op == 'fence': return None
    else:
        raise IRError('instruction %r: %s' % (op, s[:200]))
    I.res = res; I.text = s; I.dbg = dbg
    return I
