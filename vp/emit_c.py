"""LLVM IR -> C for CBMC.  Every IR instruction of every function reachable from the entry points is
translated; anything the translator does not know becomes a failing 'vp:unsupported' assertion."""
import re, struct
from .ir import *

def san(n):
    r = re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group()), n)
    return r

INTW = {8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64', 128: 'u128'}
SINTW = {8: 's8', 16: 's16', 32: 's32', 64: 's64', 128: 's128'}

def cont(n):
    for w in (8, 16, 32, 64, 128):
        if n <= w: return w
    raise IRError('i%d' % n)

class LoopSpec:
    """loop contract bound to (function, loop ordinal)"""
    def __init__(s, fn, idx, inv, havoc, dec=None, ghost=None):
        s.fn = fn; s.idx = idx; s.inv = inv; s.havoc = havoc; s.dec = dec; s.ghost = ghost; s.used = False

class Emit:
    def __init__(s, mod, opts=None, demangle=None):
        s.m = mod; s.o = opts or {}; s.dm = demangle or {}
        s.tdefs = []; s.tdone = {}; s.tnames = {}
        s.protos = []; s.bodies = []; s.unsup = []; s.externs = set(); s.nobl = 0
        s.loopspecs = s.o.get('loops', []); s.atomics = s.o.get('atomics'); s.replace = s.o.get('replace', {})
        s.fpuf = s.o.get('fpuf') == '1'; s.muluf = s.o.get('fpuf') == 'mul'
        s.loops_found = {}
        s.loop_warn = []

    # ------------------------------------------------------------------ types
    def ct(s, t):
        k = t.k
        if k == 'int':
            return 'u8' if t.n == 1 else INTW[cont(t.n)]
        if k == 'half': return '_Float16'
        if k in ('float', 'double', 'void'): return k
        if k == 'ptr': return 'ptr_t'
        if k in ('x86_fp80',): return 'long double'
        key = t.key()
        if key in s.tnames: return s.tnames[key]
        if k == 'named':
            nm = 'struct T_' + san(t.name)
            s.tnames[key] = nm
            b = s.m.types.get(t.name)
            if b is None or b.k == 'opaque':
                s.tdefs.append(nm + ' { u8 opaque; };'); return nm
            if b.k != 'struct': raise IRError('named non-struct')
            s.defstruct(nm, b); return nm
        if k == 'struct':
            nm = 'struct S_%d' % len(s.tnames); s.tnames[key] = nm
            s.defstruct(nm, t); return nm
        if k in ('arr', 'vec'):
            e = s.ct(t.e)
            nm = 'struct %s%d_%d' % ('A' if k == 'arr' else 'V', t.n, len(s.tnames)); s.tnames[key] = nm
            s.tdefs.append('%s { %s a[%d]; };' % (nm, e, t.n)); return nm
        raise IRError('ctype ' + k)
    def defstruct(s, nm, t):
        fs = ' '.join('%s f%d;' % (s.ct(f), i) for i, f in enumerate(t.fs))
        s.tdefs.append('%s { %s }%s;' % (nm, fs, ' __attribute__((packed))' if t.packed else ''))
    def res(s, t):
        return s.m.types[t.name] if t.k == 'named' else t
    def sizeof(s, t):
        t = s.res(t); k = t.k
        if k == 'int':
            b = (t.n + 7) // 8; a = s.alignof(t); return (b + a - 1) // a * a
        if k == 'half': return 2
        if k == 'float': return 4
        if k in ('double', 'ptr'): return 8
        if k in ('x86_fp80', 'fp128'): return 16
        if k == 'arr': return t.n * s.sizeof(t.e)
        if k == 'vec':
            b = t.n * s.sizeof(t.e); p = 1
            while p < b: p *= 2
            return p
        if k == 'struct':
            o = 0; al = 1
            for f in t.fs:
                a = 1 if t.packed else s.alignof(f); al = max(al, a); o = (o + a - 1) // a * a + s.sizeof(f)
            return (o + al - 1) // al * al
        raise IRError('sizeof ' + k)
    def alignof(s, t):
        t = s.res(t); k = t.k
        if k == 'int':
            b = (t.n + 7) // 8
            for w in (1, 2, 4, 8, 16):
                if b <= w: return w
            return 16
        if k == 'half': return 2
        if k == 'float': return 4
        if k in ('double', 'ptr'): return 8
        if k in ('x86_fp80', 'fp128'): return 16
        if k == 'arr': return s.alignof(t.e)
        if k == 'vec': return s.sizeof(t)
        if k == 'struct': return 1 if t.packed else max([1] + [s.alignof(f) for f in t.fs])
        raise IRError('align ' + k)

    # ------------------------------------------------------------------ values
    def intlit(s, n, v):
        v &= (1 << n) - 1
        w = cont(n)
        if w == 128:
            return '((((u128)0x%xULL)<<64)|(u128)0x%xULL)' % (v >> 64, v & (2**64-1))
        return '((%s)0x%x%s)' % ('u8' if n == 1 else INTW[w], v, 'ULL' if w == 64 else 'U')
    def fplit(s, t, v):
        if v.startswith('0xH'):
            b = int(v[3:], 16); f = struct.unpack('<e', struct.pack('<H', b))[0]
        elif v.startswith('0xK') or v.startswith('0xL'):
            raise IRError('fp80 const')
        elif v.startswith('0x'):
            f = struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
        else: f = float(v)
        c = s.ct(t)
        if f != f: return '((%s)__builtin_nan(""))' % c
        if f in (float('inf'), float('-inf')): return '((%s)(%s__builtin_inf()))' % (c, '-' if f < 0 else '')
        h = f.hex()
        return '((%s)%s)' % (c, h) if t.k != 'float' else '(%sf)' % h
    def val(s, v, F=None, glob=False):
        k = v.k; t = v.ty
        if k == 'local': return s.lname(v.v)
        if k == 'int': return s.intlit(t.n, v.v)
        if k == 'fp': return s.fplit(t, v.v)
        if k == 'null': return '((ptr_t)0)'
        if k == 'glob': return s.globref(v.v)
        if k in ('undef', 'poison'):
            if glob: return s.zero(t)
            return s.nondet(t)
        if k == 'zero':
            if t.k in ('int',): return s.intlit(t.n, 0)
            if t.k in ('half', 'float', 'double'): return '((%s)0)' % s.ct(t)
            if t.k == 'ptr': return '((ptr_t)0)'
            return s.zero(t) if glob else '((%s)%s)' % (s.ct(t), s.zero(t))
        if k == 'cstr':
            b = '{ {%s} }' % ','.join(map(str, v.v))
            return b if glob else '((%s)%s)' % (s.ct(t), b)
        if k == 'agg':
            a = [s.val(x, F, glob) for x in v.args]
            rt = s.res(t)
            b = ('{ {%s} }' if rt.k in ('arr', 'vec') else '{ %s }') % ','.join(a)
            return b if glob else '((%s)%s)' % (s.ct(t), b)
        if k == 'ce':
            if v.op == 'gep': return s.gep(v.srcty, v.args, F)
            if v.op == 'ptrtoint': return '((%s)(%s))' % (s.ct(t), s.val(v.args[0], F, glob))
            if v.op == 'inttoptr': return '((ptr_t)(%s))' % s.val(v.args[0], F, glob)
            if v.op in ('bitcast',): return s.val(v.args[0], F, glob)
            if v.op in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
                o = dict(add='+', sub='-', mul='*', xor='^')
                o.update({'and': '&', 'or': '|'})
                return '((%s)(%s %s %s))' % (s.ct(t), s.val(v.args[0], F, glob), o[v.op], s.val(v.args[1], F, glob))
            if v.op in ('trunc', 'zext'):
                return '((%s)(%s))' % (s.ct(t), s.val(v.args[0], F, glob))
        raise IRError('val %s %s' % (k, v.op))
    def zero(s, t):
        t = s.res(t)
        if t.k in ('arr', 'vec'): return '{ {%s} }' % (s.zero(t.e) if t.n else '')
        if t.k == 'struct': return '{ %s }' % ','.join(s.zero(f) for f in t.fs)
        return '0'
    def nondet(s, t):
        c = s.ct(t); n = 'vp_undef_' + san(c)
        if n not in s.tdone:
            s.tdone[n] = 1
            s.undefs = getattr(s, 'undefs', [])
            m = ' v &= (%s)0x%xULL;' % (c, (1 << t.n) - 1) if t.k == 'int' and t.n not in INTW and t.n < 64 else ''
            if t.k == 'int' and t.n == 1: m = ' v &= 1;'; 
            if t.k == 'int' and t.n == 1: n1 = n + '_1'
            s.undefs.append('static inline %s %s(void) { %s v;%s return v; }' % (c, n, c, '' ))
        if t.k == 'int' and t.n not in INTW: return '((%s)(%s() & %s))' % (c, n, s.intlit(t.n, -1))
        return n + '()'
    def globref(s, n):
        n = s.m.aliases.get(n, n)
        if n in s.m.globs: return '((ptr_t)&%s)' % s.gname(n)
        return '((ptr_t)&%s)' % s.fname(n)
    def gname(s, n): return 'g_' + san(n)
    def fname(s, n):
        n = s.m.aliases.get(n, n)
        n = s.replace.get(n, n)
        if n in s.m.funcs: return 'f_' + san(n) if not n.startswith('ct_') else san(n)
        s.externs.add(n)
        return 'x_' + san(n)
    def lname(s, n): return 'v_' + san(n)

    def gep(s, sty, args, F=None):
        base = s.val(args[0], F, True)
        t = sty
        i0 = args[1]
        def idx(a):
            if a.k == 'int':
                v = a.v
                return str(v)
            n = a.ty.n
            w = cont(n)
            return '(s64)(%s)(%s)' % (SINTW[w], s.val(a, F))
        rt = s.res(t)
        if len(args) == 2:
            if t.k == 'int' and t.n not in INTW: raise IRError('gep i%d' % t.n)
            return '((ptr_t)(((%s*)(%s)) + %s))' % (s.ct(t), base, idx(i0))
        e = '((%s*)(%s))' % (s.ct(t), base)
        if i0.k == 'int' and i0.v == 0: e = '(*%s)' % e
        else: e = '(%s[%s])' % (e, idx(i0))
        for a in args[2:]:
            t = s.res(t)
            if t.k == 'struct':
                e += '.f%d' % a.v; t = t.fs[a.v]
            elif t.k in ('arr', 'vec'):
                e += '.a[%s]' % idx(a); t = t.e
            else: raise IRError('gep into ' + t.k)
        return '((ptr_t)&(%s))' % e

    # ------------------------------------------------------------------ module
    def run(s, entries):
        m = s.m
        # reachable
        todo = list(entries); seen = set()
        gl = set()
        def visit(v):
            if v is None: return
            if v.k == 'glob':
                n = m.aliases.get(v.v, v.v)
                n = s.replace.get(n, n)
                if n in m.globs:
                    if n not in gl:
                        gl.add(n)
                        if m.globs[n].init is not None: visit(m.globs[n].init)
                elif n not in seen: todo.append(n)
            for a in (v.args or []): visit(a)
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            f = m.funcs.get(n)
            if not f: continue
            for b in f.blocks:
                for i in b.ins:
                    for x in s.operands(i): visit(x)
            for ls in s.loopspecs:
                if ls.matches(n, s.dm.get(n, n)):
                    for g in ls.fnnames(): todo.append(g)
            if s.atomics: todo += [g for g in ('vp_atomic_pre', 'vp_atomic_post') if g not in seen]
        s.reach = [n for n in m.funcs if n in seen]
        for n in s.reach: s.proto(m.funcs[n])
        s.gdefs = []
        for n in sorted(gl):
            g = m.globs[n]
            c = s.ct(g.ty)
            s.gdefs.append('%s%s %s;' % ('extern ' if g.init is None else 'static ', c, s.gname(n)))
        for n in sorted(gl):
            g = m.globs[n]
            if g.init is None: continue
            c = s.ct(g.ty)
            iv = s.val(g.init, None, True)
            s.gdefs.append('static %s %s = %s;' % (c, s.gname(n), iv))
        for n in s.reach: s.func(m.funcs[n])
        ext = []
        for n in sorted(s.externs): ext.append(n)
        return ext
    def text(s, prelude, externdecl):
        return '\n'.join([prelude] + s.tdefs + getattr(s, 'undefs', []) + [externdecl] + s.protos + s.gdefs + s.bodies) + '\n'
    def operands(s, i):
        out = []
        for a in ('a', 'b', 'c', 'v', 'n', 'i', 'cnt', 'callee', 'm'):
            x = getattr(i, a, None)
            if isinstance(x, Val): out.append(x)
        if hasattr(i, 'args'): out += [x for x in i.args]
        if hasattr(i, 'inc'): out += [v for v, _ in i.inc]
        if hasattr(i, 'cases'): out += [v for v, _ in i.cases]
        return out
    def sig(s, f):
        ps = ', '.join('%s %s' % (s.ct(t), s.lname(n)) for t, n, at in f.params) or 'void'
        return '%s %s(%s)' % (s.ct(f.ret), s.fname(f.name), ps)
    def proto(s, f):
        s.protos.append(s.sig(f) + ';')

    # ------------------------------------------------------------------ functions
    def func(s, f):
        mark = len(s.bodies)
        s.cur = f
        try:
            s.func0(f)
        except IRError as e:
            del s.bodies[mark:]
            s.unsup.append((f.name, str(e)))
            ps = s.sig(f)
            s.bodies.append('%s { __CPROVER_assert(0, "vp:unsupported:%s"); __CPROVER_assume(0); %s }' %
                (ps, san(f.name)[:60], '' if f.ret.k == 'void' else '%s r; return r;' % s.ct(f.ret)))

    def func0(s, f):
        o = []
        o.append(s.sig(f) + ' {')
        decl = []
        s.types_local = {}
        for t, n, at in f.params:
            s.types_local[n] = t
            if 'byval' in at:
                bt = s.ct(at['byval'])
                decl.append('  %s bv_%s = *(%s*)%s; %s = (ptr_t)&bv_%s;' % (bt, san(n), bt, s.lname(n), s.lname(n), san(n)))
        # result types
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'extractvalue':
                    t = i.a.ty
                    for x in i.idx:
                        t = s.res(t); t = t.fs[x] if t.k == 'struct' else t.e
                    i.ty = t
                if i.res is not None:
                    if i.op == 'alloca':
                        if i.cnt is not None and not (i.cnt.k == 'int'):
                            raise IRError('dynamic alloca')
                        n = i.cnt.v if i.cnt is not None else 1
                        c = s.ct(i.ety)
                        decl.append('  %s al_%s%s;' % (c, san(i.res), '[%d]' % n if n != 1 else ''))
                        decl.append('  ptr_t %s = (ptr_t)&al_%s;' % (s.lname(i.res), san(i.res)))
                        if i.align and i.align > s.alignof(i.ety): 
                            decl.append('  __CPROVER_assume(((u64)%s & %dULL) == 0);' % (s.lname(i.res), i.align-1))
                    else:
                        decl.append('  %s %s;' % (s.ct(i.ty), s.lname(i.res)))
        o += decl
        s.f = f
        s.loopinfo(f)
        for bi, b in enumerate(f.blocks):
            if bi == 0:
                o.append('  goto B_%s;' % san(b.name))
            o.append(' B_%s: ;' % san(b.name))
            for i in b.ins:
                try:
                    for l in s.ins(f, b, i): o.append('  ' + l)
                except IRError as e:
                    s.unsup.append((f.name, '%s: %s' % (e, i.text[:160])))
                    o.append('  __CPROVER_assert(0, "vp:unsupported:%s"); __CPROVER_assume(0);' % re.sub(r'[^A-Za-z0-9 ]', '_', str(e))[:60])
                    if i.op in ('br', 'condbr', 'switch', 'ret'): raise
        o.append('}')
        s.bodies.append('\n'.join(o))

    # ---- loops
    def loopinfo(s, f):
        s.loop_hdr = {}
        name = f.name; dn = s.dm.get(name, name)
        specs = [ls for ls in s.loopspecs if ls.matches(name, dn)]
        succ = {}; pred = {b.name: [] for b in f.blocks}
        for b in f.blocks:
            i = b.ins[-1]
            ss = []
            if i.op == 'br': ss = [i.dest]
            elif i.op == 'condbr': ss = [i.t, i.f]
            elif i.op == 'switch': ss = [i.default] + [d for _, d in i.cases]
            elif i.op == 'call' and i.normal: ss = [i.normal]
            succ[b.name] = ss
            for x in ss: pred[x].append(b.name)
        order = [b.name for b in f.blocks]
        entry = order[0]
        reach = set(); st = [entry]
        while st:
            x = st.pop()
            if x in reach: continue
            reach.add(x); st += succ[x]
        dom = {n: set(reach) for n in reach}; dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == entry or n not in reach: continue
                ps = [dom[p] for p in pred[n] if p in reach]
                d = set.intersection(*ps) | {n} if ps else {n}
                if d != dom[n]: dom[n] = d; ch = True
        hdrs = []
        for h in order:
            if h not in reach: continue
            backs = [p for p in pred[h] if p in reach and h in dom[p]]
            if backs:
                body = {h}; st = list(backs)
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += pred[x]
                hdrs.append((h, backs, body))
        s.loops_found[name] = len(hdrs)
        s.nloops = hdrs
        if not specs: return
        for ls in specs:
            if ls.all:
                for h, backs, body in hdrs:
                    try: s.loop_hdr[h] = ls.bind(s, f, h, backs, body)
                    except IRError as e: s.loop_warn.append('%s: %s' % (dn, e))
                ls.used = True
                continue
            if ls.idx >= len(hdrs):
                s.loop_warn.append('%s: loop %d not found' % (dn, ls.idx)); continue
            h, backs, body = hdrs[ls.idx]
            try:
                s.loop_hdr[h] = ls.bind(s, f, h, backs, body)
                ls.used = True
            except IRError as e:
                s.loop_warn.append('%s: %s' % (dn, e))

    def edge(s, f, b, dest):
        """code for the edge b -> dest (phi copies, loop contract, goto)"""
        out = []
        db = next(x for x in f.blocks if x.name == dest)
        ph = [i for i in db.ins if i.op == 'phi']
        if ph:
            tmp = []; asg = []
            for k, i in enumerate(ph):
                v = [v for v, bn in i.inc if bn == b.name][0]
                if v.k in ('undef', 'poison'): e = s.nondet(v.ty)
                else: e = s.val(v)
                if len(ph) == 1: asg.append('%s = %s;' % (s.lname(i.res), e))
                else:
                    tmp.append('%s ph%d = %s;' % (s.ct(i.ty), k, e)); asg.append('%s = ph%d;' % (s.lname(i.res), k))
            out += tmp + asg
        if dest in s.loop_hdr:
            L = s.loop_hdr[dest]
            if b.name in L['backs']:
                out += L['back']
            else: out += L['enter'] + ['goto B_%s;' % san(dest)]
            if b.name in L['backs']: pass
        else:
            out.append('goto B_%s;' % san(dest))
        return '{ ' + ' '.join(out) + ' }'

    # ---- instructions
    def msk(s, t, e):
        """expression e wrapped to the width of t"""
        n = t.n; c = s.ct(t)
        if n in INTW: return '(%s)(%s)' % (c, e)
        return '(%s)((%s) & %s)' % (c, e, s.intlit(n, -1))
    def sx(s, t, e):
        """value e of int type t as a signed C value"""
        n = t.n; w = cont(n)
        if n in INTW: return '((%s)(%s))' % (SINTW[w], e)
        W = max(w, 32)
        return '(((%s)((%s)(%s) << %d)) >> %d)' % (SINTW[W], INTW[W], e, W - n, W - n)
    def up(s, t):
        return INTW[max(cont(t.n), 32)]

    def binop(s, op, t, a, b, flags=()):
        out = []
        U = s.up(t)
        ua, ub = '(%s)%s' % (U, a), '(%s)%s' % (U, b)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            if 'nsw' in flags and s.o.get('check_nsw') and op in ('add', 'sub', 'mul'):
                W = cont(t.n)
                w2 = {8: 's32', 16: 's32', 32: 's64', 64: 's128', 128: None}[W]
                if w2:
                    e = '(%s)%s %s (%s)%s' % (w2, s.sx(t, a), o, w2, s.sx(t, b))
                    out.append(s.assert_('(%s) == (%s)(%s)(%s)' % (e, w2, SINTW[W], e), 'ub:signed overflow'))
            if op == 'mul' and s.muluf and t.n in (32, 64):
                if re.fullmatch(r'\(\(\w+\)0x[0-9a-f]+U?L*\)', a): a, b = b, a
                return out, '__CPROVER_uninterpreted_mul%d(%s, %s)' % (t.n, a, b)
            return out, s.msk(t, '%s %s %s' % (ua, o, ub))
        if op in ('udiv', 'urem'):
            out.append(s.assert_('%s != 0' % b, 'ub:division by zero'))
            return out, s.msk(t, '%s %s %s' % (ua, '/' if op == 'udiv' else '%', ub))
        if op in ('sdiv', 'srem'):
            out.append(s.assert_('%s != 0' % b, 'ub:division by zero'))
            out.append(s.assert_('!(%s == %s && %s == %s)' % (a, s.intlit(t.n, 1 << (t.n-1)), b, s.intlit(t.n, -1)), 'ub:signed division overflow'))
            return out, s.msk(t, '%s %s %s' % (s.sx(t, a), '/' if op == 'sdiv' else '%', s.sx(t, b)))
        if op in ('shl', 'lshr', 'ashr'):
            if not re.fullmatch(r'\(\(\w+\)0x[0-9a-f]+U?L*\)', b):
                out.append(s.assert_('(%s) < %d' % (b, t.n), 'ub:shift amount'))
            if op == 'shl': return out, s.msk(t, '%s << %s' % (ua, b))
            if op == 'lshr': return out, s.msk(t, '%s >> %s' % (ua, b))
            return out, s.msk(t, '%s >> %s' % (s.sx(t, a), b))
        raise IRError(op)

    def assert_(s, c, label):
        s.nobl += 1
        fn = s.dm.get(s.cur.name, s.cur.name)
        fn = re.sub(r'[^A-Za-z0-9_:<>~ ,()]', '_', fn)[:90]
        return '__CPROVER_assert(%s, "vp:%s @ %s");' % (c, label, fn)

    def fp(s, op, t, a, b):
        k = t.k
        if s.fpuf and op in ('fmul', 'fdiv', 'fadd', 'fsub'):
            if k == 'half': return '(_Float16)vp_uf_%s_float((float)(%s), (float)(%s))' % (op, a, b)
            return 'vp_uf_%s_%s(%s, %s)' % (op, k, a, b)
        o = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}.get(op)
        if op == 'frem': raise IRError('frem')
        return '(%s)(%s %s %s)' % (s.ct(t), a, o, b)

    def wr(s, v, n):
        """frame obligation for a write while a loop contract is active"""
        if not s.loopspecs: return []
        if v is not None and v.k == 'local':
            al = s.allocas()
            if v.v in al and not any(ls.matches(s.f.name, s.dm.get(s.f.name, s.f.name)) for ls in s.loopspecs): return []
        return ['vp_wr(%s, %s);' % (s.val(v), n)] if v is not None else ['vp_bad = vp_lp ? 1 : vp_bad;']
    def allocas(s):
        if getattr(s, 'al_f', None) is s.f: return s.al_s
        r = {i.res for b in s.f.blocks for i in b.ins if i.op == 'alloca'}
        ch = True
        while ch:
            ch = False
            for b in s.f.blocks:
                for i in b.ins:
                    if i.op == 'getelementptr' and i.res not in r and i.args[0].k == 'local' and i.args[0].v in r: r.add(i.res); ch = True
        s.al_f = s.f; s.al_s = r
        return r
    def strarg(s, v):
        """constant C string behind a pointer operand, or None"""
        n = None
        if v.k == 'glob': n = s.m.aliases.get(v.v, v.v)
        g = s.m.globs.get(n)
        if g and g.init is not None and g.init.k == 'cstr':
            return g.init.v.rstrip(b'\0').decode('latin1')
        return None

    def tn(s):
        s.tmpn = getattr(s, 'tmpn', 0) + 1
        return s.tmpn
    def ins(s, f, b, i):
        if s.atomics and (i.op in ('atomicrmw', 'cmpxchg') or (i.op in ('load', 'store') and i.atomic)) and not f.name.startswith('vp_'):
            # other threads may act before every atomic access; the contract's ghost functions say how
            od = max([('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst').index(x) for x in re.findall(r'\b(unordered|monotonic|acquire|release|acq_rel|seq_cst)\b', i.text)][:1] or [0])
            p = s.val(i.a)
            return ['%s((ptr_t)(%s));' % (s.fname('vp_atomic_pre'), p)] + s.ins_(f, b, i) + ['%s((ptr_t)(%s), %d);' % (s.fname('vp_atomic_post'), p, od)]
        return s.ins_(f, b, i)
    def ins_(s, f, b, i):
        op = i.op
        R = s.lname(i.res) if i.res is not None else None
        if op == 'phi' or op == 'alloca': return []
        if op in BIN:
            if op[0] == 'f':
                if i.ty.k == 'vec':
                    return ['%s.a[%d] = %s;' % (R, q, s.fp(op, i.ty.e, '%s.a[%d]' % (s.val(i.a), q), '%s.a[%d]' % (s.val(i.b), q))) for q in range(i.ty.n)]
                return ['%s = %s;' % (R, s.fp(op, i.ty, s.val(i.a), s.val(i.b)))]
            if i.ty.k == 'vec':
                out = []
                for q in range(i.ty.n):
                    pre, e = s.binop(op, i.ty.e, '(%s.a[%d])' % (s.val(i.a), q), '(%s.a[%d])' % (s.val(i.b), q))
                    out += pre + ['%s.a[%d] = %s;' % (R, q, e)]
                return out
            pre, e = s.binop(op, i.ty, s.val(i.a), s.val(i.b), i.flags)
            return pre + ['%s = %s;' % (R, e)]
        if op == 'fneg': 
            if i.ty.k == 'vec': return ['%s.a[%d] = -(%s.a[%d]);' % (R, q, s.val(i.a), q) for q in range(i.ty.n)]
            return ['%s = -(%s);' % (R, s.val(i.a))]
        if op in CAST:
            st = i.a.ty; a = s.val(i.a); t = i.ty
            if st.k == 'vec' and op == 'bitcast' or t.k == 'vec' and op == 'bitcast':
                return ['{ union { %s x; %s y; } u; u.x = %s; %s = u.y; }' % (s.ct(st), s.ct(t), a, R)]
            if t.k == 'vec':
                out = []
                for q in range(t.n):
                    out.append('%s.a[%d] = %s;' % (R, q, s.cast(op, st.e, t.e, '(%s.a[%d])' % (a, q))))
                return out
            if op == 'bitcast' and st.key() != t.key():
                return ['{ union { %s x; %s y; } u; u.x = %s; %s = u.y; }' % (s.ct(st), s.ct(t), a, R)]
            return ['%s = %s;' % (R, s.cast(op, st, t, a))]
        if op == 'icmp':
            t = i.a.ty
            if t.k == 'vec':
                return ['%s.a[%d] = %s;' % (R, q, s.icmp(i.pred, t.e, '(%s.a[%d])' % (s.val(i.a), q), '(%s.a[%d])' % (s.val(i.b), q))) for q in range(t.n)]
            return ['%s = %s;' % (R, s.icmp(i.pred, t, s.val(i.a), s.val(i.b)))]
        if op == 'fcmp':
            return ['%s = %s;' % (R, s.fcmp(i.pred, s.val(i.a), s.val(i.b)))]
        if op == 'load':
            t = i.ty
            if t.k == 'int' and t.n not in INTW and t.n != 1:
                nb = (t.n + 7) // 8
                e = ' | '.join('((%s)((u8*)%s)[%d] << %d)' % (s.up(t), s.val(i.a), q, 8*q) for q in range(nb))
                return ['%s = %s;' % (R, s.msk(t, e))]
            if t.k == 'int' and t.n == 1:
                return ['%s = (*(u8*)(%s)) & 1;' % (R, s.val(i.a))]
            if t.k == 'vec' and t.e.k == 'int' and t.e.n == 1: raise IRError('load vec i1')
            return ['%s = *(%s*)(%s);' % (R, s.ct(t), s.val(i.a))]
        if op == 'store':
            t = i.v.ty
            w = s.wr(i.a, s.sizeof(t))
            if i.v.k in ('undef', 'poison'):
                return w + ['*(%s*)(%s) = %s;' % (s.ct(t), s.val(i.a), s.nondet(t))]
            if t.k == 'int' and t.n not in INTW and t.n != 1:
                nb = (t.n + 7) // 8
                return w + ['((u8*)%s)[%d] = (u8)(%s >> %d);' % (s.val(i.a), q, s.val(i.v), 8*q) for q in range(nb)]
            return w + ['*(%s*)(%s) = %s;' % (s.ct(t), s.val(i.a), s.val(i.v))]
        if op == 'getelementptr':
            if any(a.ty.k == 'vec' for a in i.args): raise IRError('vec gep')
            return ['%s = %s;' % (R, s.gep(i.sty, i.args))]
        if op == 'select':
            if i.c.ty.k == 'vec':
                return ['%s.a[%d] = %s.a[%d] ? %s.a[%d] : %s.a[%d];' % (R, q, s.val(i.c), q, s.val(i.a), q, s.val(i.b), q) for q in range(i.ty.n)]
            if s.res(i.ty).k in ('struct', 'arr', 'vec'):
                return ['if (%s) %s = %s; else %s = %s;' % (s.val(i.c), R, s.val(i.a), R, s.val(i.b))]
            return ['%s = %s ? %s : %s;' % (R, s.val(i.c), s.val(i.a), s.val(i.b))]
        if op == 'br': return [s.edge(f, b, i.dest)]
        if op == 'condbr':
            return ['if (%s) %s else %s' % (s.val(i.c), s.edge(f, b, i.t), s.edge(f, b, i.f))]
        if op == 'switch':
            out = []
            v = s.val(i.v)
            for c, d in i.cases:
                out.append('if (%s == %s) %s else' % (v, s.val(c), s.edge(f, b, d)))
            out.append(s.edge(f, b, i.default))
            return [' '.join(out)]
        if op == 'ret':
            if i.v is None: return ['return;']
            return ['return %s;' % s.val(i.v)]
        if op == 'unreachable':
            prev = [x for x in b.ins if x is not i]
            if prev and prev[-1].op == 'call' and prev[-1].callee.k == 'glob' and prev[-1].callee.v in NORETURN:
                return ['__CPROVER_assume(0);']
            return [s.assert_('0', 'ub:unreachable'), '__CPROVER_assume(0);']
        if op == 'resume': return ['__CPROVER_assume(0);']
        if op == 'landingpad': return ['__CPROVER_assume(0);']
        if op == 'extractvalue':
            e = '(%s)' % s.val(i.a); t = i.a.ty
            for x in i.idx:
                t = s.res(t)
                if t.k == 'struct': e += '.f%d' % x; t = t.fs[x]
                else: e += '.a[%d]' % x; t = t.e
            return ['%s = %s;' % (R, e)]
        if op == 'insertvalue':
            out = []
            if i.a.k not in ('undef', 'poison'): out.append('%s = %s;' % (R, s.val(i.a)))
            e = R; t = i.a.ty
            for x in i.idx:
                t = s.res(t)
                if t.k == 'struct': e += '.f%d' % x; t = t.fs[x]
                else: e += '.a[%d]' % x; t = t.e
            out.append('%s = %s;' % (e, s.val(i.b)))
            return out
        if op == 'extractelement':
            return ['%s = %s.a[%s];' % (R, s.val(i.a), s.val(i.i))]
        if op == 'insertelement':
            out = []
            if i.a.k not in ('undef', 'poison'): out.append('%s = %s;' % (R, s.val(i.a)))
            out.append('%s.a[%s] = %s;' % (R, s.val(i.i), s.val(i.b)))
            return out
        if op == 'shufflevector':
            if i.m.k == 'zero': idx = [0] * i.m.ty.n
            else: idx = [x.v if x.k == 'int' else None for x in i.m.args]
            n = i.a.ty.n; out = []
            for q, x in enumerate(idx):
                if x is None: continue
                src = i.a if x < n else i.b
                if src.k in ('undef', 'poison'): continue
                out.append('%s.a[%d] = %s.a[%d];' % (R, q, s.val(src), x if x < n else x - n))
            return out
        if op == 'freeze': return ['%s = %s;' % (R, s.val(i.a))]
        if op == 'call': return s.call(f, b, i)
        if op == 'atomicrmw':
            c = s.ct(i.ty); p = '*(%s*)(%s)' % (c, s.val(i.a)); v = s.val(i.v)
            return s.rmw(i, c, p, v, R)
        if op == 'cmpxchg':
            c = s.ct(i.c.ty); p = '*(%s*)(%s)' % (c, s.val(i.a))
            T = 'cx%d' % s.tn()
            return ['%s %s = %s; %s.f1 = (%s == %s); if (%s.f1) %s = %s; %s.f0 = %s;' % (c, T, p, R, T, s.val(i.c), R, p, s.val(i.n), R, T)] if R else \
                ['if (%s == %s) %s = %s;' % (p, s.val(i.c), p, s.val(i.n))]
        raise IRError('ins ' + op)

    def rmw(s, i, c, p, v, R):
        pre = ['%s = %s;' % (R, p)] if R else []
        o = {'add': '+', 'sub': '-', 'and': '&', 'or': '|', 'xor': '^'}
        if i.rop == 'xchg': return pre + ['%s = %s;' % (p, v)]
        if i.rop in o: return pre + ['%s = (%s)(%s %s %s);' % (p, c, p, o[i.rop], v)]
        raise IRError('atomicrmw ' + i.rop)

    def icmp(s, pr, t, a, b):
        if t.k == 'ptr':
            if pr in ('eq', 'ne'): return '(%s %s %s)' % (a, '==' if pr == 'eq' else '!=', b)
            o = {'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<='}[pr]
            return '(%s %s %s)' % (a, o, b)
        o = {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}
        if pr in ('eq', 'ne'): return '(%s %s %s)' % (a, o[pr], b)
        if pr[0] == 'u': return '(%s %s %s)' % (a, o[pr[1:]], b)
        return '(%s %s %s)' % (s.sx(t, a), o[pr[1:]], s.sx(t, b))
    def fcmp(s, pr, a, b):
        d = {'oeq': '(%s == %s)', 'ogt': '(%s > %s)', 'oge': '(%s >= %s)', 'olt': '(%s < %s)', 'ole': '(%s <= %s)',
             'une': '(%s != %s)'}
        if pr in d: return d[pr] % (a, b)
        inv = {'ugt': '(!(%s <= %s))', 'uge': '(!(%s < %s))', 'ult': '(!(%s >= %s))', 'ule': '(!(%s > %s))'}
        if pr in inv: return inv[pr] % (a, b)
        if pr == 'one': return '(%s < %s || %s > %s)' % (a, b, a, b)
        if pr == 'ueq': return '(!(%s < %s || %s > %s))' % (a, b, a, b)
        if pr == 'ord': return '(%s == %s && %s == %s)' % (a, a, b, b)
        if pr == 'uno': return '(%s != %s || %s != %s)' % (a, a, b, b)
        if pr == 'true': return '1'
        if pr == 'false': return '0'
        raise IRError('fcmp ' + pr)
    def cast(s, op, st, t, a):
        c = s.ct(t)
        if op == 'trunc': 
            return s.msk(t, a) if t.n in INTW else '(%s)((%s)%s & %s)' % (c, s.up(st), a, s.intlit(t.n, -1))
        if op == 'zext': return '(%s)%s' % (c, a)
        if op == 'sext':
            if st.n == 1: return '(%s)(%s ? %s : 0)' % (c, a, s.intlit(t.n, -1))
            return s.msk(t, '(%s)%s' % (SINTW[cont(t.n)], s.sx(st, a)))
        if op in ('fptrunc', 'fpext'): return '(%s)(%s)' % (c, a)
        if op == 'uitofp': return '(%s)(%s)' % (c, a)
        if op == 'sitofp': return '(%s)%s' % (c, s.sx(st, a))
        if op == 'fptoui': return '(%s)(%s)' % (c, a)
        if op == 'fptosi': return s.msk(t, '(%s)(%s)' % (SINTW[cont(t.n)], a))
        if op == 'ptrtoint': return '(%s)(u64)%s' % (c, a)
        if op == 'inttoptr': return '(ptr_t)(u64)%s' % a
        if op in ('bitcast', 'addrspacecast'): return a
        raise IRError(op)

    def call(s, f, b, i):
        R = s.lname(i.res) if i.res is not None else None
        post = []
        if i.normal is not None: post = [s.edge(f, b, i.normal)]
        c = i.callee
        if c.k == 'asm':
            if c.v[0] in ('""',) or 'pause' in c.v[0]: return post
            raise IRError('asm ' + c.v[0])
        A = [s.val(a) if a.k != 'meta' else None for a in i.args]
        if c.k == 'glob':
            n = s.m.aliases.get(c.v, c.v)
            if n.startswith('llvm.'): return s.intrinsic(n, i, A, R) + post
            if n in ('vp_ensures_', 'vp_invariant_'):
                lab = s.strarg(i.args[1]) or 'dynamic'
                s.nobl += 1
                return ['__CPROVER_assert(%s, "vp:ensures:%s");' % (A[0], lab.replace('"', "'").replace('\\', '/'))] + post
            if n == 'vp_requires_': return ['__CPROVER_assume(%s);' % A[0]] + post
            if n == 'vp_reached_': return ['__CPROVER_assert(0, "vp:reach:end of contract is reachable");'] + post
            if n in ('__assert_fail',):
                lab = s.strarg(i.args[0]) or '?'
                lab = lab.replace('"', "'").replace('\\', '/')
                s.nobl += 1
                return [s.assert_('0', 'assert:MUU_ASSERT(%s)' % lab), '__CPROVER_assume(0);'] + post
            fn = s.fname(n)
            if n in s.m.funcs or s.replace.get(n) in s.m.funcs:
                fd = s.m.funcs[s.replace.get(n, n)]
                args = A
            else:
                s.extsig(n, i)
                args = A
            call = '%s(%s)' % (fn, ', '.join(args))
        else:
            ft = '%s (*)(%s)' % (s.ct(i.ty), ', '.join(s.ct(a.ty) for a in i.args) or 'void')
            call = '((%s)%s)(%s)' % (ft, s.val(c), ', '.join(A))
        pre = s.wr(None, 0) if c.k != 'glob' or not (n in s.m.funcs or s.replace.get(n) in s.m.funcs or n.startswith('vp_') or n in ('memcmp', 'strlen')) else []
        if R: return pre + ['%s = %s;' % (R, call)] + post
        return pre + [call + ';'] + post

    def extsig(s, n, i):
        if not hasattr(s, 'extsigs'): s.extsigs = {}
        s.extsigs[n] = (s.ct(i.ty), [s.ct(a.ty) for a in i.args])

    def bytes_t(s, n):
        return s.ct(Ty('arr', n=n, e=Ty('int', n=8)))

    def intrinsic(s, n, i, A, R):
        p = n.split('.')
        base = p[1]
        two = '.'.join(p[1:3])
        if n == 'llvm.x86.sse2.pause' or base in ('lifetime', 'dbg', 'donothing', 'experimental', 'prefetch', 'invariant', 'stacksave', 'stackrestore', 'sideeffect', 'var', 'pseudoprobe'):
            if base == 'experimental' and 'noalias' not in n: raise IRError(n)
            return []
        if base == 'assume':
            if i.args[0].k == 'int' and i.args[0].v: return []
            return [s.assert_(A[0], 'assume:MUU_ASSUME holds'), '__CPROVER_assume(%s);' % A[0]]
        if base in ('memcpy', 'memmove'):
            if i.args[2].k == 'int':
                sz = i.args[2].v
                if sz == 0: return []
                if sz <= 16384:
                    t = s.bytes_t(sz)
                    return s.wr(i.args[0], sz) + ['{ %s mt = *(%s*)%s; *(%s*)%s = mt; }' % (t, t, A[1], t, A[0])]
            if s.o.get('bulk') == '1': return s.wr(i.args[0], A[2]) + ['vp_memmove_bulk(%s, %s, %s, %d);' % (A[0], A[1], A[2], base == 'memcpy')]
            return s.wr(i.args[0], A[2]) + ['vp_memmove(%s, %s, %s);' % (A[0], A[1], A[2])]
        if base == 'memset':
            if i.args[2].k == 'int' and i.args[2].v <= 16384 and i.args[1].k == 'int':
                sz = i.args[2].v
                if sz == 0: return []
                t = s.bytes_t(sz); b = i.args[1].v & 255
                return s.wr(i.args[0], sz) + ['{ %s mt = { {%s} }; *(%s*)%s = mt; }' % (t, ','.join([str(b)] * sz), t, A[0])]
            if s.o.get('bulk') == '1': return s.wr(i.args[0], A[2]) + ['vp_memset_bulk(%s, %s, %s);' % (A[0], A[1], A[2])]
            return s.wr(i.args[0], A[2]) + ['vp_memset(%s, %s, %s);' % (A[0], A[1], A[2])]
        ty = i.ty
        if base in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse'):
            w = ty.n
            if w not in INTW: raise IRError(n)
            if base in ('ctlz', 'cttz'):
                pre = []
                if i.args[1].v: pre = [s.assert_('%s != 0' % A[0], 'ub:%s of zero' % base)]
                return pre + ['%s = vp_%s%d(%s);' % (R, base, w, A[0])]
            return ['%s = vp_%s%d(%s);' % (R, base, w, A[0])]
        if base in ('fshl', 'fshr'):
            w = ty.n; W = INTW[w]
            if w not in (8, 16, 32, 64): raise IRError(n)
            sh = '((%s) %% %d)' % (A[2], w)
            if base == 'fshl':
                return ['%s = (%s)(%s == 0 ? %s : (((%s)%s << %s) | ((%s)%s >> (%d - %s))));' % (R, W, sh, A[0], W, A[0], sh, W, A[1], w, sh)]
            return ['%s = (%s)(%s == 0 ? %s : (((%s)%s << (%d - %s)) | ((%s)%s >> %s)));' % (R, W, sh, A[1], W, A[0], w, sh, W, A[1], sh)]
        if base in ('umin', 'umax', 'smin', 'smax'):
            o = '<' if base.endswith('min') else '>'
            x, y = (A[0], A[1]) if base[0] == 'u' else (s.sx(ty, A[0]), s.sx(ty, A[1]))
            return ['%s = %s %s %s ? %s : %s;' % (R, x, o, y, A[0], A[1])]
        if base == 'abs':
            return ['%s = %s < 0 ? %s : %s;' % (R, s.sx(ty, A[0]), s.msk(ty, '-(%s)%s' % (s.up(ty), A[0])), A[0])]
        if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and p[2] == 'with':
            it = s.res(ty).fs[0]; w = it.n
            o = {'add': '+', 'sub': '-', 'mul': '*'}[base[1:]]
            big = {8: 's32', 16: 's64', 32: 's64', 64: 's128'}.get(w)
            if not big: raise IRError(n)
            if base[0] == 'u':
                bigu = {8: 'u32', 16: 'u64', 32: 'u64', 64: 'u128'}[w]
                return ['{ %s r_ = (%s)%s %s (%s)%s; %s.f0 = (%s)r_; %s.f1 = (r_ != (%s)(%s)r_); }' % (bigu, bigu, A[0], o, bigu, A[1], R, INTW[w], R, bigu, INTW[w])]
            return ['{ %s r_ = (%s)%s %s (%s)%s; %s.f0 = (%s)r_; %s.f1 = (r_ != (%s)(%s)r_); }' % (big, big, s.sx(it, A[0]), o, big, s.sx(it, A[1]), R, INTW[w], R, big, SINTW[w])]
        if base in ('uadd', 'usub') and p[2] == 'sat':
            w = INTW[ty.n]
            if base == 'usub': return ['%s = %s > %s ? (%s)(%s - %s) : 0;' % (R, A[0], A[1], w, A[0], A[1])]
        if base in ('fabs', 'sqrt', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'copysign', 'minnum', 'maxnum', 'fma', 'fmuladd', 'sin', 'cos', 'pow', 'exp', 'log'):
            k = ty.k
            if base == 'fmuladd':
                return ['%s = %s;' % (R, s.fp('fadd', ty, s.fp('fmul', ty, A[0], A[1]), A[2]))]
            return ['%s = vp_%s_%s(%s);' % (R, base, k, ', '.join(A))]
        if base == 'is' and p[2] == 'constant': return ['%s = 0;' % R]
        if base == 'expect': return ['%s = %s;' % (R, A[0])]
        if base == 'objectsize': return ['%s = (%s)-1;' % (R, s.ct(ty))]
        if base in ('trap', 'ubsantrap'):
            return [s.assert_('0', 'ub:trap'), '__CPROVER_assume(0);']
        if base == 'threadlocal': return ['%s = %s;' % (R, A[0])]
        if base == 'launder' or base == 'strip' or base == 'ssa_copy': return ['%s = %s;' % (R, A[0])]
        if base == 'ptrmask': return ['%s = (ptr_t)((u64)%s & %s);' % (R, A[0], A[1])]
        if base == 'eh': return ['%s = 0;' % R]
        if base == 'is' and p[2] == 'fpclass': raise IRError(n)
        raise IRError('intrinsic ' + n)

NORETURN = {'__assert_fail', 'abort', '_ZSt9terminatev', 'exit', '__cxa_throw', '_ZSt20__throw_length_errorPKc',
            '_ZSt17__throw_bad_allocv', '__cxa_rethrow', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc',
            '_ZSt19__throw_logic_errorPKc', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt27__throw_bad_optional_accessv', '_ZSt21__throw_bad_exceptionv', '__clang_call_terminate'}
