"""Loop contracts on the extracted code.

    //@ loop fn=<regex on the demangled function> idx=<n-th loop> inv=<ghost> havoc=<ghost> args=<a,b,..> set=<id>

`inv` (returns bool) and `havoc` (writes arbitrary values into whatever the loop may modify, declaring it with
vp_mod(ptr, size), and assumes definitions of ghost functions; if it returns a value that is phi0's arbitrary value) are extern "C" functions of the contract file called
with the bound arguments: #k is the k-th parameter of the function, phi<k> the k-th loop-carried variable.
`all=1` gives every loop of the function the same contract (each loop-carried variable arbitrary).
Entering the loop: assert inv; loop-carried variables and declared memory become arbitrary; assume inv.
Reaching a back edge: assert inv and that nothing outside the declared memory was written; that path ends there.
If the contract does not fit the current shape of the code the binding fails and the bounded twin decides alone."""
import re
from .ir import IRError
from .emit_c import san

class Spec:
    def __init__(s, l):
        s.d = l; s.fn = l['fn'].strip('"'); s.rx = re.compile(s.fn); s.idx = int(l.get('idx', 0))
        s.inv = l['inv']; s.hv = l['havoc']; s.all = 'all' in l; s.args = [a for a in l.get('args', '').split(',') if a]; s.used = False
    def matches(s, n, dn): return bool(s.rx.search(dn)) and not n.startswith('ct_')
    def fnnames(s): return [s.inv, s.hv]
    def bind(s, em, f, h, backs, body):
        hb = next(b for b in f.blocks if b.name == h)
        phis = [i for i in hb.ins if i.op == 'phi']
        vals = []; tys = []
        for a in s.args:
            m = re.fullmatch(r'#(\d+)', a)
            if m:
                if int(m.group(1)) >= len(f.params): raise IRError('no parameter ' + a)
                t, n, at = f.params[int(m.group(1))]
                vals.append(em.lname(n)); tys.append(t); continue
            m = re.fullmatch(r'phi(\d+)', a)
            if m:
                if int(m.group(1)) >= len(phis): raise IRError('no loop variable ' + a)
                i = phis[int(m.group(1))]
                vals.append(em.lname(i.res)); tys.append(i.ty); continue
            # a value computed before the loop, by name
            c = [i for b in f.blocks for i in b.ins if i.res is not None and re.fullmatch(a.replace('*', '.*'), i.res) and b.name not in body]
            if len(c) != 1: raise IRError('cannot bind ' + a)
            vals.append(em.lname(c[0].res)); tys.append(c[0].ty)
        for g in (s.inv, s.hv):
            gf = em.m.funcs.get(g)
            if gf is None: raise IRError('no ghost ' + g)
            if g == s.hv and gf.ret.k != 'void' and (not phis or gf.ret.key() != phis[0].ty.key()): raise IRError('%s: result type does not match' % g)
            if [t.key() for t, _, _ in gf.params] != [t.key() for t in tys]: raise IRError('%s: argument types do not match' % g)
        # locals of the loop's own function kept in memory must not change inside the body
        al = {i.res for b in f.blocks for i in b.ins if i.op == 'alloca'}
        for b in f.blocks:
            if b.name not in body: continue
            for i in b.ins:
                if i.op == 'store' and i.a.k == 'local' and i.a.v in al: raise IRError('loop writes local memory')
        call = lambda g: '%s(%s)' % (em.fname(g), ', '.join(vals))
        lab = re.sub(r'[^A-Za-z0-9_:<>~ ,()]', '_', em.dm.get(f.name, f.name))[:80]
        hv = ['%s = %s;' % (em.lname(i.res), em.nondet(i.ty)) for i in phis]
        enter = ['__CPROVER_assert(%s, "vp:ensures:loop invariant %s holds on entry @ %s");' % (call(s.inv), s.inv, lab)] + hv + \
            [('%s = ' % em.lname(phis[0].res) if em.m.funcs[s.hv].ret.k != 'void' else '') + '%s;' % call(s.hv), '__CPROVER_assume(%s);' % call(s.inv), 'if (!vp_lp) vp_bad = 0; vp_lp = 1;']
        back = ['vp_lp = 0;', '__CPROVER_assert(%s, "vp:ensures:loop invariant %s is preserved @ %s");' % (call(s.inv), s.inv, lab),
            '__CPROVER_assert(!vp_bad, "vp:ensures:the loop writes only what its contract declares @ %s");' % lab, '__CPROVER_assume(0);']
        return dict(backs=set(backs), enter=enter, back=back)

def mark(bc, specs, work, tag, sh, LLVM): return bc
