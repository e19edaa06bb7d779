#!/usr/bin/env python3
"""Runs the check of one property: extract the real code, generate the obligations, discharge them, report."""
import sys, os, re, json, time, subprocess, tempfile, shutil, signal, glob, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from vp import ir, emit_c
REPO = os.environ.get('VP_REPO', '/repo')
NPROC = int(os.environ.get('VP_JOBS', '8'))
LLVM = '/usr/lib/llvm-18/bin/'

class ToolError(Exception):
    pass

def sh(cmd, timeout=600, mem_gb=None, cwd=None):
    pre = None
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return 'timeout', '', ''

# ------------------------------------------------------------------------------------------------ contract files
class Unit:
    """one contract file (one translation unit of contracts + the real sources it pulls in)"""
    def __init__(s, path):
        s.path = path; s.name = os.path.basename(path)[:-4]
        s.props = []; s.src = []; s.flags = []; s.entryopts = []; s.loops = []; s.replace = {}; s.fileopts = {}; s.variants = [('', [])]
        s.externs = {}
        for ln in open(path):
            m = re.match(r'\s*//@\s*(\S+)\s*(.*)$', ln)
            if not m: continue
            k, r = m.groups()
            if k == 'property': s.props += r.split()
            elif k == 'src': s.src += r.split()
            elif k == 'flags': s.flags += r.split()
            elif k == 'variant':
                a = r.split(); s.variants.append((a[0], a[1:]))
            elif k == 'entry':
                a = r.split(); s.entryopts.append((re.compile(a[0]), dict(x.split('=', 1) for x in a[1:])))
            elif k == 'opt':
                s.fileopts.update(dict(x.split('=', 1) for x in r.split()))
            elif k == 'loop':
                s.loops.append(dict(x.split('=', 1) for x in re.findall(r'\S+?=(?:"[^"]*"|\S+)', r)))
            elif k == 'replace':
                a = r.split(); s.replace[a[0]] = a[1]
            elif k == 'extern':
                a = r.split(None, 1); s.externs[a[0]] = a[1]
            else: raise ToolError('directive %s in %s' % (k, path))
    def opts(s, e):
        d = dict(s.fileopts)
        for rx, o in s.entryopts:
            if rx.search(e): d.update(o)
        return d

def units_for(pid):
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.cpp'))):
        head = open(p).read()
        if re.search(r'//@\s*property\b.*\b%s\b' % re.escape(pid), head): out.append(Unit(p))
    return out

CLANG = ['clang++-18', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w',
         '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-access-control', '-ffp-contract=off', '-I' + HERE,
         '-fno-threadsafe-statics']
def incs(): return ['-I' + REPO + '/include', '-I' + REPO + '/src']

def compile_unit(u, vflags, work, tag):
    bcs = []
    jobs = [(u.path, work + '/%s.bc' % tag, [])]
    for sname in u.src: jobs.append((REPO + '/src/' + sname, work + '/%s.%s.bc' % (tag, sname), ['-DMUU_BUILDING=1', '-DMUU_DLL=1']))
    for src, out, ex in jobs:
        rc, o, e = sh(CLANG + incs() + u.flags + vflags + ex + ['-emit-llvm', '-c', src, '-o', out], 300)
        if rc != 0: raise ToolError('clang failed on %s:\n%s' % (src, e[-3000:]))
        bcs.append(out)
    if len(bcs) > 1:
        o = work + '/%s.linked.bc' % tag
        rc, _, e = sh([LLVM + 'llvm-link'] + bcs + ['-o', o], 120)
        if rc != 0: raise ToolError('llvm-link: ' + e[-2000:])
        return o
    return bcs[0]

def entries_of(bc):
    rc, o, e = sh([LLVM + 'llvm-nm', '--defined-only', bc], 60)
    if rc != 0: raise ToolError('llvm-nm: ' + e)
    return sorted(set(re.findall(r'\bT (ct_\w+)$', o, re.M)))

def lower(bc, entries, keep, work, tag, passes):
    out = work + '/%s.ll' % tag
    rc, _, e = sh([LLVM + 'opt', '-passes=' + passes, '-internalize-public-api-list=' + ','.join(entries + keep), bc, '-S', '-o', out], 300)
    if rc != 0: raise ToolError('opt: ' + e[-2000:])
    return out

def demangle(names):
    p = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))

CBMC_FLAGS = ['--no-standard-checks', '--pointer-check', '--bounds-check', '--unwinding-assertions', '--no-built-in-assertions', '--drop-unused-functions']
RES = re.compile(r'^\[(\S+)\] (?:file \S+ )?(?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', re.M)

def load_externs():
    return open(HERE + '/externs.c').read()

def load_known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known:'):
                d = dict(re.findall(r'(\w+)=(\S+)', ln)); d['what'] = ln.split(' -- ', 1)[1].strip() if ' -- ' in ln else ln.strip()
                out.append(d)
    return out

class Result:
    pass

def kind_of(desc):
    if desc.startswith('vp:reach'): return 'reach'
    if desc.startswith('vp:unsupported'): return 'unsupported'
    if 'unwinding assertion' in desc or 'recursion unwinding' in desc: return 'unwind'
    if desc.startswith('vp:extern'): return 'unsupported'
    return 'obl'

def run_cbmc(goto, entry, o, extra=(), timeout=None):
    cmd = ['cbmc', goto, '--function', entry] + CBMC_FLAGS + ['--unwind', o.get('unwind', '20'), '--object-bits', o.get('objbits', '12')]
    if 'unwindset' in o: cmd += ['--unwindset', o['unwindset']]
    s = o.get('solver', 'cadical')
    if s == 'cadical': cmd += ['--sat-solver', 'cadical']
    elif s == 'kissat': cmd += ['--external-sat-solver', 'kissat']
    elif s == 'z3': cmd += ['--z3']
    elif s == 'cvc5': cmd += ['--cvc5']
    if o.get('slice'): cmd += ['--slice-formula']
    cmd += list(extra)
    t0 = time.time()
    rc, out, err = sh(cmd, timeout or int(o.get('timeout', '300')), mem_gb=float(o.get('mem', '12')))
    return rc, out, err, time.time() - t0, cmd

def trace_inputs(out):
    vals = []; hi = 0
    for m in re.finditer(r'^\s*vp_log_(lo|hi)=(\d+)', out, re.M):
        if m.group(1) == 'lo': vals.append(int(m.group(2)))
    return vals

def replay_native(u, vflags, entry, inputs, work, sanitize=True, search=None):
    """compile the contract natively (real code, g++) and run it with the counterexample inputs (or search for some)"""
    exe = work + '/replay_%s_%s%s' % (entry, 's' if sanitize else 'n', hashlib.md5(' '.join(vflags).encode()).hexdigest()[:6])
    src = [u.path] + [REPO + '/src/' + x for x in u.src] + [HERE + '/vp_replay.cpp']
    vf = [f for f in vflags]
    cmd = ['g++', '-std=c++20', '-O1', '-g', '-w', '-fext-numeric-literals', '-fno-access-control', '-DVP_REPLAY=1', '-DMUU_BUILDING=1',
           '-DVP_ENTRY=' + entry, '-I' + HERE] + incs() + [f for f in u.flags if not f.startswith('-std')] + vf
    if sanitize: cmd += ['-fsanitize=undefined,address', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']
    if not os.path.exists(exe):
        rc, o, e = sh(cmd + src + ['-o', exe, '-pthread', '-Wl,--wrap=malloc,--wrap=free,--wrap=aligned_alloc'], 400)
        if rc != 0: return 'replay-build-failed', e[-1500:]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0')
    if search:
        try:
            p = subprocess.run([exe, '--search', str(search), os.environ.get('VERIF_SEED', '1')], capture_output=True, text=True, timeout=search * 4 + 20, env=env, cwd=work)
        except subprocess.TimeoutExpired:
            return 'none', 'search did not finish'
        txt = (p.stdout + p.stderr)[-3000:]
        if p.returncode != 0 and 'SEARCH-INPUTS' in p.stdout: return 'confirmed', txt
        return 'none', txt
    rf = work + '/replay_%s.in' % entry
    with open(rf, 'w') as f:
        for k, v in inputs: f.write('%s %s\n' % (k, v))
    try:
        p = subprocess.run([exe, rf], capture_output=True, text=True, timeout=60, env=env, cwd=work)
    except subprocess.TimeoutExpired:
        return 'hang', 'native run did not finish in 60 s'
    txt = (p.stdout + p.stderr)[-3000:]
    if p.returncode == 0: return 'ok', txt
    if p.returncode == 3: return 'precondition', txt
    return 'confirmed', txt

class Check:
    def __init__(s, pid, tier):
        s.pid = pid; s.tier = tier; s.t0 = time.time()
        s.work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
        s.funcs = {}; s.obl = 0; s.dis = 0; s.solver_s = 0.0; s.viol = []; s.err = []; s.entries = []; s.known = []; s.samples = []
        s.bounded = []; s.ext = set(); s.cmds = set(); s.fallback = []; s.soft = []; s.passed = set(); s.undecided = []; s.bobl = s.bdis = 0; s.deadline = s.t0 + (740 if tier == 'quick' else 5400)

    def run(s):
        units = units_for(s.pid)
        if not units: raise ToolError('no contract file for ' + s.pid)
        jobs = []
        ex = ThreadPoolExecutor(NPROC)
        prep = []
        for u in units:
            for vn, vf in u.variants:
                if vn == '' and u.fileopts.get('novariant0'): continue
                prep.append((u, vn, vf))
        futs = [(p, ex.submit(s.prepare, *p)) for p in prep]
        entjobs = []
        for p, f in futs:
            try: entjobs += f.result()
            except ToolError as e:
                # inductive contracts name internals of the code; when those changed the bounded contracts decide alone
                if not p[0].fileopts.get('optional'): raise
                s.fallback.append('%s: %s' % (p[0].name, str(e)[-400:]))
        # long ones first
        entjobs.sort(key=lambda j: -float(j['o'].get('cost', '1')))
        rf = [ex.submit(s.entry, j) for j in entjobs]
        for f in as_completed(rf): f.result()
        und, s.undecided = s.undecided, []
        for j, name, why in und:
            if why.startswith('solver') and s.left(1000) > 60: s.entry(j)
            else: s.undecided.append((j, name, why))
        for j, name, why in s.undecided:
            # an obligation the verifier does not discharge is a failed check; look for a concrete witness first
            if s.left(1000) > 40 and j['kind'] == 'cbmc' and len(s.viol) < 4:
                st, txt = replay_native(j['u'], j['vf'], j['e'], [], s.work, search=20)
            else: st, txt = 'none', ''
            s.violation(name, [('', why)], dict(obligation='random search on the real code', native=st, native_output=txt) if st == 'confirmed' else None, [why])
        # inductive contracts whose object state is over-approximated: an alarm needs the concrete-history twin's agreement
        for j, name, bad, out, twin in s.soft:
            if twin not in s.passed: s.report(j, name, bad, out); continue
            w = j['o'].get('witness')
            if w and s.left(1000) > 30:
                # the bounded twin holds: look for a longer history of the real code that shows the failure
                wu = next((u for u in units if re.search(r'VP_CONTRACT\(%s\)' % w[3:], open(u.path).read())), j['u'])
                st, txt = replay_native(wu, j['vf'], w, [], s.work, search=15)
                if st == 'confirmed':
                    s.violation(name, bad, dict(obligation='witness search on the real code', native=st, native_output=txt), [txt]); continue
            s.fallback.append('%s: %s' % (name, bad[0][1]))
        ex.shutdown()

    def left(s, t):
        return max(5, min(t, int(s.deadline - time.time())))

    def prepare(s, u, vn, vf):
        tag = u.name + ('.' + vn if vn else '')
        bc = compile_unit(u, vf, s.work, tag)
        ents = [e for e in entries_of(bc)]
        sel = []
        for e in ents:
            o = u.opts(e)
            if o.get('tier') == 'thorough' and s.tier != 'thorough': continue
            if os.environ.get('VP_ONLY') and not re.search(os.environ['VP_ONLY'], e): continue
            if os.environ.get('VP_TIMEOUT'): o['timeout'] = os.environ['VP_TIMEOUT']
            if 'prop' in o and o['prop'] != s.pid: continue
            if vn and o.get('variants') is not None and vn not in o['variants'].split(','): continue
            if vn == '' and o.get('only'): continue
            if o.get('mode') == 'native': continue
            sel.append((e, o))
        cb = [(e, o) for e, o in sel if o.get('mode', 'cbmc') == 'cbmc']
        rl = [(e, o) for e, o in sel if o.get('mode') == 'real']
        jobs = []
        groups = {}
        for e, o in cb: groups.setdefault((o.get('fpuf', ''), o.get('loops', '')), []).append((e, o))
        for (fpuf, loops), g in groups.items():
            jobs += s.prep_cbmc(u, vn, vf, bc, tag + '_' + fpuf + loops, [e for e, _ in g], g, fpuf, loops)
        if rl:
            jobs += s.prep_real(u, vn, vf, bc, tag, rl)
        return jobs

    def prep_cbmc(s, u, vn, vf, bc, tag, names, g, fpuf, loops):
        keep = []
        specs = []
        if loops:
            for l in u.loops:
                if l.get('set', '1') == loops: specs.append(emit_loop(l))
            keep = [n for sp in specs for n in sp.fnnames()]
        keep += list(u.replace.values())
        if u.fileopts.get('atomics'): keep += ['vp_atomic_pre', 'vp_atomic_post']
        passes = 'internalize,globaldce,function(sroa)'
        if specs: bc = mark_memory_form(bc, specs, s.work, tag)
        ll = lower(bc, names, keep, s.work, tag, passes)
        mod = ir.parse(open(ll).read())
        dm = demangle(list(mod.funcs) + list(mod.decls))
        em = emit_c.Emit(mod, dict(fpuf=fpuf, loops=specs, replace=u.replace, atomics=u.fileopts.get('atomics'), bulk=u.fileopts.get('bulk')), dm)
        ext = em.run(names)
        s.ext |= set(ext)
        warn = list(em.loop_warn) + ['loop contract for %s did not bind' % sp.fn for sp in specs if not sp.used]
        proto, body = externs_text(em, ext, u)
        cfile = s.work + '/%s.c' % tag
        open(cfile, 'w').write(em.text(open(HERE + '/prelude.c').read(), proto) + body)
        gt = s.work + '/%s.goto' % tag
        rc, o, e = sh(['goto-cc', cfile, '-o', gt], 300)
        if rc != 0: raise ToolError('goto-cc on %s: %s' % (tag, (o + e)[-3000:]))
        fns = {n: dm.get(n, n) for n in em.reach}
        graph = callgraph(mod)
        out = []
        for e, o in g:
            out.append(dict(kind='cbmc', u=u, vn=vn, vf=vf, goto=gt, e=e, o=o, fns=[dm[n] for n in closure(graph, e) if n in mod.funcs], warn=warn, unsup=em.unsup, bc=bc, tag=tag))
        return out

    def prep_real(s, u, vn, vf, bc, tag, rl):
        from vp import real
        return real.prepare(s, u, vn, vf, bc, tag, rl, sh, lower, demangle, callgraph, closure)

    def note_fns(s, fns, e):
        for f in fns:
            if 'muu' in f and not f.startswith('ct_') and 'body_' not in f: s.funcs[f] = s.funcs.get(f, 0) + 1

    def entry(s, j):
        try:
            if j['kind'] == 'real':
                from vp import real
                real.run_entry(s, j)
                return
            s.entry_cbmc(j)
        except ToolError as e:
            s.err.append('%s: %s' % (j['e'], e))
        except Exception as e:
            import traceback
            s.err.append('%s: %s' % (j['e'], traceback.format_exc()[-1500:]))

    def entry_cbmc(s, j):
        e, o = j['e'], j['o']
        if o.get('loops') and j['warn']:
            s.fallback.append('%s: %s' % (e, '; '.join(j['warn'])))
            return
        rc, out, err, dt, cmd = run_cbmc(j['goto'], e, o, timeout=s.left(int(o.get('timeout', '300'))))
        s.cmds.add(' '.join(['cbmc <extracted>.goto --function <contract>'] + cmd[4:]))
        s.solver_s += dt
        name = e + (('@' + j['vn']) if j['vn'] else '')
        res = RES.findall(out)
        if rc == 'timeout' or not res or rc not in (0, 10):
            # out of time or memory: once more at the end, alone
            s.undecided.append((j, name, 'solver gave no answer (rc=%s) %s' % (rc, (out[-300:] + err[-300:])))); return
        reach = False; bad = []; nobl = 0; nok = 0; inconc = []
        for pid_, desc, st in res:
            k = kind_of(desc)
            if k == 'reach':
                if st == 'FAILURE': reach = True
                continue
            if k == 'unwind' or k == 'unsupported':
                if st != 'SUCCESS': inconc.append(desc)
                elif k == 'unwind': nobl += 1; nok += 1
                continue
            nobl += 1
            if st == 'SUCCESS': nok += 1
            else: bad.append((pid_, desc))
        if nobl == 0: s.err.append('%s: no obligation was generated' % name); return
        if not bad and inconc and j.get('grow', 0) < 3 and all(kind_of(d) == 'unwind' for d in inconc): pass
        elif o.get('bounded'): s.bobl += nobl; s.bdis += nok
        else: s.obl += nobl; s.dis += nok
        s.entries.append(dict(contract=name, obligations=nobl, discharged=nok, seconds=round(dt, 2), backend='cbmc ' + (o.get('solver') or 'cadical'), bounded=o.get('bounded', '')))
        if o.get('bounded'): s.bounded.append('%s: %s' % (name, o['bounded'].replace('_', ' ')))
        s.note_fns(j['fns'], e)
        if bad:
            if o.get('twin'):
                s.soft.append((j, name, bad, out, o['twin'] + (('@' + j['vn']) if j['vn'] else '')))
                return
            s.report(j, name, bad, out)
            return
        if inconc:
            if j.get('grow', 0) < 3 and all(kind_of(d) == 'unwind' for d in inconc):
                s.entry_cbmc(dict(j, grow=j.get('grow', 0) + 1, o={k: (str(int(v) * 2 + 2) if k == 'unwind' else v) for k, v in dict({'unwind': '20'}, **o).items() if k != 'unwindset'}))
                return
            s.undecided.append((j, name, 'not discharged: ' + '; '.join(inconc[:3]))); return
        if not reach and not o.get('noreach'):
            s.err.append('%s: the end of the contract is unreachable (vacuous)' % name); return
        s.passed.add(name)

    def known_match(s, name, desc):
        for k in load_known():
            if k.get('property') == s.pid and k.get('contract') == name and (k.get('obligation') in (None, slug(desc))):
                return k
        return None

    def report(s, j, name, bad, out):
        e, o = j['e'], j['o']
        rest = []
        for p, d in bad:
            k = s.known_match(name, d)
            if k: s.known.append(k['what'])
            else: rest.append((p, d))
        if not rest: return
        confirmed = None; log = []
        # prefer contract post-conditions, then the rest
        rest.sort(key=lambda x: 0 if x[1].startswith('vp:ensures') else 1)
        for p, d in rest[:3]:
            rc, tout, err, dt, cmd = run_cbmc(j['goto'], e, o, ['--property', p, '--trace'])
            s.solver_s += dt
            vals = trace_inputs(tout)
            inputs = [('u', v) for v in vals]
            st, txt = replay_native(j['u'], j['vf'], e, inputs, s.work)
            log.append(dict(obligation=d, inputs=vals, native=st, native_output=txt))
            if st in ('confirmed', 'hang'):
                confirmed = log[-1]; break
        if not confirmed and len(s.viol) < 6 and s.left(1000) > 30:
            st, txt = replay_native(j['u'], j['vf'], e, [], s.work, search=20)
            log.append(dict(obligation='random search on the real code', native=st, native_output=txt))
            if st == 'confirmed': confirmed = log[-1]
        if not confirmed and o.get('witness') and not o.get('twin') and s.left(1000) > 30:
            st, txt = replay_native(j['u'], j['vf'], o['witness'], [], s.work, search=15, sanitize=False)
            log.append(dict(obligation='witness search on the real code', native=st, native_output=txt))
            if st == 'confirmed': confirmed = log[-1]
        if not confirmed and o.get('fpuf'):
            # floating point operations were uninterpreted: decide again bit-precisely before believing the failure
            o2 = dict(o, fpuf='', timeout=o.get('precise_timeout', '240'))
            j2 = s.prep_cbmc(j['u'], j['vn'], j['vf'], j['bc'], j['tag'] + 'precise' + e, [e], [(e, o2)], '', '')[0]
            rc, out2, err, dt, cmd = run_cbmc(j2['goto'], e, o2)
            s.solver_s += dt
            res2 = [(p, d) for p, d, st in RES.findall(out2) if kind_of(d) != 'reach' and st != 'SUCCESS'] if rc in (0, 10) else None
            if res2 == []: 
                if o.get('bounded'): s.bdis += len(bad)
                else: s.dis += len(bad)
                return
            log.append(dict(note='bit-precise second opinion', result='timeout' if res2 is None else res2))
            if res2:
                s.report(j2, name, res2, out2)
                return
        s.violation(name, rest, confirmed, log)

    def violation(s, name, rest, confirmed, log):
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (s.pid, re.sub(r'\W+', '_', name)))
        json.dump(dict(property=s.pid, contract=name, failed_obligations=[x[1] for x in rest], confirmed=confirmed, attempts=log), open(path, 'w'), indent=1)
        s.viol.append((name, rest, path, bool(confirmed)))

    def finish(s):
        wall = time.time() - s.t0
        level = 'proof' if s.obl else 'other'
        ev = dict(property=s.pid, tier=s.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level,
            coverage=dict(obligations=s.obl, discharged=s.dis, bounded_obligations=s.bobl, bounded_obligations_discharged=s.bdis,
                explanation='%d obligations over unbounded input are proved (%d discharged); %d further obligations hold only within the bounds named per contract and are not counted as proved (%d discharged).' % (s.obl, s.dis, s.bobl, s.bdis),
                checker_cmd='; '.join(sorted(s.cmds))[:2000] or 'vp/real.py',
                trusted_base=TRUSTED + sorted('external function model: ' + x for x in s.ext if x not in HARMLESS_EXT),
                contracts=len(s.entries), functions_under_contract=sorted(s.funcs)[:400], n_functions_under_contract=len(s.funcs),
                solver_seconds=round(s.solver_s, 1), per_contract=sorted(s.entries, key=lambda x: x['contract']),
                bounded=sorted(set(s.bounded)), inductive_proofs_not_bound=s.fallback,
                known_findings=sorted(set(s.known)), errors=s.err[:20]),
            assumptions=ASSUMPTIONS, wall_s=round(wall, 1), violations=len(s.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', s.pid + '.json'), 'w'), indent=1)
        for k in sorted(set(s.known)): print('KNOWN-FINDING: property=%s %s' % (s.pid, k))
        for n, rest, path, conf in s.viol:
            for p, d in rest[:4]: print('  failed obligation in %s: %s' % (n, d))
            print('VIOLATION property=%s replay=%s%s' % (s.pid, path, '' if conf else ' no-failing-input-found'))
        for e in s.err: print('INCONCLUSIVE: ' + e[:1500])
        for e in s.fallback: print('NOTE: inductive proof not applicable to the current code, bounded twin decides: ' + e[:300])
        print('%s: %d contracts, %d/%d obligations proved, %d/%d bounded, %d functions under contract, %.1fs solver, %.1fs wall' % (s.pid, len(s.entries), s.dis, s.obl, s.bdis, s.bobl, len(s.funcs), s.solver_s, wall))
        if os.environ.get('VP_KEEP'): print(s.work); return 0
        shutil.rmtree(s.work, ignore_errors=True)
        if s.viol: return 1
        if s.err: return 2
        return 0

def slug(d): return re.sub(r'\W+', '_', d)[:80]

TRUSTED = ['clang 18 front end and opt passes internalize/globaldce/sroa (C++ to LLVM IR, same sources and macros as the build; libstdc++ 13 headers)',
    'vp/ir.py + vp/emit_c.py (LLVM IR to C)', 'goto-cc and CBMC 6.11 with its SAT back end']
ASSUMPTIONS = ['operator new / malloc never fail', 'no exception is thrown (invoke is treated as call + normal continuation)',
    'atomics are sequentially executed; no concurrency inside a contract', 'the code gcc compiles and the code clang lowers have the same C++ semantics',
    'padding bits and undef values are arbitrary']
HARMLESS_EXT = {'vp_u8', 'vp_u16', 'vp_u32', 'vp_u64', 'vp_buf', 'vp_live', 'vp_allocs', 'vp_place', 'vp_watch', 'vp_real', '__cxa_begin_catch', '_ZSt9terminatev'}

def callgraph(mod):
    g = {}
    for n, f in mod.funcs.items():
        s = set()
        def visit(v):
            if v is None: return
            if v.k == 'glob':
                s.add(mod.aliases.get(v.v, v.v))
            for a in (v.args or []): visit(a)
        for b in f.blocks:
            for i in b.ins:
                for x in emit_c.Emit.operands(None, i): visit(x)
        g[n] = s
    return g

def closure(g, e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += g.get(x, ())
    return seen

def externs_text(em, ext, u):
    """prototype + body for every external function the extracted code mentions"""
    lib = load_externs()
    sigs = getattr(em, 'extsigs', {})
    proto = []; body = []
    for n in ext:
        if n in ('vp_u8', 'vp_u16', 'vp_u32', 'vp_u64', 'vp_buf', 'vp_live', 'vp_allocs', 'vp_place', 'vp_watch'): continue
        if n in sigs:
            ret, args = sigs[n]
            ps = ', '.join('%s a%d' % (a, i) for i, a in enumerate(args)) or 'void'
            head = '%s x_%s(%s)' % (ret, emit_c.san(n), ps)
        else: head = 'void x_%s(void)' % emit_c.san(n)
        proto.append(head + ';')
        if n in u.externs: body.append('%s { %s }' % (head, u.externs[n])); continue
        m = re.search(r'^// extern %s$\n(.*?)^// end' % re.escape(n), lib, re.M | re.S)
        if m: body.append('%s { %s }' % (head, m.group(1)))
        else:
            r = '' if head.startswith('void') else '%s r; return r;' % ret
            body.append('%s { __CPROVER_assert(0, "vp:extern:%s has no model"); __CPROVER_assume(0); %s }' % (head, n, r))
    return '\n'.join(proto), '\n'.join(body) + '\n'

def emit_loop(l):
    from vp import loops
    return loops.Spec(l)
def mark_memory_form(bc, specs, work, tag):
    from vp import loops
    return loops.mark(bc, specs, work, tag, sh, LLVM)

def main():
    pid = sys.argv[1]; tier = 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    c = Check(pid, tier)
    try:
        c.run()
    except ToolError as e:
        c.err.append(str(e))
    rc = c.finish()
    sys.exit(rc)

if __name__ == '__main__':
    main()
