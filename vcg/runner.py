"""Builds contracts against the current /repo tree, runs the verifier, the native runs and the
bounded stand-ins of one property and turns the outcome into a verdict + evidence file."""
import os, re, sys, json, time, subprocess, hashlib, traceback, tempfile, shutil
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, as_completed
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = 'clang++-18'; OPT = 'opt-18'
NPROC = int(os.environ.get('VP_JOBS', '8'))
SAN = ['-fsanitize=signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,shift,null,bounds,return,unreachable', '-fsanitize-trap=all']

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)

class BuildError(Exception): pass

def harnesses(src):
    txt = open(src).read()
    return re.findall(r'^\s*HARNESS\((\w+)\)', txt, re.M) + \
        [m for l in re.findall(r'^//\s*@harnesses:(.*)$', txt, re.M) for m in l.split()]

def drop_bodies(txt, pats):
    """turn the definitions of functions that are only used through their contract into declarations"""
    out = []; skip = False; dead = set()
    for line in txt.split('\n'):
        if skip:
            if line.startswith('}'): skip = False
            continue
        m = re.match(r'define (.*?)@("?[\w.$]+"?)\(', line)
        if m and any(p.search(m.group(2)) for p in pats):
            k = m.end(); d = 1
            while d: d += {'(': 1, ')': -1}.get(line[k], 0); k += 1
            ty = re.sub(r'\b(linkonce_odr|weak_odr|internal|dso_local|available_externally)\b ?', '', m.group(1))
            out.append('declare ' + ty + '@' + m.group(2) + line[m.end() - 1:k]); skip = True; continue
        out.append(line)
    return '\n'.join(out)

def build_ir(src, out, noinline=(), defs=(), passes=None, optargs=(), drop=()):
    """clang (no optimisation passes) -> everything inline -> SSA"""
    ll = out + '.raw.ll'
    r = sh([CLANG, '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-w', '-DVP_VERIFY', '-S', '-emit-llvm',
            '-ffp-contract=off', '-I', REPO + '/include', '-I', ROOT + '/contracts'] + list(defs) + [src, '-o', ll])
    if r.returncode: raise BuildError(r.stderr[:6000])
    txt = open(ll).read()
    if drop: txt = drop_bodies(txt, [re.compile(p) for p in drop])
    keep = []
    def attr(m):
        s = m.group(0)
        return s if 'noinline' in s or 'optnone' in s else s.replace('= {', '= { alwaysinline', 1)
    txt = re.sub(r'^attributes #\d+ = \{.*$', attr, txt, flags=re.M)
    if noinline:
        pats = [re.compile(p) for p in noinline]
        def de(m):
            name = m.group(2)
            if any(p.search(name) for p in pats):
                keep.append(name)
                return re.sub(r'#\d+( comdat| align| personality| \{|$)', r'#99999\1', m.group(0), count=1)
            return m.group(0)
        txt = re.sub(r'^(define .*?@)("?[\w.$]+"?)(\(.*)$', de, txt, flags=re.M)
        txt += '\nattributes #99999 = { noinline nounwind }\n'
    open(ll, 'w').write(txt)
    bc = out + '.ll'
    r = sh([OPT, '-S'] + list(optargs) + ['-passes=' + (passes or 'globaldce,always-inline,globaldce,function(sroa,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts;bonus-inst-threshold=0>,adce,loop-simplify)'), ll, '-o', bc])
    if r.returncode: raise BuildError(r.stderr[:3000])
    return bc, ll

def functions_reached(rawll, hs):
    """demangled boost::polygon functions whose bodies are part of the verified text, per harness"""
    defs = {}; cur = None
    for line in open(rawll):
        m = re.match(r'define .*?@"?([\w.$]+)"?\(', line)
        if m: cur = m.group(1); defs[cur] = set(); continue
        if line.startswith('}'): cur = None; continue
        if cur and ('call' in line or 'invoke' in line):
            for n in re.findall(r'@"?([\w.$]+)"?\(', line): defs[cur].add(n)
    seen = set(); st = [h for h in hs if h in defs]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st.extend(y for y in defs.get(x, ()) if y in defs)
    names = [n for n in seen if 'boost7polygon' in n]
    if not names: return []
    r = sh(['c++filt'], input='\n'.join(names))
    out = set()
    for l in r.stdout.splitlines():
        out.add(l)
    return sorted(out)

OPTOK = re.compile(r'operator(\(\)|<<=|>>=|<=|>=|<<|>>|->|<|>)')
def short(n):
    """readable name: drop template arguments, return type and parameters"""
    n = re.sub(r' ?\[(clone|abi)[^]]*\]', '', n).replace('(anonymous namespace)', 'anon')
    n = OPTOK.sub(lambda m: 'operator' + ''.join({'(': '\1', ')': '\2', '<': '\3', '>': '\4'}.get(c, c) for c in m.group(1)), n)
    while True:                                  # template arguments, innermost first
        m = re.sub(r'<[^<>]*>', '', n)
        if m == n: break
        n = m
    while True:                                  # parameter lists
        m = re.sub(r'\([^()]*\)', '', n)
        if m == n: break
        n = m
    n = re.sub(r'\b(const|volatile)\b[ &]*$', '', n).strip()
    n = re.sub(r'operator ', 'operator_', n)
    n = n.split(' ')[-1]
    for a, b in (('\1', '('), ('\2', ')'), ('\3', '<'), ('\4', '>')): n = n.replace(a, b)
    return n.replace('boost::polygon::', '')

def verify_task(ll, h, optd):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    from . import engine, llvmir, templates
    t = time.time()
    try:
        o = engine.Opts()
        tm = None
        for k, v in optd.items():
            if k == 'templates': tm = v
            else: setattr(o, k, v)
        if tm: o.templates = getattr(templates, tm); o.inv_loops = getattr(templates, tm + '_want', True)
        m = llvmir.Module(ll)
        if o.mode == 'bv':
            from . import bvengine
            e = bvengine.BVEngine(m, o)
        else: e = engine.Engine(m, o)
        err = None
        try: e.run_harness(h)
        except engine.Unsupported as x: err = 'unsupported: ' + str(x)
        except engine.Budget as x: err = 'budget: ' + str(x)
        except RecursionError: err = 'unsupported: recursion'
        r = e.res
        return {'harness': h, 'obl': r.obl, 'covers': r.covers, 'paths': r.paths, 'loops': r.loops, 'queries': r.queries,
                'solver_time': round(r.solver_time, 2), 'externals': r.externals, 'notes': r.notes, 'err': err, 'wall': round(time.time() - t, 2)}
    except MemoryError:
        return {'harness': h, 'obl': [], 'covers': {}, 'paths': 0, 'loops': [], 'queries': 0, 'solver_time': 0, 'externals': {}, 'notes': [], 'err': 'memory', 'wall': round(time.time() - t, 2)}
    except Exception as x:
        return {'harness': h, 'obl': [], 'covers': {}, 'paths': 0, 'loops': [], 'queries': 0, 'solver_time': 0, 'externals': {}, 'notes': [],
                'err': 'internal: ' + ''.join(traceback.format_exception(x))[-1500:], 'wall': round(time.time() - t, 2)}

def build_native(src, exe, defs=(), san=True, cxx=None, opt='-O1', std='c++17'):
    c = [cxx or CLANG, '-std=' + std, opt, '-w', '-g0', '-ffp-contract=off', '-I', REPO + '/include', '-I', ROOT + '/contracts', '-I', ROOT + '/native'] + list(defs) + (SAN if san else []) + [src, '-o', exe]
    r = sh(c, timeout=800)
    if r.returncode: raise BuildError(r.stderr[:6000])
    return exe

def native_random(exe, h, n, seed, secs):
    try: r = sh([exe, 'random', h, str(n), str(seed), str(secs)], timeout=secs * 6 + 60)
    except subprocess.TimeoutExpired: return {'status': 'timeout'}
    out = r.stdout
    if 'FAILED' in out or (r.returncode not in (0, 3) and not out.startswith('DONE')):
        ins = re.findall(r'^INPUT (.*)$', out, re.M)
        m = re.search(r'FAILED (.*)', out)
        return {'status': 'failed', 'what': m.group(1) if m else 'abnormal exit %d' % r.returncode, 'inputs': ins}
    m = re.search(r'DONE runs=(\d+) completed=(\d+)', out)
    cov = {l.split(' ', 2)[2]: int(l.split(' ', 2)[1]) for l in out.splitlines() if l.startswith('COVER')}
    return {'status': 'ok', 'runs': int(m.group(1)) if m else 0, 'completed': int(m.group(2)) if m else 0, 'covers': cov}

def native_replay(exe, h, inputs):
    args = [f"{n}={v}" for n, k, v in inputs]
    try: r = sh([exe, 'replay', h] + args, timeout=60)
    except subprocess.TimeoutExpired: return {'status': 'failed', 'what': 'does not terminate'}
    m = re.search(r'FAILED (.*)', r.stdout)
    if m: return {'status': 'failed', 'what': m.group(1)}
    if r.returncode not in (0, 2): return {'status': 'failed', 'what': 'abnormal exit %d' % r.returncode}
    return {'status': 'ok' if r.returncode == 0 else 'skipped'}

class Check:
    def __init__(self, prop, cfg, tier, seed):
        self.prop = prop; self.cfg = cfg; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, 'out', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.violations = []       # (key, text, replay path, found input?)
        self.undecided = []; self.errors = []; self.known = []
        self.ev = {'harnesses': {}, 'functions_under_contract': [], 'bounded': []}
    def known_findings(self):
        p = os.path.join(ROOT, 'KNOWN_FINDINGS.md')
        r = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'^known: property=(\w+) key=(\S+) (.*)$', l.strip())
                if m and m.group(1) == self.prop: r.append((m.group(2), m.group(3)))
        return r
    def violation(self, key, text, data, found):
        for k, d in self.kf:
            if k == key:
                self.known.append((k, d)); return
        p = os.path.join(self.work, 'replay-%d.json' % (len(self.violations) + 1))
        data = dict(data); data.update({'property': self.prop, 'key': key, 'what': text, 'tier': self.tier})
        json.dump(data, open(p, 'w'), indent=1)
        self.violations.append((key, text, p, found))
    def run(self):
        self.kf = self.known_findings()
        cfg = self.cfg; thorough = self.tier == 'thorough'
        files = cfg.get('contracts', [])
        natsec = cfg.get('native_secs', 1.0) * (8 if thorough else 1)
        tasks = []; natives = {}; rawlls = []
        pool = ThreadPoolExecutor(NPROC)
        futs = {}
        for fn in files:
            c = dict(file=fn) if isinstance(fn, str) else dict(fn)
            src = os.path.join(ROOT, 'contracts', c['file'])
            if not os.path.exists(src): self.errors.append('missing ' + src); continue
            pre = c.get('prefix', 'h_%s_' % self.prop)
            hs = [h for h in harnesses(src) if h.startswith(pre)]
            if not hs: self.errors.append('no harness in ' + c['file'])
            base = os.path.join(self.work, os.path.splitext(c['file'])[0].replace('/', '_') + c.get('tag', ''))
            futs[pool.submit(build_ir, src, base, c.get('noinline', ()), c.get('defs', ()), None, c.get('optargs', ()), c.get('drop', ()))] = ('ir', c, hs, src)
            if c.get('native', True):
                futs[pool.submit(build_native, src, base + '.exe', c.get('defs', ()), c.get('san', True))] = ('nat', c, hs, src)
        bnd = []
        for b in cfg.get('bounded', []):
            src = os.path.join(ROOT, 'native', b['file'])
            exe = os.path.join(self.work, os.path.splitext(b['file'])[0] + b.get('tag', '') + '_'.join(b.get('defs', ())).replace('-D', '_') + '.bexe')
            futs[pool.submit(build_native, src, exe, b.get('defs', ()), False, b.get('cxx', 'g++'), b.get('opt', '-O1'))] = ('bnd', b, exe, src)
        nbuilt = 0; nfail = 0
        for f in as_completed(futs):
            kind, c, hs, src = futs[f]
            try: r = f.result(); nbuilt += 1
            except BuildError as e:
                nfail += 1
                self.undecided.append(('build', f"{os.path.basename(src)} ({kind}) does not build against the current tree: {str(e)[:400]}"))
                continue
            if kind == 'ir':
                ll, raw = r
                rawlls.append((raw, hs))
                for h in hs:
                    o = dict(cfg.get('opts', {})); o.update(c.get('opts', {})); o.update(c.get('per', {}).get(h, {}))
                    if thorough:
                        o['obl_ms'] = o.get('obl_ms', 20000) * 3; o['budget_s'] = o.get('budget_s', 200) * 3
                    tasks.append((ll, h, o))
            elif kind == 'nat':
                for h in hs: natives[h] = r
            else: bnd.append((c, r))
        if nbuilt == 0: self.errors.append('nothing could be built: ' + str(self.undecided[:1])[:500])
        # run everything: proofs in processes, native in threads of the same pool size
        res = {}
        tasks.sort(key=lambda t: -t[2].get('weight', 1))
        ctx = mp.get_context('fork')
        jobs = []
        with ProcessPoolExecutor(NPROC, mp_context=ctx) as pp:
            for ll, h, o in tasks: jobs.append(('v', h, pp.submit(verify_task, ll, h, {k: v for k, v in o.items() if k != 'weight'})))
            for c, exe in bnd:
                n = c.get('jobs', 1)
                for j in range(n):
                    jobs.append(('b', (c, j), pp.submit(run_bounded, exe, c, self.seed * 1000 + j, self.tier, j)))
            for h, exe in natives.items():
                jobs.append(('n', h, pp.submit(native_random, exe, h, 10 ** 9, self.seed, natsec)))
            for k, h, f in jobs:
                try: r = f.result()
                except Exception as x:
                    self.errors.append(f"{k} {h}: worker died: {x!r}"); continue
                if k == 'v': res.setdefault(h, {})['v'] = r
                elif k == 'n': res.setdefault(h, {})['n'] = r
                else: self.bounded_result(r, *h)
        self.natives = natives
        for h, r in sorted(res.items()): self.judge(h, r)
        fu = set()
        for raw, hs in rawlls:
            for n in functions_reached(raw, hs): fu.add(short(n))
        self.ev['functions_under_contract'] = sorted(fu)
        return self.finish()
    def judge(self, h, r):
        v = r.get('v'); n = r.get('n'); exe = self.natives.get(h)
        row = {}
        failed = []; unknown = []
        if v:
            row = {'obligations': len(v['obl']), 'discharged': sum(o['status'] == 'proved' for o in v['obl']), 'paths': v['paths'], 'queries': v['queries'],
                   'solver_s': v['solver_time'], 'wall_s': v['wall'], 'loops': v['loops'], 'covers': v['covers']}
            if v['externals']: row['contracts_used_at_calls'] = v['externals']
            if v['err']: row['error'] = v['err']
            be = {}
            for o in v['obl']: be[o['backend']] = be.get(o['backend'], 0) + 1
            row['backends'] = be
            seen = set()
            for o in v['obl']:
                if o['status'] == 'failed' and o['name'] not in seen: failed.append(o); seen.add(o['name'])
            unknown = sorted({o['name'] for o in v['obl'] if o['status'] == 'unknown'})
        if n: row['native_run'] = {k: x for k, x in n.items() if k in ('status', 'runs', 'completed')}
        self.ev['harnesses'][h] = row
        nat_fail = n and n['status'] == 'failed'
        handled = False
        if nat_fail:
            args = [i.split('=', 1) for i in n['inputs']]
            self.violation(f"{h}:{n['what']}", f"contract {h}: obligation '{n['what']}' fails on the real code",
                           {'harness': h, 'obligation': n['what'], 'inputs': [[a, '', b] for a, b in args],
                            'how': 'native run of the contract found the failing input', 'verifier': failed[:3] if v else None,
                            'replay_cmd': [exe, 'replay', h] + n['inputs']}, True)
            handled = True
        for o in failed:
            key = f"{h}:{o['name']}"
            rep = None
            if o.get('model') is not None and exe and o['kind'] in ('assert', 'overflow', 'div0', 'memory', 'unreachable', 'fpcast', 'fpdomain'):
                rep = native_replay(exe, h, o['model'])
            if rep and rep['status'] == 'failed':
                if handled and rep['what'] == n['what'] : continue
                self.violation(key, f"contract {h}: obligation '{o['name']}' fails ({rep['what']})",
                               {'harness': h, 'obligation': o['name'], 'inputs': o['model'], 'how': "verifier counterexample replayed on the real code: " + rep['what'],
                                'replay_cmd': [exe, 'replay', h] + [f"{a}={c}" for a, b, c in o['model']]}, True)
                handled = True
            elif not handled:
                # look for a failing input with a longer guided search
                if exe:
                    n2 = native_random(exe, h, 10 ** 9, self.seed + 17, 10)
                    if n2['status'] == 'failed':
                        self.violation(f"{h}:{n2['what']}", f"contract {h}: obligation '{n2['what']}' fails on the real code",
                                       {'harness': h, 'obligation': o['name'], 'inputs': [i.split('=', 1) for i in n2['inputs']], 'how': 'guided search after a failed obligation',
                                        'replay_cmd': [exe, 'replay', h] + n2['inputs']}, True)
                        handled = True; continue
                self.violation(key, f"contract {h}: obligation '{o['name']}' no longer discharged",
                               {'harness': h, 'obligation': o['name'], 'kind': o['kind'], 'backend': o['backend'], 'verifier_model': o['model'],
                                'how': 'the verifier refutes the obligation; its model did not reproduce natively'}, False)
                handled = True
        if handled: return
        if not v: self.undecided.append((h, 'not verified')); return
        if v['err']: self.undecided.append((h, v['err'])); 
        elif unknown: self.undecided.append((h, 'solver gave no answer for: ' + '; '.join(unknown[:5])))
        elif not any(o['kind'] == 'assert' for o in v['obl']): self.errors.append(f"{h}: vacuous, no assertion was generated")
        else:
            nc = (n or {}).get('covers', {})
            for c, s in v['covers'].items():
                if s != 'reached' and not nc.get(c) and not (c == 'end of harness' and n and n.get('completed')):
                    self.errors.append(f"{h}: cover '{c}' not shown reachable")
            if v['covers'].get('end of harness') is None: self.errors.append(f"{h}: end of harness unreachable (vacuous precondition)")
            for c in nc:
                if c not in v['covers'] and nc[c]: self.errors.append(f"{h}: cover '{c}' reached natively but not symbolically")
            return
        # undecided: longer native search decides whether anything can be reported
        if exe:
            n2 = native_random(exe, h, 10 ** 9, self.seed + 99, 15 if self.tier == 'quick' else 60)
            if n2['status'] == 'failed':
                self.violation(f"{h}:{n2['what']}", f"contract {h}: obligation '{n2['what']}' fails on the real code",
                               {'harness': h, 'obligation': n2['what'], 'inputs': [i.split('=', 1) for i in n2['inputs']], 'how': 'guided search',
                                'replay_cmd': [exe, 'replay', h] + n2['inputs']}, True)
    def bounded_result(self, r, c, j):
        if r['status'] == 'error':
            self.errors.append(f"bounded {c['file']}: {r['text'][:1500]}"); return
        self.ev['bounded'].append({'program': c['file'] + c.get('tag', ''), 'job': j, 'bound': c.get('bound', ''), 'counts': r['counts'], 'samples': r['samples'][:3], 'wall_s': r['wall']})
        for key, text in r['fails'][:5]:
            self.violation(f"{os.path.splitext(c['file'])[0]}:{key}", f"bounded check {c['file']}: {text[:400]}", {'bounded_program': c['file'], 'defs': c.get('defs', []), 'failing_case': text, 'how': 'bounded check on the real code', 'replay_cmd': r['cmd']}, True)
    def finish(self):
        cfg = self.cfg
        H = self.ev['harnesses']
        ob = sum(r.get('obligations', 0) for r in H.values()); di = sum(r.get('discharged', 0) for r in H.values())
        be = {}
        for r in H.values():
            for k, v in r.get('backends', {}).items(): be[k] = be.get(k, 0) + v
        level = cfg['level']
        undis = len(self.undecided)
        cov = {'obligations': ob, 'discharged': di, 'checker_cmd': f"python3-vt /verif/bin/check.py {self.prop}",
               'trusted_base': TRUSTED + cfg.get('trusted', []),
               'functions_under_contract': self.ev['functions_under_contract'], 'functions_under_contract_count': len(self.ev['functions_under_contract']),
               'contracts': len(H), 'back_ends': be, 'solver_time_s': round(sum(r.get('solver_s', 0) for r in H.values()), 2), 'queries': sum(r.get('queries', 0) for r in H.values()),
               'undecided': [list(u) for u in self.undecided], 'per_contract': H}
        nr = sum(r.get('native_run', {}).get('runs', 0) for r in H.values())
        nc = sum(r.get('native_run', {}).get('completed', 0) for r in H.values())
        cov['native_contract_runs'] = nr; cov['native_contract_runs_meeting_precondition'] = nc
        if self.ev['bounded']:
            cov['bounded'] = self.ev['bounded']
            cov['evaluations'] = sum(b['counts'].get('evaluations', 0) for b in self.ev['bounded'])
            cov['distinct_nontrivial'] = sum(b['counts'].get('nontrivial', 0) for b in self.ev['bounded'])
            cov['rule'] = cfg.get('rule', 'bounded stand-in: see level_note and DESIGN.md')
            cov['samples'] = [s for b in self.ev['bounded'] for s in b['samples']][:8]
        if level == 'other' or self.ev['bounded']: cov['explanation'] = cfg.get('explanation', '')
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': ASSUME + cfg.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        print(f"{self.prop}: {ob} obligations, {di} discharged, {len(H)} contracts, {len(self.ev['functions_under_contract'])} repo functions in the verified text, "
              f"{len(self.ev['bounded'])} bounded runs, {time.time()-self.t0:.1f}s")
        for k, d in sorted(set(self.known)): print(f"KNOWN-FINDING: property={self.prop} {d}")
        for u in self.undecided: print("UNDECIDED", u[0], str(u[1])[:600])
        for key, text, p, found in self.violations:
            print(text)
            print(f"VIOLATION property={self.prop} replay={p}" + ('' if found else ' no-failing-input-found'))
        if self.violations: return 1
        for e in self.errors: print("ERROR", e)
        return 2 if self.errors else 0

def run_bounded(exe, c, seed, tier, j):
    t = time.time()
    secs = c.get('secs', 20) * (c.get('thorough_factor', 8) if tier == 'thorough' else 1)
    cmd = [exe, str(seed), str(secs), str(j), str(c.get('jobs', 1))] + c.get('args', [])
    # samples and failures are printed by the program, one per line
    try: r = sh(cmd, timeout=secs * 3 + 120)
    except subprocess.TimeoutExpired:
        return {'status': 'ok', 'counts': {}, 'samples': [], 'fails': [('timeout', 'the code under test does not terminate within the bound')], 'cmd': cmd, 'wall': time.time() - t}
    counts = {m.group(1): int(m.group(2)) for m in re.finditer(r'^COUNT (\w+)=(\d+)$', r.stdout, re.M)}
    fails = [(m.group(1), m.group(2)) for m in re.finditer(r'^FAIL (\S+) (.*)$', r.stdout, re.M)]
    samples = re.findall(r'^SAMPLE (.*)$', r.stdout, re.M)
    if r.returncode != 0 and not fails:
        last = re.findall(r'^CASE (.*)$', r.stdout, re.M)
        if r.returncode < 0 or r.returncode in (134, 139): fails = [('crash', f"terminated by signal {-r.returncode} {(r.stderr or '')[-300:]!r} {last[-1] if last else ''}")]
        else: return {'status': 'error', 'text': r.stdout[-800:] + r.stderr[-800:]}
    return {'status': 'ok', 'counts': counts, 'samples': samples, 'fails': fails, 'cmd': cmd, 'wall': round(time.time() - t, 2)}

TRUSTED = ["clang 18 front end and LLVM 18 always-inline/sroa/early-cse/simplifycfg/adce passes (extraction of the verified text)",
           "vcg (this framework's verification-condition generator, /verif/vcg)", "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2"]
ASSUME = ["x86-64 System V data layout; round-to-nearest; templates verified at the instantiations named in the contracts (int coordinates unless said otherwise)",
          "memory allocation succeeds; no other thread touches the objects"]
