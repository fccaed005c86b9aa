"""debug: run one harness in this process: dbg.py file.ll harness [k=v ...]"""
import sys, os, time
sys.path.insert(0, '/verif'); sys.setrecursionlimit(100000)
from vcg import engine, llvmir, realabs
o = engine.Opts()
for kv in sys.argv[3:]:
    k, v = kv.split('=')
    if k == 'templates':
        from vcg import templates; o.templates = getattr(templates, v); o.inv_loops = getattr(templates, v + '_want', True); continue
    setattr(o, k, int(v) if v.isdigit() else v)
src = sys.argv[1]
if src.endswith('.cpp'):
    from vcg import runner
    from contracts.registry import REG
    ent = None
    for pr, d in REG.items():
        for c in d.get('contracts', []):
            c = c if isinstance(c, dict) else dict(file=c, prefix='h_' + pr + '_')
            if c['file'] == src and sys.argv[2].startswith(c['prefix']): ent = c
    ent = ent or {}
    for k, v in (ent.get('opts') or {}).items():
        if k == 'templates':
            from vcg import templates; o.templates = getattr(templates, v); o.inv_loops = getattr(templates, v + '_want', True)
        else: setattr(o, k, v)
    os.makedirs('/tmp/dbg', exist_ok=True)
    src, _ = runner.build_ir('/verif/contracts/' + src, '/tmp/dbg/' + src + ent.get('tag', ''), ent.get('noinline', ()), defs=ent.get('defs', ()), optargs=ent.get('optargs', ()), drop=ent.get('drop', ()))
m = llvmir.Module(src)
e = engine.Engine(m, o)
_rec = e.record
def rec(name, kind, status, backend, dt, model):
    print(f"{time.time()-t0:7.1f} {dt:7.2f} {kind:10} {status:8} {backend:10} {name}", flush=True); _rec(name, kind, status, backend, dt, model)
e.record = rec
_c = e.check
def chk(*cs, **k):
    t = time.time(); r = _c(*cs, **k)
    if time.time() - t > 0.8: print(f"      slow check {time.time()-t:.2f} {r}", flush=True)
    return r
e.check = chk
if os.environ.get('DUMP'):
    _w = realabs.prove
    KK=[]
    _A=realabs.Abs
    def mk():
        x=_A(); KK[:]=[x.r]; return x
    realabs.Abs=mk
    def w(a, g, ms, rd=None):
        x = realabs.weaken(a, g, rd); print('GOAL', x, 'KEYS', KK); r = _w(a, g, ms, rd); print('->', r); return r
    realabs.prove = w
t0 = time.time()
try: e.run_harness(sys.argv[2])
except Exception as x:
    import traceback; traceback.print_exc()
print(e.res.paths, e.res.covers, e.res.queries)
for x in e.res.obl:
    if x['status'] == 'failed' and os.environ.get('MODEL'): print(x['name'], x['model'])
