"""Candidate loop invariants (Houdini keeps the inductive ones)."""
import z3
def val(v):
    from .engine import IV
    if isinstance(v, IV): return v
    raise AttributeError
def poly(eng, ctx):
    """loops over a polygon given as uninterpreted functions px(i), py(i): order and equality of the loop's
    variables, their distance from the vertex count, coordinates of the vertex walked over, crossing parity"""
    from .engine import zi, IV
    S = lambda v: zi(eng.S(val(v)).e)
    ints = ctx.ints(); bools = ctx.bools(); out = []
    st = ctx.st
    w = {k: ctx.init[k].w for k in ints}
    def glob(nm):
        try: p = eng.global_ptr(st, nm); return zi(eng.S(eng.load(st, p, ity64())).e)
        except Exception: return None
    N = glob('_ZL1N')
    def uf(nm): return eng.ufs.get((nm, 1, 'i'))
    for k in bools:
        out.append(('not %s' % (k,), lambda d, k=k: eng_not(d[k])))
    for a in ints:
        out.append(('%s>=0' % (a,), lambda d, a=a: S(d[a]) >= 0))
        out.append(('%s==0' % (a,), lambda d, a=a: S(d[a]) == 0))
        if w[a] == 8: out.append(('%s<=1' % (a,), lambda d, a=a: S(d[a]) <= 1))
        if N is not None and w[a] == 32: out.append(('%s<=N' % (a,), lambda d, a=a: S(d[a]) <= N))
        if N is not None and w[a] == 64: out.append(('%s<=N' % (a,), lambda d, a=a: S(d[a]) <= N)); out.append(('%s<N' % (a,), lambda d, a=a: S(d[a]) < N)); out.append(('%s>=1' % (a,), lambda d, a=a: S(d[a]) >= 1))
        for b in ints:
            if a == b: continue
            if str(a) < str(b): out.append(('%s==%s' % (a, b), lambda d, a=a, b=b: S(d[a]) == S(d[b])))
            if sorted((w[a], w[b])) == [32, 64] and w[a] == 32:
                for c in ints:
                    if w[c] == 8 and len(ints) < 24:
                        out.append(('%s!=0 or %s==%s' % (c, a, b), lambda d, a=a, b=b, c=c: z3.Or(S(d[c]) != 0, S(d[a]) == S(d[b]))))
                        out.append(('%s==0 or %s==%s' % (c, a, b), lambda d, a=a, b=b, c=c: z3.Or(S(d[c]) == 0, S(d[a]) == S(d[b]))))
            if w[a] == 64 and w[b] == 256: out.append(('2%s==%s' % (a, b), lambda d, a=a, b=b: 2 * S(d[a]) == S(d[b])))
            if w[a] == 256 and w[b] == 256:
                for i in ints:
                    if w[i] == 64: out.append(('%s==%s shifted %s' % (a, b, i), lambda d, a=a, b=b, i=i: S(d[a]) == S(d[b]) + 2 * uf('py')(z3.IntVal(0)) * (uf('px')(S(d[i]) - 1) - uf('px')(z3.IntVal(0))) if uf('px') is not None and uf('py') is not None else None))
            if w[a] == 8 and w[b] == 64:
                out.append(('%s==0 or %s==0' % (a, b), lambda d, a=a, b=b: z3.Or(S(d[a]) == 0, S(d[b]) == 0)))
                out.append(('%s!=0 or %s>0' % (a, b), lambda d, a=a, b=b: z3.Or(S(d[a]) != 0, S(d[b]) > 0)))
            if w[b] == 64:
                out.append(('%s<=%s' % (a, b), lambda d, a=a, b=b: S(d[a]) <= S(d[b])))
                if w[a] == 32: out.append(('-%s<=%s' % (a, b), lambda d, a=a, b=b: -S(d[a]) <= S(d[b])))
                if w[a] == 32:
                    out.append(('%s<%s' % (a, b), lambda d, a=a, b=b: S(d[a]) < S(d[b])))
                    for c in ints:
                        if w[c] == 8: out.append(('%s!=0 or %s<%s' % (c, a, b), lambda d, a=a, b=b, c=c: z3.Or(S(d[c]) != 0, S(d[a]) < S(d[b]))))
                    for nm in ('px', 'py'):
                        for c in ints:
                            if w[c] == 8: out.append(('%s!=0 or %s==%s(%s-1)' % (c, a, nm, b), lambda d, a=a, b=b, c=c, nm=nm: z3.Or(S(d[c]) != 0, S(d[a]) == uf(nm)(S(d[b]) - 1)) if uf(nm) is not None else None))
                        out.append(('%s==%s(%s-1)' % (a, nm, b), lambda d, a=a, b=b, nm=nm: S(d[a]) == uf(nm)(S(d[b]) - 1) if uf(nm) is not None else None))
                        out.append(('%s==%s(0)' % (a, nm), lambda d, a=a, b=b, nm=nm: S(d[a]) == uf(nm)(z3.IntVal(0)) if uf(nm) is not None else None))
    qx, qy = glob32(eng, st, '_ZL2qx'), glob32(eng, st, '_ZL2qy')
    i32 = [a for a in ints if w[a] == 32]; i64 = [a for a in ints if w[a] == 64]
    mode = glob32(eng, st, 'G')
    if mode is not None and z3.is_int_value(mode) and mode.as_long() == 0 and N is not None and len(i32) <= 6:
        def m(j): return z3.If(z3.And(uf('py')(j) == qy, uf('px')(j) <= qx), 1, 0)
        for f in i32:
            for h in i32:
                if f == h: continue
                for p in i64:
                    for i in i64:
                        if p == i: continue
                        def par(d, f=f, h=h, p=p, i=i):
                            if uf('px') is None: return None
                            j = z3.If(S(d[i]) == N, 0, S(d[i]))
                            return (2 * (S(d[p]) - S(d[f])) - S(d[h]) - m(z3.IntVal(0)) + m(j)) % 4 == 0
                        out.append(('parity %s %s %s %s' % (f, h, p, i), par))
    return out
def eng_not(v): return (not v) if isinstance(v, bool) else z3.Not(v)
def ity64():
    from .engine import ity
    return ity(64)
def glob32(eng, st, nm):
    from .engine import ity, zi
    try: return zi(eng.S(eng.load(st, eng.global_ptr(st, nm), ity(32))).e)
    except Exception: return None
def poly_want(eng, st, F, hdr):
    """cut every loop but the ones over the elements of an array (pointer-valued, fixed length: unrolled)"""
    ph = F.blocks[hdr].phis
    return not (ph and any(p.ty.k == 'p' for p in ph))
def edit(eng, ctx):
    """loops that collect the elements of a sequence of which the one at position K is observed: counters in step,
    the observed element equal to its wanted image once its position has been passed"""
    from .engine import zi, ity
    S = lambda v: zi(eng.S(val(v)).e)
    ints = ctx.ints(); bools = ctx.bools(); out = []; st = ctx.st; w = {k: ctx.init[k].w for k in ints}
    def glob(nm, t):
        try: return zi(eng.S(eng.load(st, eng.global_ptr(st, nm), ity(t))).e)
        except Exception: return None
    N, K = glob('_ZL1N', 64), glob('_ZL1K', 64); W = [(nm, glob(nm, 32)) for nm in ('_ZL2WX', '_ZL2WY')]
    i64 = [a for a in ints if w[a] == 64]; i32 = [a for a in ints if w[a] == 32]; i8 = [a for a in ints if w[a] in (1, 8)]
    for c in i8:
        out.append(('%s>=0' % (c,), lambda d, c=c: S(d[c]) >= 0)); out.append(('%s<=1' % (c,), lambda d, c=c: S(d[c]) <= 1))
    for a in i64:
        out.append(('%s>=0' % (a,), lambda d, a=a: S(d[a]) >= 0)); out.append(('%s<=N' % (a,), lambda d, a=a: S(d[a]) <= N))
        for b in i64:
            if str(a) < str(b): out.append(('%s==%s' % (a, b), lambda d, a=a, b=b: S(d[a]) == S(d[b])))
        for c in i8:
            for k in (0, 1): out.append(('%s parity %s %d' % (a, c, k), lambda d, a=a, c=c, k=k: (S(d[a]) % 2 == 0) == (S(d[c]) != k)))
        for c in bools:
            for k in (False, True): out.append(('%s parity %s %s' % (a, c, k), lambda d, a=a, c=c, k=k: (S(d[a]) % 2 == 0) == (eng_not(d[c]) if k else d[c])))
        for b in i32:
            for nm, g in W:
                if g is not None: out.append(('%s<=K or %s==%s' % (a, b, nm), lambda d, a=a, b=b, g=g: z3.Or(S(d[a]) <= K, S(d[b]) == g)))
            for q in (0, 1):
                g = W[q][1]
                if g is not None: out.append(('%s<=K or %s==%s on parity' % (a, b, W[q][0]), lambda d, a=a, b=b, g=g, q=q: z3.Or(S(d[a]) <= K, K % 2 != q, S(d[b]) == g)))
            for k in (0, 1): out.append(('%s<=K or %s==%d' % (a, b, k), lambda d, a=a, b=b, k=k: z3.Or(S(d[a]) <= K, S(d[b]) == k)))
    return out
edit_want = poly_want
def compact(eng, ctx):
    """loops that walk a compact rectilinear sequence or a rectilinear loop: positions in step or one apart up to the
    last element, coordinates of the element walked over, alternating orientation"""
    from .engine import zi, ity
    S = lambda v: zi(eng.S(val(v)).e)
    ints = ctx.ints(); bools = ctx.bools(); out = []; st = ctx.st; w = {k: ctx.init[k].w for k in ints}
    def glob(nm, t):
        try: return zi(eng.S(eng.load(st, eng.global_ptr(st, nm), ity(t))).e)
        except Exception: return None
    N, K = glob('_ZL1N', 64), glob('_ZL1K', 64)
    i64 = [a for a in ints if w[a] == 64]; i32 = [a for a in ints if w[a] == 32]; i8 = [a for a in ints if w[a] in (1, 8, 32)]
    def uf(nm): return eng.ufs.get((nm, 1, 'i'))
    def wrap(e): return z3.If(e >= N, e - N, e)
    for c in i8: out.append(('%s>=0' % (c,), lambda d, c=c: S(d[c]) >= 0)); out.append(('%s<=1' % (c,), lambda d, c=c: S(d[c]) <= 1))
    for a in i64:
        out.append(('%s>=0' % (a,), lambda d, a=a: S(d[a]) >= 0)); out.append(('%s<=N' % (a,), lambda d, a=a: S(d[a]) <= N))
        for b in ints:
            if str(a) < str(b): out.append(('%s==%s' % (a, b), lambda d, a=a, b=b: S(d[a]) == S(d[b])))
    for i in i64:
        for a in i32:
            out.append(('%s==%s, minus one at the end' % (a, i), lambda d, a=a, i=i: S(d[a]) == z3.If(S(d[i]) >= N, -1, S(d[i]))))
        for a in i64:
            if a == i: continue
            out.append(('%s next of %s up to the end' % (a, i), lambda d, a=a, i=i: z3.Or(z3.And(S(d[a]) == S(d[i]) + 1, S(d[i]) <= N - 2), z3.And(S(d[i]) == N - 1, S(d[a]) == N - 1), z3.And(S(d[i]) == N, S(d[a]) == N))))
            out.append(('%s two past %s, at most N' % (a, i), lambda d, a=a, i=i: S(d[a]) == z3.If(S(d[i]) + 2 > N, N, S(d[i]) + 2)))
        M = glob('_ZL1M', 32); qx, qy = glob('_ZL2qx', 32), glob('_ZL2qy', 32)
        if M is not None:
            for a in i32:
                for k in (0, 1): out.append(('%s==weight of %s %d' % (a, i, k), lambda d, a=a, i=i, k=k: z3.Or(S(d[i]) >= N, S(d[a]) == z3.If((S(d[i]) + K + k) % 2 == 0, -M, M))))
        if qx is not None and uf('px') is not None and uf('py') is not None:
            for a in i64:
                for b in i64:
                    if a != i and b != i and str(a) != str(b): out.append(('%s==%s, less the pending corner of %s' % (a, b, i), lambda d, a=a, b=b, i=i: z3.If(S(d[i]) % 2 == 0, S(d[a]) == S(d[b]), S(d[a]) == S(d[b]) - z3.If(z3.And(uf('px')(S(d[i])) <= qx, uf('py')(S(d[i])) <= qy), 1, 0))))
        for c in i8 + list(bools):
            for k in (0, 1):
                def par(d, i=i, c=c, k=k, lim=None):
                    t = d[c] if c in bools else S(d[c]) != 0
                    e = (S(d[i]) % 2 == 0) == (eng_not(t) if k else t)
                    return e
                out.append(('%s parity %s %d' % (i, c, k), par))
                out.append(('%s parity %s %d before the end' % (i, c, k), lambda d, par=par, i=i: z3.Or(S(d[i]) >= N - 1, par(d))))
        for a in i32:
            if a == i: continue
            for nm in ('px', 'py'):
                g = lambda e, nm=nm: uf(nm)(e)
                def cand(text, f, a=a, i=i, nm=nm): out.append(('%s==%s(%s)' % (a, nm, text.replace('i', str(i))), lambda d: (f(S(d[a]), S(d[i])) if uf(nm) is not None else None)))
                cand('0', lambda v, e, g=g: v == g(z3.IntVal(0)))
                cand('1', lambda v, e, g=g: v == g(z3.IntVal(1)))
                cand('K', lambda v, e, g=g: v == g(K))
                cand('i', lambda v, e, g=g: z3.Or(e >= N, v == g(e)))
                cand('i+1 wrapped', lambda v, e, g=g: z3.Or(e >= N, v == g(wrap(e + 1))))
                cand('i+2 wrapped', lambda v, e, g=g: z3.Or(e >= N, v == g(wrap(e + 2))))
                cand('i+K wrapped', lambda v, e, g=g: z3.Or(e >= N, v == g(wrap(e + K))))
                cand('even i, or 0 at the end', lambda v, e, g=g: z3.Or(e >= N, v == z3.If(e >= N - 1, g(z3.IntVal(0)), g(e + e % 2))))
                cand('odd i', lambda v, e, g=g: z3.Or(e >= N, v == g(e + 1 - e % 2)))
    return out
compact_want = poly_want
def inplace(eng, ctx):
    """loops that change the elements of a sequence in place, the one at position K observed: unchanged before its
    position is reached, its wanted image afterwards"""
    from .engine import zi, ity
    S = lambda v: zi(eng.S(val(v)).e)
    ints = ctx.ints(); out = []; st = ctx.st; w = {k: ctx.init[k].w for k in ints}
    def glob(nm, t):
        try: return zi(eng.S(eng.load(st, eng.global_ptr(st, nm), ity(t))).e)
        except Exception: return None
    N, K = glob('_ZL1N', 64), glob('_ZL1K', 64); W = [(nm, glob(nm, 32)) for nm in ('_ZL2WX', '_ZL2WY', '_ZL2WC')]
    i64 = [a for a in ints if w[a] == 64]; i32 = [a for a in ints if w[a] == 32]; i8 = [a for a in ints if w[a] in (1, 8)]
    B = [(nm, glob('_ZL3' + nm, 32)) for nm in ('BXL', 'BXH', 'BYL', 'BYH')]
    for b in i32:
        for nm, g in B:
            if g is not None: out.append(('%s<=%s' % (b, nm), lambda d, b=b, g=g: S(d[b]) <= g)); out.append(('%s>=%s' % (b, nm), lambda d, b=b, g=g: S(d[b]) >= g))
    for a in i64:
        for b in i32:
            for nm, g in B:
                if g is not None: out.append(('%s==0 or %s<=%s' % (a, b, nm), lambda d, a=a, b=b, g=g: z3.Or(S(d[a]) == 0, S(d[b]) <= g))); out.append(('%s==0 or %s>=%s' % (a, b, nm), lambda d, a=a, b=b, g=g: z3.Or(S(d[a]) == 0, S(d[b]) >= g)))
    for c in i8: out.append(('%s>=0' % (c,), lambda d, c=c: S(d[c]) >= 0)); out.append(('%s<=1' % (c,), lambda d, c=c: S(d[c]) <= 1))
    for a in i64:
        out.append(('%s>=0' % (a,), lambda d, a=a: S(d[a]) >= 0)); out.append(('%s<=N' % (a,), lambda d, a=a: S(d[a]) <= N)); out.append(('%s>=-1' % (a,), lambda d, a=a: S(d[a]) >= -1))
        out.append(('%s<=N-1' % (a,), lambda d, a=a: S(d[a]) <= N - 1)); out.append(('%s>=1' % (a,), lambda d, a=a: S(d[a]) >= 1))
        for b in i64:
            if a != b: out.append(('%s<%s' % (a, b), lambda d, a=a, b=b: S(d[a]) < S(d[b])))
        for b in i32:
            for nm, g in W:
                if g is not None: mid = z3.And(K != 0, K != N - 1); out.append(('%s<=K inside or %s<=%s' % (a, b, nm), lambda d, a=a, b=b, g=g, mid=mid: z3.Or(z3.And(S(d[a]) <= K, mid), S(d[b]) <= g))); out.append(('%s<=K inside or %s>=%s' % (a, b, nm), lambda d, a=a, b=b, g=g, mid=mid: z3.Or(z3.And(S(d[a]) <= K, mid), S(d[b]) >= g)))
                if g is not None: out.append(('%s<=K or %s<=%s' % (a, b, nm), lambda d, a=a, b=b, g=g: z3.Or(S(d[a]) <= K, S(d[b]) <= g))); out.append(('%s<=K or %s>=%s' % (a, b, nm), lambda d, a=a, b=b, g=g: z3.Or(S(d[a]) <= K, S(d[b]) >= g)))
        for b in i32 + i8:
            out.append(('%s>K or %s as before' % (a, b), lambda d, a=a, b=b: z3.Or(S(d[a]) > K, S(d[b]) == S(ctx.init[b]))))
            for nm, g in W:
                if g is not None: out.append(('%s<=K or %s==%s' % (a, b, nm), lambda d, a=a, b=b, g=g: z3.Or(S(d[a]) <= K, S(d[b]) == g)))
    return out
inplace_want = poly_want
def scan(eng, ctx):
    """the loop over the nodes of a scan map between two ends: position between its first and last value, the nodes
    passed changed once each, the emitted sum that of the cell's owner once it has been passed"""
    from .engine import zi, ity
    S = lambda v: zi(eng.S(val(v)).e)
    ints = ctx.ints(); out = []; st = ctx.st; w = {k: ctx.init[k].w for k in ints}
    def glob(nm, t):
        try: return zi(eng.S(eng.load(st, eng.global_ptr(st, nm), ity(t))).e)
        except Exception: return None
    g = {n: glob('_ZL%d%s' % (len(n), n), 64) for n in ('N', 'loI', 'hiI', 'aL', 'aH', 'OW')}; h = {n: glob('_ZL%d%s' % (len(n), n), 32) for n in ('Q', 'L', 'H', 'D', 'GV')}
    if g['hiI'] is None: return out
    i64 = [a for a in ints if w[a] == 64]; i32 = [a for a in ints if w[a] == 32]
    lim = z3.If(g['hiI'] >= 0, 4 * g['hiI'] - 1, 4 * g['aH'])
    def uf(): return eng.ufs.get(('ck', 1, 'i'))
    for a in i64:
        for k in i32:
            def cd(d, a=a, k=k): return 4 * S(d[a]) - S(d[k])
            i0 = 4 * S(ctx.init[a]) - S(ctx.init[k])
            out.append(('node %s,%s kind' % (a, k), lambda d, a=a, k=k: z3.Or(z3.And(S(d[k]) == 0, S(d[a]) >= 0, S(d[a]) < g['N']), z3.And(S(d[k]) == 1, S(d[a]) == g['hiI']), z3.And(S(d[k]) == 2, S(d[a]) == g['loI']))))
            out.append(('node %s,%s range' % (a, k), lambda d, cd=cd, i0=i0: z3.And(cd(d) >= i0, cd(d) <= lim)))
            for b in i64:
                for c in i64:
                    if a != b and b != c and a != c: out.append(('node %s,%s passed %s %s' % (a, k, b, c), lambda d, cd=cd, i0=i0, b=b, c=c: z3.If(cd(d) == i0, S(d[b]) == -9, z3.And(S(d[b]) == cd(d), S(d[c]) == i0))))
            for e in i32:
                if e == k: continue
                out.append(('node %s,%s emitted %s' % (a, k, e), lambda d, cd=cd, i0=i0, e=e: S(d[e]) == z3.If(z3.And(g['OW'] >= i0, g['OW'] < cd(d)), h['GV'], 0)))
                out.append(('node %s,%s above %s' % (a, k, e), lambda d, a=a, k=k, e=e: S(d[e]) <= z3.If(S(d[k]) == 0, uf()(S(d[a])), z3.If(S(d[k]) == 1, h['H'], h['L'])) if uf() is not None else None))
    for e in i32:
        out.append(('%s>=L' % (e,), lambda d, e=e: S(d[e]) >= h['L'])); out.append(('%s<=H' % (e,), lambda d, e=e: S(d[e]) <= h['H']))
    return out
scan_want = poly_want
def handon(eng, ctx):
    """a loop that hands on the entries of a sorted stream: the position is the first entry not handed on yet"""
    from .engine import zi, ity
    S = lambda v: zi(eng.S(val(v)).e)
    ints = ctx.ints(); out = []; st = ctx.st; w = {k: ctx.init[k].w for k in ints}
    sym = lambda n: '_ZL%d%s' % (len(n), n)
    sz = {'N': 64, 'NEXT': 64, 'gcur': 32}
    try: cur = {n: zi(eng.S(eng.load(st, eng.global_ptr(st, sym(n)), ity(sz[n]))).e) for n in sz}
    except Exception: return out
    memk = {n: ('mem', eng.gobj.get(sym(n)), 0) for n in sz}; memk = {n: k for n, k in memk.items() if k in ints}
    def G(d, n): return S(d[memk[n]]) if n in memk else cur[n]
    def uf(n): return eng.ufs.get((n, 1, 'i'))
    C = lambda t, f: out.append((t, f))
    C('next in range', lambda d: z3.And(G(d, 'NEXT') >= 0, G(d, 'NEXT') <= G(d, 'N')))
    C('an edge begins', lambda d: z3.Or(G(d, 'NEXT') >= G(d, 'N'), uf('s')(G(d, 'NEXT')) != 0) if uf('s') is not None else None)
    C('scan', lambda d: z3.Or(G(d, 'NEXT') == 0, G(d, 'gcur') == uf('pos')(G(d, 'NEXT') - 1)) if uf('pos') is not None else None)
    C('scan start', lambda d: z3.Or(G(d, 'NEXT') != 0, G(d, 'gcur') == 2 ** 31 - 1))
    for a in ints:
        if a in memk.values(): continue
        if w[a] == 64: C('%s==NEXT' % (a,), lambda d, a=a: S(d[a]) == G(d, 'NEXT'))
        if w[a] == 32: C('%s==scan' % (a,), lambda d, a=a: S(d[a]) == G(d, 'gcur'))
    return out
handon_want = poly_want
def counts(eng, ctx):
    """merging two sorted sequences of counts: what is collected is what has been passed; copying the non-zero ones"""
    from .engine import zi, ity
    S = lambda v: zi(eng.S(val(v)).e)
    ints = ctx.ints(); out = []; st = ctx.st; w = {k: ctx.init[k].w for k in ints}
    sym = lambda n: '_ZL%d%s' % (len(n), n)
    sz = {'N1': 64, 'N2': 64, 'G1': 64, 'G2': 64, 'GT': 64, 'TN': 64, 'RN': 64, 'P': 32, 'TC': 32, 'SG': 32, 'rprop': 32, 'rcnt': 32, 'rhas': 32}
    cur = {}
    for n in sz:
        try: cur[n] = zi(eng.S(eng.load(st, eng.global_ptr(st, sym(n)), ity(sz[n]))).e)
        except Exception: cur[n] = None
    memk = {n: ('mem', eng.gobj.get(sym(n)), 0) for n in sz}; memk = {n: k for n, k in memk.items() if k in ints}
    try:
        lp = eng.global_ptr(st, '_ZL4last'); cur['lprop'] = zi(eng.S(eng.load(st, lp, ity(32))).e); cur['lcnt'] = zi(eng.S(eng.load(st, type(lp)(lp.base, 4), ity(32))).e)
    except Exception: pass
    lo = eng.gobj.get('_ZL4last')
    for n, o in (('lprop', 0), ('lcnt', 4)):
        if ('mem', lo, o) in ints: memk[n] = ('mem', lo, o)
    def G(d, n): return S(d[memk[n]]) if n in memk else cur[n]
    def uf(n): return eng.ufs.get((n, 1, 'i'))
    try: nz = z3.is_true(z3.simplify(zi(eng.S(eng.load(st, eng.global_ptr(st, '_ZL2NZ'), ity(8))).e) == 1))
    except Exception: nz = False
    only = ('signed', 'nothing left', 'last strictly', 'last not zero') if not nz else ('total', 'last small', 'last behind', 'result', 'last below')
    C = lambda t, f: out.append((t, f)) if not t.startswith(only) else None
    mem = set(memk.values())
    idx = [a for a in ints if w[a] == 64 and a not in mem] or [a for a in ints if w[a] == 32 and a not in mem and a[0] == 'phi']
    for a in idx:
        for s in '12': C('nothing left %s%s' % (a, s), lambda d, a=a, s=s: z3.Or(S(ctx.init[a]) != cur['N' + s], z3.And([S(d[a]) == S(ctx.init[a])] + [S(d[k]) == S(ctx.init[k]) for n, k in memk.items() if n in ('lprop', 'lcnt', 'TN', 'GT', 'TC')])))
        C('%s>=0' % (a,), lambda d, a=a: S(d[a]) >= 0)
        for n in ('N1', 'N2', 'TN'): C('%s<=%s' % (a, n), lambda d, a=a, n=n: S(d[a]) <= G(d, n)); C('%s==%s' % (a, n), lambda d, a=a, n=n: S(d[a]) == G(d, n))
    C('TN', lambda d: z3.And(G(d, 'TN') >= 0, G(d, 'RN') >= 0)); C('GT', lambda d: z3.And(G(d, 'GT') >= -1, G(d, 'GT') < G(d, 'TN')))
    if 'lprop' in cur or 'lprop' in memk:
        if 'lprop' in memk or True:
            for a in idx:
                for s in '12': C('last below %s%s' % (a, s), lambda d, a=a, s=s: z3.Or(G(d, 'TN') == 0, S(d[a]) >= G(d, 'N' + s), G(d, 'lprop') <= uf('p' + s)(S(d[a]))))
                for s in '12': C('last strictly below %s%s' % (a, s), lambda d, a=a, s=s: z3.Or(G(d, 'TN') == 0, S(d[a]) >= G(d, 'N' + s), G(d, 'lprop') < uf('p' + s)(S(d[a]))))
            C('last not zero', lambda d: z3.Or(G(d, 'TN') == 0, G(d, 'lcnt') != 0))
            C('last is P', lambda d: z3.Or(G(d, 'TN') == 0, z3.And((G(d, 'lprop') == G(d, 'P')) == (G(d, 'GT') == G(d, 'TN') - 1), z3.Or(G(d, 'GT') < 0, G(d, 'GT') == G(d, 'TN') - 1, G(d, 'lprop') > G(d, 'P')))))
            for a in idx:
                for b in idx + ['N1', 'N2']:
                    for c in ((0, 1) if b in idx and a != b else (0,) if b == 'N2' else (1,) if b == 'N1' else ()):
                        def tot(d, a=a, b=b, c=c):
                            x, y = S(d[a]), (S(d[b]) if b in idx else G(d, b))
                            if c: x, y = y, x
                            g1, g2 = z3.And(G(d, 'G1') >= 0, G(d, 'G1') < x), z3.And(G(d, 'G2') >= 0, G(d, 'G2') < y)
                            t = z3.If(G(d, 'GT') < 0, 0, z3.If(G(d, 'GT') == G(d, 'TN') - 1, G(d, 'lcnt'), G(d, 'TC')))
                            e = z3.If(g1, uf('c1')(G(d, 'G1')), 0) + z3.If(g2, uf('c2')(G(d, 'G2')), 0)
                            return z3.And(t == e, (G(d, 'GT') >= 0) == z3.Or(g1, g2))
                        def tot2(d, a=a, b=b, c=c):
                            x, y = S(d[a]), (S(d[b]) if b in idx else G(d, b))
                            if c: x, y = y, x
                            g1, g2 = z3.And(G(d, 'G1') >= 0, G(d, 'G1') < x), z3.And(G(d, 'G2') >= 0, G(d, 'G2') < y)
                            t = z3.If(G(d, 'GT') < 0, 0, z3.If(G(d, 'GT') == G(d, 'TN') - 1, G(d, 'lcnt'), G(d, 'TC')))
                            c2 = uf('c2')(G(d, 'G2'))
                            e = z3.If(g1, uf('c1')(G(d, 'G1')), 0) + z3.If(g2, z3.If(G(d, 'SG') < 0, -c2, c2), 0)
                            return z3.And(t == e, z3.Implies(G(d, 'GT') >= 0, t != 0))
                        C('signed total of P %s %s %d' % (a, b, c), tot2)
                        if (b, c) in (('N2', 0), ('N1', 1)):
                            sd = '1' if b == 'N2' else '2'
                            same = lambda d, a=a: z3.And([S(d[a]) == S(ctx.init[a])] + [S(d[k]) == S(ctx.init[k]) for n, k in memk.items() if n in ('lprop', 'lcnt', 'TN', 'GT', 'TC')])
                            C('signed total of P %s %s %d unless done' % (a, b, c), lambda d, a=a, sd=sd, tot2=tot2, same=same: z3.If(S(ctx.init[a]) == cur['N' + sd], same(d), tot2(d)))
                        C('total of P %s %s %d' % (a, b, c), tot)
                        def lsm(d, a=a, b=b, c=c):
                            x, y = S(d[a]), (S(d[b]) if b in idx else G(d, b))
                            if c: x, y = y, x
                            return z3.Or(G(d, 'TN') == 0, z3.And(G(d, 'lcnt') >= -2 ** 28, G(d, 'lcnt') <= 2 ** 28), z3.And(z3.Or(x >= G(d, 'N1'), G(d, 'lprop') < uf('p1')(x)), z3.Or(y >= G(d, 'N2'), G(d, 'lprop') < uf('p2')(y))))
                        C('last small %s %s %d' % (a, b, c), lsm)
                        def lst(d, a=a, b=b, c=c):
                            x, y = S(d[a]), (S(d[b]) if b in idx else G(d, b))
                            if c: x, y = y, x
                            return z3.Or(G(d, 'TN') == 0, x >= G(d, 'N1'), y >= G(d, 'N2'), G(d, 'lprop') < uf('p1')(x), G(d, 'lprop') < uf('p2')(y))
                        C('last behind %s %s %d' % (a, b, c), lst)
    for a in idx:
        C('result has P %s' % (a,), lambda d, a=a: z3.If(z3.And(G(d, 'GT') >= 0, S(d[a]) > G(d, 'GT'), G(d, 'TC') != 0), z3.And(G(d, 'rhas') == 1, G(d, 'rcnt') == G(d, 'TC')), G(d, 'rhas') == 0))
        C('result last %s' % (a,), lambda d, a=a: z3.Or(G(d, 'RN') == 0, z3.And(S(d[a]) > 0, G(d, 'rprop') <= uf('pt')(S(d[a]) - 1))))
        for b in ints:
            if w[b] == 32 and b not in mem:
                C('%s has P %s' % (b, a), lambda d, a=a, b=b: S(d[b]) == z3.If(z3.And(G(d, 'G1') >= 0, S(d[a]) > G(d, 'G1'), uf('c1')(G(d, 'G1')) > 0), 1, 0))
                C('%s last %s' % (b, a), lambda d, a=a, b=b: z3.Or(S(d[a]) == 0, S(d[b]) <= uf('p1')(S(d[a]) - 1)))
                for c in idx: C('%s last %s %s' % (b, a, c), lambda d, a=a, b=b, c=c: z3.Or(S(d[c]) == 0, z3.And(S(d[a]) > 0, S(d[b]) <= uf('p1')(S(d[a]) - 1))))
    return out
counts_want = poly_want
def walk(eng, ctx):
    """the walk over sorted streams of stored edges: the loop's position and counts are those of the entries passed,
    the scan line has the new count below the position and the old one above, the output its change"""
    from .engine import zi, ity
    S = lambda v: zi(eng.S(val(v)).e)
    ints = ctx.ints(); out = []; st = ctx.st; w = {k: ctx.init[k].w for k in ints}
    i64 = [a for a in ints if w[a] == 64]; i32 = [a for a in ints if w[a] == 32]
    nm32 = ['Q', 'gpos', 'gY', 'T0', 'T1', 'S0', 'S1', 'F0', 'F1', 'f0', 'f1', 'outS', 'outY', 'scanHi', 'EV', 'PL', 'PH', 'started']; nm64 = ['N1', 'N2', 'M', 'J', 'calls']
    def sym(n): return '_ZL%d%s' % (len(n), n)
    cur = {}
    for n in nm32 + nm64:
        try: cur[n] = zi(eng.S(eng.load(st, eng.global_ptr(st, sym(n)), ity(32 if n in nm32 else 64))).e)
        except Exception: return out
    memk = {n: ('mem', eng.gobj.get(sym(n)), 0) for n in nm32 + nm64}; memk = {n: k for n, k in memk.items() if k in ints}
    def G(d, n): return S(d[memk[n]]) if n in memk else cur[n]
    evf = lambda a, b: eng.ufs[('ev', 2, 'i')](a, b)
    pos = lambda a, b: z3.If(evf(a, b) > 0, 1, 0)
    def uf(n, k=1): return eng.ufs.get((n, k, 'i'))
    C = lambda t, f: out.append((t, f))
    for s in '01':
        C('scan count' + s, lambda d, s=s: G(d, 'f' + s) == G(d, 'F' + s) + z3.If(G(d, 'Q') < G(d, 'gY'), G(d, 'S' + s), 0))
        C('passed' + s, lambda d, s=s: z3.Or(G(d, 'Q') < G(d, 'gY'), G(d, 'S' + s) == G(d, 'T' + s)))
        for n in ('T', 'S', 'F', 'f'): C('zero %s%s' % (n, s), lambda d, n=n, s=s: G(d, n + s) == 0); C('start %s%s' % (n, s), lambda d, n=n, s=s: z3.Or(G(d, 'started') == 1, G(d, n + s) == 0))
    C('output', lambda d: G(d, 'outS') == pos(G(d, 'f0'), G(d, 'f1')) - pos(G(d, 'F0'), G(d, 'F1')) if ('ev', 2, 'i') in eng.ufs else None)
    C('scan below', lambda d: z3.Or(G(d, 'started') == 0, G(d, 'scanHi') <= G(d, 'gY'))); C('out below', lambda d: z3.Or(G(d, 'started') == 0, G(d, 'outY') <= G(d, 'gY')))
    C('start scan', lambda d: z3.Or(G(d, 'started') == 1, G(d, 'scanHi') <= -2 ** 31)); C('outY start', lambda d: z3.Or(G(d, 'started') == 1, G(d, 'outY') <= -2 ** 31)); C('outS start', lambda d: z3.Or(G(d, 'started') == 1, G(d, 'outS') == 0))
    C('started bit', lambda d: z3.And(G(d, 'started') >= 0, G(d, 'started') <= 1)); C('started', lambda d: G(d, 'started') == 1); C('calls', lambda d: z3.And(G(d, 'calls') >= 0)); C('calls64', lambda d: G(d, 'calls') <= 2 * (cur['N1'] + cur['N2']))
    C('start pos', lambda d: z3.Or(G(d, 'started') == 1, z3.And(G(d, 'gpos') == 2 ** 31 - 1, G(d, 'gY') == 2 ** 31 - 1)))
    for n in ('T0', 'T1', 'S0', 'S1', 'F0', 'F1', 'f0', 'f1'):
        C('bound ' + n, lambda d, n=n: z3.And(G(d, n) >= -2 ** 28, G(d, n) <= 2 ** 28))
    C('bound outS', lambda d: z3.And(G(d, 'outS') >= -2 ** 28, G(d, 'outS') <= 2 ** 28))
    for a in i32:
        if a in memk.values(): continue
        for n in ('gpos', 'gY', 'T0', 'T1'): C('%s==%s' % (a, n), lambda d, a=a, n=n: S(d[a]) == G(d, n)); C('%s==%s once started' % (a, n), lambda d, a=a, n=n: z3.Or(G(d, 'started') == 0, S(d[a]) == G(d, n)))
        C('%s==0' % (a,), lambda d, a=a: S(d[a]) == 0); C('%s==max' % (a,), lambda d, a=a: z3.Or(G(d, 'started') == 1, S(d[a]) == 2 ** 31 - 1)); C('%s unit' % (a,), lambda d, a=a: z3.Or(S(d[a]) == 1, S(d[a]) == -1))
        C('%s<=outY' % (a,), lambda d, a=a: S(d[a]) <= G(d, 'outY'))
        for b in i32:
            if b not in memk.values() and a != b: C('%s below at %s' % (a, b), lambda d, a=a, b=b: z3.Or(S(d[b]) != G(d, 'gpos'), S(d[a]) <= G(d, 'outY')))
    for a in i64:
        if a in memk.values(): continue
        C('%s>=0' % (a,), lambda d, a=a: S(d[a]) >= 0); C('%s>0 iff' % (a,), lambda d, a=a: (S(d[a]) == 0) == (G(d, 'started') == 0)); C('%s=0 unstarted' % (a,), lambda d, a=a: z3.Or(G(d, 'started') == 1, S(d[a]) == 0))
        for n in ('N1', 'N2', 'M'): C('%s<=%s' % (a, n), lambda d, a=a, n=n: S(d[a]) <= G(d, n))
        C('%s unit bound' % (a,), lambda d, a=a: S(d[a]) <= 2 ** 60)
        for s in ('1', '2'):
            C('head %s of %s' % (s, a), lambda d, a=a, s=s: z3.Or(G(d, 'started') == 0, S(d[a]) >= cur['N' + s], uf('pos' + s)(S(d[a])) > G(d, 'gpos'), z3.And(uf('pos' + s)(S(d[a])) == G(d, 'gpos'), uf('y' + s)(S(d[a])) >= G(d, 'gY'))) if uf('pos' + s) is not None else None)
        if 'outS' in memk: C('%s pieces' % (a,), lambda d, a=a: G(d, 'outS') == S(ctx.init[memk['outS']]) + z3.If(z3.And(G(d, 'EV') != 0, G(d, 'J') < S(d[a])), G(d, 'EV'), 0))
        C('%s piece order' % (a,), lambda d, a=a: z3.If(S(d[a]) == 0, G(d, 'outY') <= G(d, 'PL'), G(d, 'outY') <= uf('hi', 2)(G(d, 'calls'), S(d[a]) - 1)) if uf('hi', 2) is not None else None)
        C('%s out in piece' % (a,), lambda d, a=a: z3.Or(G(d, 'outY') <= G(d, 'PL'), G(d, 'outY') <= G(d, 'PH')))
    return out
walk_want = poly_want
