"""Weakening of a goal to pure real arithmetic.

Integer-valued sub-terms under to_real become real unknowns (equal normal forms share one), integer
atoms become propositional unknowns.  Every model of the original constraints induces a model of the
weakened ones, so 'unsat' carries over; 'sat' says nothing.
"""
import z3
class Abs:
    def __init__(self):
        self.r = {}; self.b = {}; self.hasreal = False; self.cache = {}
    def real(self, t):                       # integer term -> real term
        t = z3.simplify(t)
        return self.rt(t)
    def rt(self, t):
        if z3.is_int_value(t): return z3.RealVal(t.as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            r = None
            for c in t.children():
                x = self.rt(c); r = x if r is None else r * x
            return r
        if k == z3.Z3_OP_UMINUS: return -self.rt(t.children()[0])
        if k == z3.Z3_OP_POWER and z3.is_int_value(t.children()[1]) and t.children()[1].as_long() == 2:
            x = self.rt(t.children()[0]); return x * x
        n = z3.simplify(t, som=True)
        lin = self.linear(n)
        if lin is not None: return lin
        # sign-normalise
        s = n.sexpr(); m = z3.simplify(-n, som=True); sm = m.sexpr()
        if s in self.r: return self.r[s]
        if sm in self.r: return -self.r[sm]
        self.r[s] = z3.Real('K!%d' % len(self.r)); return self.r[s]
    def linear(self, n):
        if z3.is_int_value(n): return z3.RealVal(n.as_long())
        if z3.is_const(n): 
            s = n.sexpr()
            if s not in self.r: self.r[s] = z3.Real('V!%d' % len(self.r))
            return self.r[s]
        k = n.decl().kind()
        if k == z3.Z3_OP_ADD:
            xs = [self.linear(c) for c in n.children()]
            if any(x is None for x in xs): return None
            return z3.Sum(xs)
        if k == z3.Z3_OP_MUL:
            cs = n.children()
            if len(cs) == 2 and z3.is_int_value(cs[0]):
                x = self.linear(cs[1])
                return None if x is None else z3.RealVal(cs[0].as_long()) * x
        return None
    def tr(self, e):
        i = e.get_id()
        if i in self.cache: return self.cache[i][1]
        r = self.tr0(e); self.cache[i] = (e, r)
        return r
    def tr0(self, e):
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_TO_REAL: return self.real(e.children()[0])
        if z3.is_bool(e):
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_int(e.children()[0]):
                s = z3.simplify(e, som=True).sexpr()
                if s == 'true': return z3.BoolVal(True)
                if s == 'false': return z3.BoolVal(False)
                if s not in self.b: self.b[s] = z3.Bool('B!%d' % len(self.b))
                return self.b[s]
        if z3.is_real(e): self.hasreal = True
        cs = e.children()
        if not cs: return e
        return e.decl()(*[self.tr(c) for c in cs]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else self.nary(k, [self.tr(c) for c in cs])
    def nary(self, k, cs):
        if k == z3.Z3_OP_AND: return z3.And(cs)
        if k == z3.Z3_OP_OR: return z3.Or(cs)
        if k == z3.Z3_OP_ADD: return z3.Sum(cs)
        r = cs[0]
        for c in cs[1:]: r = r * c
        return r
def vars_of(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(x): acc.add(x.decl().name())
        st.extend(x.children())
    return acc
def weaken(assertions, neg_goal, rounding=None):
    a = Abs()
    g = a.tr(neg_goal)
    if not vars_of(g, set(), set()): return None
    out = []
    for e in assertions:
        # integer-only facts are dropped
        rd = rounding.get(e.get_id()) if rounding else None
        if rd is not None:
            # r = x (1 + e), |e| <= u : equivalent to the rounding bound
            _, r, x, u = rd
            ev = z3.Real('e!' + r.decl().name())
            out.append(a.tr(r) == a.tr(x) * (1 + ev)); out.append(z3.And(ev <= u, ev >= -u))
            continue
        t = a.tr(e)
        if vars_of(t, set(), set()): out.append(t)
    # cone of influence of the goal over the real unknowns
    rel = vars_of(g, set(), set()); keep = [False] * len(out)
    vs = [vars_of(t, set(), set()) for t in out]
    ch = True
    while ch:
        ch = False
        for i, v in enumerate(vs):
            if not keep[i] and (v & rel):
                keep[i] = True; rel |= v; ch = True
    return [t for t, k in zip(out, keep) if k], g
def prove(assertions, neg_goal, ms, rounding=None):
    w = weaken(assertions, neg_goal, rounding)
    if w is None: return False
    hyp, g = w
    for tac in ('nlsat', 'smt'):
        s = z3.Then('simplify', 'propagate-values', 'elim-term-ite', 'solve-eqs', 'tseitin-cnf', 'qfnra-nlsat').solver() if tac == 'nlsat' else z3.Solver()
        s.set('timeout', ms)
        for h in hyp: s.add(h)
        s.add(g)
        try: r = s.check()
        except z3.Z3Exception: continue
        if r == z3.unsat: return True
    return False
