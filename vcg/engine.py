"""Symbolic execution / verification-condition generation over LLVM IR of the real code.

A harness (an extern "C" function in contracts/*.cpp) assumes the precondition of a contract, calls
the real templates of /repo and asserts the postcondition.  Every assertion, and every potential
undefined behaviour met on the way (signed overflow, division by zero, invalid memory access,
unreachable code, float->int range, inexact float arithmetic where exactness is claimed), becomes a
named proof obligation that is handed to an SMT solver under the path condition.

Loops are either unrolled completely (constant bounds) or cut at their header with inductive
invariants that are found by Houdini from candidate templates.
"""
import sys, time, os, subprocess, tempfile, re, math
from fractions import Fraction
import z3
sys.set_int_max_str_digits(0)
from . import llvmir, realabs
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Budget(Exception): pass

class IV:
    """integer value: e is a Python int or z3 Int expr congruent to the bit pattern modulo 2**w"""
    __slots__ = ('e', 'w', 'lo', 'hi', 'b', 'tz', 'src')
    def __init__(s, e, w, lo=None, hi=None, b=None, tz=0):
        s.e = e; s.w = w; s.b = b; s.tz = tz; s.src = None
        if isinstance(e, int): lo = hi = e
        s.lo = lo; s.hi = hi
    def __repr__(s): return f"IV{s.w}({s.e})[{s.lo},{s.hi}]"

class CIV(IV):
    """a concatenation of integers (low part first), e.g. a small struct passed in one register"""
    __slots__ = ('parts', 'eng', 'iv')
    def __init__(s, eng, parts):
        s.eng = eng; s.parts = parts; s.iv = None
        IV.w.__set__(s, sum(p.w for p in parts)); IV.b.__set__(s, None); IV.tz.__set__(s, 0); IV.src.__set__(s, None)
    def whole(s):
        if s.iv is None or s.iv[3] not in s.eng.scopes:
            e = lo = hi = k = 0
            for p in s.parts:
                u = s.eng.U(p); e = e + u.e * (1 << k); lo += u.lo << k; hi += u.hi << k; k += p.w
            s.iv = (e, lo, hi, s.eng.scopes[-1])
        return s.iv
    e = property(lambda s: s.whole()[0])
    lo = property(lambda s: s.whole()[1])
    hi = property(lambda s: s.whole()[2])
    def cut(s, frm, w):
        """the bits [frm, frm+w) when they fall on part boundaries"""
        out = []; k = 0
        for p in s.parts:
            if k >= frm and k + p.w <= frm + w: out.append(p)
            elif k + p.w > frm and k < frm + w: return None
            k += p.w
        if not out: return None
        return out[0] if len(out) == 1 else CIV(s.eng, out)

class FV:
    """float value as exact real: e is Fraction/int or z3 expr; isint: e is Int sorted; fmt = precision bits"""
    __slots__ = ('e', 'fmt', 'lo', 'hi', 'isint', 'neg0', 'k', 'raw')
    def __init__(s, e, fmt, lo=None, hi=None, isint=False, k=None):
        s.neg0 = False; s.raw = None
        if isinstance(e, Fraction) and e.denominator == 1: e = int(e)
        if isinstance(e, (int, Fraction)):
            lo = hi = e; isint = isinstance(e, int)
            if not isint and e.denominator & (e.denominator - 1) == 0: k = e.denominator.bit_length() - 1
        # k: e * 2**k is an integer (dyadic grid), None when unknown
        s.k = 0 if isint else k
        s.e = e; s.fmt = fmt; s.lo = lo; s.hi = hi; s.isint = isint
    def __repr__(s): return f"FV{s.fmt}({s.e})"

class PV:
    __slots__ = ('base', 'off')
    def __init__(s, base, off): s.base = base; s.off = off
    def __repr__(s): return f"PV({s.base}+{s.off})"

class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n

class Undef:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty

NULL = PV(0, 0)
EMAX = {24: 128, 53: 1024, 64: 16384}

def zi(e): return z3.IntVal(e) if isinstance(e, int) else e
def zr(e):
    if isinstance(e, int): return z3.RealVal(e)
    if isinstance(e, Fraction): return z3.RealVal(e)
    if z3.is_int(e): return z3.ToReal(e)
    return e
def isc(e): return isinstance(e, (int, Fraction))
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def bnot(b): return (not b) if isinstance(b, bool) else z3.Not(b)
def band(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return z3.And(a, b)
def bor(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return z3.Or(a, b)

class Obj:
    __slots__ = ('cells', 'size', 'kind', 'live')
    def __init__(s, size, kind): s.cells = {}; s.size = size; s.kind = kind; s.live = True
    def copy(s):
        o = Obj(s.size, s.kind); o.cells = dict(s.cells); o.live = s.live
        return o

class Frame:
    __slots__ = ('f', 'env', 'blk', 'prev', 'ip', 'ret', 'visits')
    def copy(s):
        n = Frame(); n.f = s.f; n.env = dict(s.env); n.blk = s.blk; n.prev = s.prev; n.ip = s.ip; n.ret = s.ret; n.visits = dict(s.visits)
        return n

class State:
    __slots__ = ('frames', 'mem', 'inputs', 'cuts', 'uf', 'trail')
    def fork(s):
        n = State(); n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.inputs = list(s.inputs); n.cuts = list(s.cuts)
        n.uf = s.uf; n.trail = list(s.trail)
        return n

class Cut:
    """an active loop cut"""
    __slots__ = ('header', 'depth', 'on_back', 'final', 'body')

class Result:
    def __init__(s):
        s.obl = []       # dict(name, kind, status, backend, time, model)
        s.covers = {}
        s.paths = 0
        s.loops = []
        s.queries = 0
        s.solver_time = 0.0
        s.externals = {}
        s.notes = []

class Opts:
    unroll = 70
    query_ms = 4000
    obl_ms = 20000
    feas_ms = 1500
    budget_s = 200
    mode = 'int'
    fork_select = False
    templates = None       # function(engine, ctx) -> list of (name, z3 bool fn)
    inv_loops = False
    throw_ok = True
    check_overflow = True
    exact_fp = True
    contracts = None       # name regex -> harness contract function name
    max_paths = 200000
    nlsat = True
    fp_round = True

class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod; self.o = opts or Opts()
        self.nfresh = 0
        self.res = Result()
        self.quiet = 0
        self.nobj = 1
        self.gobj = {}
        self.s = z3.Solver(); self.nscope = 0; self.scopes = [0]
        self.s.set('timeout', self.o.feas_ms)
        self.lits = []      # mirror of the assertion stack for portfolio dumps
        self.rounding = {}; self.frexps = {}; self.rtab = []  # assertion id -> (assertion, result, exact value, unit roundoff)
        self.t0 = time.time()
        self.ufs = {}
        self.fails = 0
        self.depth = 0
        self.failed_names = set()
    # ---------- solver plumbing
    def push(self): self.s.push(); self.lits.append(None); self.nscope += 1; self.scopes.append(self.nscope)
    def pop(self):
        self.s.pop(); self.scopes.pop()
        while self.lits.pop() is not None: pass
    def add(self, c):
        if c is True: return
        c = zb(c)
        self.s.add(c); self.lits.append(c)
    def pc(self): return [l for l in self.lits if l is not None]
    def check(self, *cs, ms=None):
        if time.time() - self.t0 > self.o.budget_s: raise Budget("time budget of the harness used up")
        if ms: self.s.set('timeout', ms)
        t = time.time()
        r = self.s.check(*[zb(c) for c in cs])
        self.res.solver_time += time.time() - t; self.res.queries += 1
        if ms: self.s.set('timeout', self.o.feas_ms)
        return r
    def feas(self, c):
        if isinstance(c, bool): return c
        return self.check(c) != z3.unsat
    def valid(self, c, ms=None):
        """is c implied by the path condition (False when not known)"""
        if isinstance(c, bool): return c
        return self.check(z3.Not(c), ms=ms or self.o.feas_ms) == z3.unsat
    def fresh(self, kind, pfx='t'):
        self.nfresh += 1
        n = f"{pfx}!{self.nfresh}"
        return {'i': z3.Int, 'r': z3.Real, 'b': z3.Bool}[kind](n)
    def same(self, pfx, fmt, *es):
        key = (pfx, fmt) + tuple(z3.simplify(e).get_id() if False else e.get_id() for e in es)
        hit = self.frexps.get(key)
        if hit is None: hit = self.frexps[key] = (self.fresh('r', pfx), es)
        return hit[0]
    # ---------- obligations
    def oblige(self, st, cond, name, kind):
        """check a proof obligation; afterwards assume it"""
        if cond is True:
            if kind == 'assert' and not self.quiet: self.record(name, kind, 'proved', 'simplifier', 0, None)
            return
        if self.quiet:
            if cond is False: raise PathEnd()
            self.add(cond); return
        t = time.time()
        status, backend, model = self.prove(cond)
        dt = time.time() - t
        self.record(name, kind, status, backend, dt, self.inputs_of(st, model) if model is not None else None)
        if cond is False: raise PathEnd()
        self.add(cond)
        if status == 'failed' and self.check() == z3.unsat: raise PathEnd()
    def record(self, name, kind, status, backend, dt, model):
        self.res.obl.append({'name': name, 'kind': kind, 'status': status, 'backend': backend, 'time': round(dt, 3), 'model': model})
    def has_real(self, e): return self.o.mode == 'int' and bool(realabs.vars_of(e, set(), set()))
    def prove(self, cond):
        if cond is False:
            r = self.check(ms=self.o.obl_ms)
            if r == z3.unsat: return 'proved', 'z3', None
            if r == z3.unknown: return self.portfolio(z3.BoolVal(False))
            return 'failed', 'z3', self.s.model()
        c = z3.simplify(cond, som=True)
        if z3.is_true(c): return 'proved', 'z3-simplify', None
        real = self.has_real(cond)
        r = self.check(z3.Not(cond), ms=800 if real else self.o.query_ms)
        if r == z3.unknown and real:
            t = time.time()
            ok = realabs.prove(self.pc(), z3.Not(cond), 5000, self.rounding)
            self.res.solver_time += time.time() - t; self.res.queries += 1
            if ok: return 'proved', 'z3-nra', None
            r = self.check(z3.Not(cond), ms=self.o.query_ms)
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat: return 'failed', 'z3', self.s.model()
        return self.portfolio(cond)
    def portfolio(self, cond):
        if self.has_real(cond):
            t = time.time()
            ok = realabs.prove(self.pc(), z3.Not(cond), min(self.o.obl_ms, 20000), self.rounding)
            self.res.solver_time += time.time() - t; self.res.queries += 1
            if ok: return 'proved', 'z3-nra', None
        for tac in (('simplify', 'solve-eqs', 'nlsat') if False else None, 'nla', 'som'):
            if tac is None: continue
            s = z3.Solver() if tac == 'nla' else z3.SolverFor('QF_NIA') if tac == 'som' and self.o.mode == 'int' else z3.Solver()
            s.set('timeout', self.o.obl_ms)
            for l in self.pc():
                s.add(l if tac == 'nla' else z3.simplify(l, som=True))
            s.add(z3.simplify(z3.Not(cond), som=(tac != 'nla')))
            t = time.time()
            r = s.check(); self.res.solver_time += time.time() - t; self.res.queries += 1
            if r == z3.unsat: return 'proved', 'z3-' + tac, None
            if r == z3.sat: return 'failed', 'z3-' + tac, s.model()
        s = z3.Solver()
        for l in self.pc(): s.add(l)
        s.add(z3.Not(cond))
        txt = s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write("(set-logic ALL)\n" + txt)
        try:
            for exe, args in (('cvc5', ['--tlimit=%d' % self.o.obl_ms, '--nl-ext-tplanes']), ('z3', ['-T:%d' % max(1, self.o.obl_ms // 1000)])):
                try:
                    t = time.time()
                    out = subprocess.run([exe] + args + [f.name], capture_output=True, text=True, timeout=self.o.obl_ms / 1000 + 5).stdout
                    self.res.solver_time += time.time() - t; self.res.queries += 1
                except Exception: continue
                if out.startswith('unsat'): return 'proved', exe, None
        finally:
            os.unlink(f.name)
        return 'unknown', 'portfolio', None
    def inputs_of(self, st, model):
        if model is None: return None
        r = []
        for name, kind, v in st.inputs:
            if isinstance(v, (int, Fraction, bool)): r.append([name, kind, str(v)]); continue
            x = model.eval(v, model_completion=True)
            if z3.is_bv_value(x): x = str(x.as_long())
            elif z3.is_fp(x): x = str(model.eval(z3.fpToIEEEBV(x)).as_long())
            elif z3.is_algebraic_value(x): x = str(x.approx(20).as_fraction())
            else: x = str(x)
            r.append([name, kind, x])
        return r
    # ---------- integer semantics
    def const_i(self, v, w): return IV(v, w)
    def srange(self, w): return -(1 << (w - 1)), (1 << (w - 1)) - 1
    def wrapto(self, v, lo, hi, w):
        if v.lo is not None and v.lo >= lo and v.hi <= hi: return v
        M = 1 << w
        if isc(v.e):
            x = (v.e - lo) % M + lo
            return IV(x, w)
        if self.valid(z3.And(v.e >= lo, v.e <= hi), ms=600):
            return IV(v.e, w, max(lo, v.lo) if v.lo is not None else lo, min(hi, v.hi) if v.hi is not None else hi, v.b, v.tz)
        q = self.fresh('i', 'q'); r = self.fresh('i', 'w')
        self.add(v.e == q * M + r); self.add(z3.And(r >= lo, r <= hi))
        if v.lo is not None:
            self.add(z3.And(q >= (v.lo - hi) // M, q <= (v.hi - lo) // M + 1))
        return IV(r, w, lo, hi, None, v.tz)
    def S(self, v):
        if isinstance(v, bool) or z3.is_bool(v) if not isinstance(v, IV) else False: v = self.b2i(v, 1)
        lo, hi = self.srange(v.w)
        return self.wrapto(v, lo, hi, v.w)
    def U(self, v): return self.wrapto(v, 0, (1 << v.w) - 1, v.w)
    def b2i(self, b, w):
        if isinstance(b, bool): return IV(int(b), w)
        return IV(z3.If(b, z3.IntVal(1), z3.IntVal(0)), w, 0, 1, b)
    def arith(self, st, op, a, b, w, flags):
        nsw, nuw = flags
        if nsw: a = self.S(a); b = self.S(b)
        elif nuw: a = self.U(a); b = self.U(b)
        if op == 'add': e = a.e + b.e; lo = a.lo + b.lo; hi = a.hi + b.hi; tz = min(a.tz, b.tz)
        elif op == 'sub': e = a.e - b.e; lo = a.lo - b.hi; hi = a.hi - b.lo; tz = min(a.tz, b.tz)
        else:
            if not nsw and not nuw:
                # keep the product small: prefer canonical representatives
                a = self.canon(a); b = self.canon(b)
            e = sq_abs(a.e, b.e)
            ps = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi); lo = min(ps); hi = max(ps); tz = a.tz + b.tz
            if a.e is b.e or (not isc(a.e) and not isc(b.e) and a.e.eq(b.e)): lo = max(lo, 0) if lo < 0 else lo
        r = IV(e, w, lo, hi, None, tz)
        if nsw or nuw:
            L, H = self.srange(w) if nsw else (0, (1 << w) - 1)
            if r.lo < L or r.hi > H:
                if self.o.check_overflow or nsw:
                    self.oblige(st, band(zb(zi(r.e) >= L), zb(zi(r.e) <= H)) if not isc(r.e) else L <= r.e <= H, f"no {'signed' if nsw else 'unsigned'} overflow in {op} i{w}", 'overflow')
                r.lo = max(L, r.lo); r.hi = min(H, r.hi)
        elif max(abs(r.lo), abs(r.hi)) > (1 << (2 * w + 4)): r = self.U(r)
        return r
    def canon(self, v):
        L, H = self.srange(v.w)
        if v.lo >= L and v.hi <= (1 << v.w) - 1: return v
        return self.U(v)
    def icmp(self, st, pred, a, b):
        if not isinstance(a, IV) or not isinstance(b, IV): return self.cmp_other(st, pred, a, b)
        w = a.w
        if pred in ('eq', 'ne'):
            L, H = self.srange(w)
            if a.b is not None and b.b is not None: r = zb(a.b) == zb(b.b)
            elif a.b is not None and isc(b.e) and b.e in (0, 1): r = a.b if b.e == 1 else bnot(a.b)
            elif b.b is not None and isc(a.e) and a.e in (0, 1): r = b.b if a.e == 1 else bnot(b.b)
            else:
                if isc(a.e) and isc(b.e): r = (a.e - b.e) % (1 << w) == 0
                else:
                    if isc(b.e) and not isc(a.e):
                        # bring the constant to a's representative range
                        c = b.e % (1 << w)
                        if a.lo >= 0 and a.hi < (1 << w): b = IV(c, w)
                        elif a.lo >= L and a.hi <= H: b = IV(c - (1 << w) if c > H else c, w)
                        else: a = self.U(a); b = IV(c, w)
                    elif isc(a.e): return self.icmp(st, pred, b, a)
                    elif not (a.lo >= 0 and b.lo >= 0 and a.hi < (1 << w) and b.hi < (1 << w)) and not (a.lo >= L and b.lo >= L and a.hi <= H and b.hi <= H):
                        if a.hi - b.lo < (1 << w) and b.hi - a.lo < (1 << w): pass
                        else: a = self.S(a); b = self.S(b)
                    if a.hi < b.lo or b.hi < a.lo: r = False
                    else: r = zi(a.e) == zi(b.e)
            return r if pred == 'eq' else bnot(r)
        if pred[0] == 's': a = self.S(a); b = self.S(b)
        else: a = self.U(a); b = self.U(b)
        p = pred[1:]
        if p == 'gt': a, b = b, a; p = 'lt'
        if p == 'ge': a, b = b, a; p = 'le'
        if p == 'lt':
            if a.hi < b.lo: return True
            if a.lo >= b.hi: return False
            return zi(a.e) < zi(b.e)
        if a.hi <= b.lo: return True
        if a.lo > b.hi: return False
        return zi(a.e) <= zi(b.e)
    def cmp_other(self, st, pred, a, b):
        if isinstance(a, PV) or isinstance(b, PV):
            if isinstance(a, IV): a = PV(0, a.e)
            if isinstance(b, IV): b = PV(0, b.e)
            if a.base != b.base:
                if pred == 'eq': return False
                if pred == 'ne': return True
                raise Unsupported("ordering of pointers into different objects")
            x = IV(a.off, 64, -(1 << 62), 1 << 62); y = IV(b.off, 64, -(1 << 62), 1 << 62)
            return self.icmp(st, pred.replace('u', 's') if pred[0] == 'u' else pred, x, y)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            r = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return r if pred == 'eq' else not r
        # booleans
        A = self.b2i(a, 1) if not isinstance(a, IV) else a
        B = self.b2i(b, 1) if not isinstance(b, IV) else b
        if pred in ('eq', 'ne'):
            if isinstance(a, bool) and isinstance(b, bool): r = a == b
            elif isinstance(a, bool): r = b if a else bnot(b)
            elif isinstance(b, bool): r = a if b else bnot(a)
            else: r = a == b
            return r if pred == 'eq' else bnot(r)
        if pred[0] == 's': A = IV(zi(-A.e) if not isc(A.e) else -A.e, 1, -1, 0); B = IV(zi(-B.e) if not isc(B.e) else -B.e, 1, -1, 0); A.w = B.w = 8; return self.icmp(st, pred, A, B)
        A.w = B.w = 8
        return self.icmp(st, pred, A, B)
    def divrem(self, st, op, a, b, w):
        if op[0] == 's': a = self.S(a); b = self.S(b)
        else: a = self.U(a); b = self.U(b)
        if isc(b.e):
            if b.e == 0: self.oblige(st, False, "division by zero", 'div0')
        elif b.lo <= 0 <= b.hi: self.oblige(st, zi(b.e) != 0, "division by zero", 'div0')
        if op == 'sdiv' and a.lo == -(1 << (w - 1)) and b.lo <= -1 <= b.hi:
            self.oblige(st, z3.Not(z3.And(zi(a.e) == a.lo, zi(b.e) == -1)), "signed division overflow", 'overflow')
        if isc(a.e) and isc(b.e):
            q = abs(a.e) // abs(b.e)
            if (a.e < 0) != (b.e < 0): q = -q
            return IV(q if 'div' in op else a.e - q * b.e, w)
        m = max(abs(a.lo), abs(a.hi))
        if isc(b.e) and b.e > 0 and a.lo >= 0:
            q = z3.simplify(zi(a.e) / zi(b.e)) if False else self.fresh('i', 'q'); r = self.fresh('i', 'r')
            self.add(zi(a.e) == q * b.e + r); self.add(z3.And(r >= 0, r < b.e)); self.add(z3.And(q >= 0, q <= a.hi // b.e))
            return IV(q, w, a.lo // b.e, a.hi // b.e) if 'div' in op else IV(r, w, 0, min(b.e - 1, a.hi))
        q = self.fresh('i', 'q'); r = self.fresh('i', 'r')
        A = zi(a.e); B = zi(b.e)
        self.add(A == q * B + r)
        self.add(z3.If(A >= 0, z3.And(r >= 0, r < z3.If(B >= 0, B, -B)), z3.And(r <= 0, -r < z3.If(B >= 0, B, -B))))
        self.add(z3.And(q >= -m, q <= m))
        return IV(q, w, -m, m) if 'div' in op else IV(r, w, -m, m)
    def shift(self, st, op, a, b, w, flags):
        b = self.U(b)
        if not isc(b.e):
            vals = self.enum(st, b.e, 70)
            r = None
            raise Unsupported("symbolic shift amount")
        k = b.e
        if k >= w:
            self.oblige(st, False, "shift amount in range", 'overflow')
        if op == 'shl':
            nsw, nuw = flags
            if isinstance(a, CIV) and not nsw and not nuw and 0 < k < w:
                r = a.cut(0, w - k)
                if r is not None: return CIV(self, [IV(0, k)] + (r.parts if isinstance(r, CIV) else [r]))
            r = self.arith(st, 'mul', IV(a.e, w, a.lo, a.hi, None, a.tz) if not isc(a.e) else a, IV(1 << k, w, tz=k), w, (nsw and k < w - 1, nuw))
            if not isc(r.e) and k % 8 == 0: r.src = (a, k)
            return r
        if op == 'lshr' and isinstance(a, CIV):
            r = a.cut(k, w - k)
            if r is not None: return CIV(self, (r.parts if isinstance(r, CIV) else [r]) + [IV(0, k)])
        if op == 'lshr': a = self.U(a)
        else: a = self.S(a)
        if isc(a.e): return IV(a.e >> k, w)
        if k == 0: return a
        q = self.fresh('i', 'sh'); r = self.fresh('i', 'rm')
        self.add(a.e == q * (1 << k) + r); self.add(z3.And(r >= 0, r < (1 << k))); self.add(z3.And(q >= a.lo >> k, q <= a.hi >> k))
        return IV(q, w, a.lo >> k, a.hi >> k)
    def bitop(self, st, op, a, b, w):
        if op in ('or', 'xor', 'and') and (isinstance(a, CIV) or isinstance(b, CIV)):
            if not isinstance(a, CIV): a, b = b, a
            bp = b.parts if isinstance(b, CIV) else None
            if bp is None and isc(b.e):
                bp = []; x = b.e & ((1 << w) - 1)
                for p in a.parts: bp.append(IV(x & ((1 << p.w) - 1), p.w)); x >>= p.w
            if bp is not None and [p.w for p in bp] == [p.w for p in a.parts]:
                def zero(p): return isc(p.e) and p.e == 0
                def ones(p): return isc(p.e) and p.e & ((1 << p.w) - 1) == (1 << p.w) - 1
                out = []
                for p, q in zip(a.parts, bp):
                    if isc(q.e) and isc(p.e): out.append(self.bitop(st, op, p, q, p.w))
                    elif op == 'and': out.append(IV(0, p.w) if zero(p) or zero(q) else q if ones(p) else p if ones(q) else None)
                    else: out.append(q if zero(p) else p if zero(q) else None)
                if None not in out: return CIV(self, out)
        if isc(a.e) and isc(b.e):
            M = (1 << w) - 1; x = a.e & M; y = b.e & M
            return IV({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], w)
        if isc(a.e): a, b = b, a
        if a.b is not None and b.b is not None:
            x = band(a.b, b.b) if op == 'and' else bor(a.b, b.b) if op == 'or' else z3.Xor(zb(a.b), zb(b.b))
            return self.b2i(x, w)
        if isc(b.e):
            M = (1 << w) - 1; c = b.e & M
            if op == 'xor':
                if c == 0: return a
                if c == M: return IV(-1 - a.e, w, -1 - a.hi, -1 - a.lo)
                if a.b is not None and c == 1: return self.b2i(bnot(a.b), w)
                if c == 1 << (w - 1):
                    return IV(a.e + (1 << (w - 1)), w, a.lo + (1 << (w - 1)), a.hi + (1 << (w - 1)))
            if op == 'and':
                if c == 0: return IV(0, w)
                if c == M: return a
                if c & (c + 1) == 0:
                    k = c.bit_length()
                    if a.lo >= 0 and a.hi <= c: return a
                    if a.b is not None: return a
                    q = self.fresh('i', 'q'); r = self.fresh('i', 'mk')
                    self.add(a.e == q * (1 << k) + r); self.add(z3.And(r >= 0, r <= c)); self.add(z3.And(q >= a.lo >> k, q <= a.hi >> k))
                    return IV(r, w, 0, c)
                n = (~c) & M
                if n & (n + 1) == 0:      # clear low bits
                    lowp = self.bitop(st, 'and', a, IV(n, w), w)
                    return self.arith(st, 'sub', a, lowp, w, (False, False))
            if op == 'or' and c == 0: return a
        if op in ('or', 'xor'):
            for x, y in ((a, b), (b, a)):
                y2 = y
                if x.tz and y.lo >= 0 and y.hi < (1 << x.tz):
                    if x.src is not None and x.src[1] <= x.tz and y.hi < (1 << x.src[1]):
                        k = x.src[1]
                        return CIV(self, [IV(y.e, k, y.lo, y.hi), self.trunc(x.src[0], w - k)])
                    return IV(x.e + y.e, w, x.lo + y.lo, x.hi + y.hi)
        # generic: through bit-vectors of small width
        if w <= 64:
            A = z3.Int2BV(zi(self.U(a).e), w); B = z3.Int2BV(zi(self.U(b).e), w)
            r = {'and': A & B, 'or': A | B, 'xor': A ^ B}[op]
            return IV(z3.BV2Int(r), w, 0, (1 << w) - 1)
        raise Unsupported("bit operation " + op)
    # ---------- float semantics (exact reals + rounding)
    def f_const(self, v, fmt):
        if isinstance(v, float):
            if v == 0: r = FV(0, fmt); r.neg0 = True; return r
            return ('special', v, fmt)
        return FV(v, fmt)
    def fround(self, st, e, fmt, lo, hi, isint, what, k=None):
        """round the exact value e to fmt"""
        if isc(e):
            x = Fraction(e)
            r = round_frac(x, fmt)
            return FV(r, fmt)
        B = 1 << fmt
        if isint:
            if lo is not None and lo >= -B and hi <= B: return FV(e, fmt, lo, hi, True)
            if self.valid(z3.And(e >= -B, e <= B), ms=800): return FV(e, fmt, max(lo, -B) if lo is not None else -B, min(hi, B) if hi is not None else B, True)
        elif k is not None and 0 < k < 200:
            Bk = Fraction(B, 1 << k)
            if lo is not None and lo >= -Bk and hi <= Bk: return FV(e, fmt, lo, hi, False, k)
            bk = z3.RealVal(Bk)
            if self.valid(z3.And(e >= -bk, e <= bk), ms=800): return FV(e, fmt, -Bk, Bk, False, k)
        if not self.o.fp_round:
            self.oblige(st, z3.And(zi(e) >= -B, zi(e) <= B) if isint else False, "float %s exact" % what, 'fpexact')
            return FV(e, fmt, -B, B, True)
        x = zr(e); r = self.same('fl', fmt, x)       # rounding is a function: same exact value, same result
        u = z3.RealVal(Fraction(1, 1 << fmt))
        # round-to-nearest without overflow/underflow: |r - x| <= u*|x|
        ax = z3.If(x >= 0, z3.And(r - x <= u * x, x - r <= u * x), z3.And(r - x <= -u * x, x - r <= -u * x))
        self.rounding[ax.get_id()] = (ax, r, x, u)
        self.add(ax)
        if isint: self.add(z3.Implies(z3.And(x <= B, x >= -B), r == x))
        lim = Fraction(2) ** EMAX[fmt] if fmt in EMAX else Fraction(2) ** 1024
        if lo is None or lo < -lim or hi > lim:
            L = z3.RealVal(lim * (1 - Fraction(1, 1 << fmt)))
            self.oblige(st, z3.And(x < L, x > -L), "float %s does not overflow" % what, 'fpoverflow')
        if not isint:
            self.res.notes.append('underflow not modelled') if 'underflow not modelled' not in self.res.notes else None
        l2 = h2 = None
        if lo is not None:
            l2 = lo * (1 + Fraction(1, 1 << (fmt - 1))) if lo < 0 else lo * (1 - Fraction(1, 1 << (fmt - 1)))
            h2 = hi * (1 + Fraction(1, 1 << (fmt - 1))) if hi > 0 else hi * (1 - Fraction(1, 1 << (fmt - 1)))
        return FV(r, fmt, l2, h2, False, k)
    def farith(self, st, op, a, b, fmt):
        if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported("non-finite float constant in arithmetic")
        if op == 'fdiv':
            if isc(b.e):
                if b.e == 0: self.oblige(st, False, "float division by zero", 'div0')
            elif b.lo is None or (b.lo <= 0 <= b.hi): self.oblige(st, zi(b.e) != 0 if b.isint else b.e != 0, "float division by zero", 'div0')
            if isc(a.e) and isc(b.e): return FV(round_frac(Fraction(a.e) / Fraction(b.e), fmt), fmt)
            if isc(b.e) and b.e != 0:
                # exact when dividing by a power of two
                fr = Fraction(b.e)
                if (abs(fr.numerator) & (abs(fr.numerator) - 1)) == 0 and (fr.denominator & (fr.denominator - 1)) == 0:
                    e = zr(a.e) / zr(b.e); lo = hi = None
                    if a.lo is not None: xs = (Fraction(a.lo) / fr, Fraction(a.hi) / fr); lo = min(xs); hi = max(xs)
                    kk = None if a.k is None else max(0, a.k + fr.numerator.bit_length() - 1) if fr.denominator == 1 else None
                    return FV(e, fmt, lo, hi, False, kk)
                return self.fround(st, zr(a.e) / zr(b.e), fmt, None, None, False, op)
            q = self.same('fq', 0, zr(a.e), zr(b.e)); self.add(q * zr(b.e) == zr(a.e))
            lo = hi = None
            if a.lo is not None:
                m = max(abs(Fraction(a.lo)), abs(Fraction(a.hi)))
                for t in (1, Fraction(1, 2), Fraction(1, 1 << 200)):
                    tr = z3.RealVal(t)
                    if (b.lo is not None and (b.lo >= t or b.hi <= -t)) or self.valid(z3.Or(zr(b.e) >= tr, zr(b.e) <= -tr), ms=400):
                        hi = m / t; lo = -hi; break
            return self.fround(st, q, fmt, lo, hi, False, op)
        ii = a.isint and b.isint
        ae, be = (a.e, b.e) if ii or (isc(a.e) and isc(b.e)) else (zr(a.e), zr(b.e))
        lo = hi = None
        bd = None not in (a.lo, b.lo)
        if op == 'fadd': e = ae + be; lo, hi = (a.lo + b.lo, a.hi + b.hi) if bd else (None, None)
        elif op == 'fsub': e = ae - be; lo, hi = (a.lo - b.hi, a.hi - b.lo) if bd else (None, None)
        elif op == 'fmul':
            e = sq_abs(ae, be)
            if bd: ps = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi); lo = min(ps); hi = max(ps)
            if ii and bd and not isc(ae) and not isc(be) and ae.eq(be):
                lo = max(lo, 0) if lo is not None else 0
                if lo == 0 and self.valid(ae != 0, ms=300): lo = 1
            if not ii:
                for x, y in ((a, b), (b, a)):
                    if isc(x.e) and x.e != 0:
                        fr = abs(Fraction(x.e))
                        if (fr.numerator & (fr.numerator - 1)) == 0 and (fr.denominator & (fr.denominator - 1)) == 0:
                            return FV(e, fmt, lo, hi, False, None if y.k is None or x.k is None else y.k + x.k)
                    if isc(x.e) and x.e == 0: return FV(0, fmt)
        else: raise Unsupported(op)
        if isc(e): return FV(round_frac(Fraction(e), fmt), fmt)
        k = None if a.k is None or b.k is None else (a.k + b.k if op == 'fmul' else max(a.k, b.k))
        return self.fround(st, e, fmt, lo, hi, ii, op, k)
    def fcmp(self, st, pred, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if pred in ('uno',): return any(isinstance(x, tuple) and x[1] != x[1] for x in (a, b))
            def fl(x): return x[1] if isinstance(x, tuple) else 0.0
            A, Bv = fl(a), fl(b)
            p = pred[1:]
            return {'eq': A == Bv, 'ne': A != Bv, 'lt': A < Bv, 'le': A <= Bv, 'gt': A > Bv, 'ge': A >= Bv}.get(p, pred == 'ord')
        if pred == 'ord': return True
        if pred == 'uno': return False
        p = pred[1:]
        ii = a.isint and b.isint
        if isc(a.e) and isc(b.e):
            return {'eq': a.e == b.e, 'ne': a.e != b.e, 'lt': a.e < b.e, 'le': a.e <= b.e, 'gt': a.e > b.e, 'ge': a.e >= b.e}[p]
        A, B = (zi(a.e), zi(b.e)) if ii else (zr(a.e), zr(b.e))
        if a.lo is not None and b.lo is not None:
            if p in ('lt', 'le', 'ne') and a.hi < b.lo: return True
            if p in ('gt', 'ge', 'ne') and a.lo > b.hi: return True
            if p in ('gt', 'ge', 'eq') and a.hi < b.lo: return False
            if p in ('lt', 'le', 'eq') and a.lo > b.hi: return False
        return {'eq': A == B, 'ne': A != B, 'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B}[p]
    def i2f(self, st, v, fmt, signed):
        v = self.S(v) if signed else self.U(v)
        return self.fround(st, v.e, fmt, v.lo, v.hi, True, 'int to float')
    def f2i(self, st, f, w, signed):
        if isinstance(f, tuple): self.oblige(st, False, "float to int of a finite value", 'fpcast')
        lo, hi = self.srange(w) if signed else (0, (1 << w) - 1)
        if isc(f.e):
            q = int(f.e) if f.e >= 0 else -int(-f.e)
            self.oblige(st, lo <= q <= hi, "float to int in range", 'fpcast')
            return IV(q, w)
        if f.isint:
            if f.lo is None or f.lo < lo or f.hi > hi:
                self.oblige(st, z3.And(f.e >= lo, f.e <= hi), "float to int in range", 'fpcast')
            return IV(f.e, w, lo if f.lo is None else max(lo, f.lo), hi if f.hi is None else min(hi, f.hi))
        self.oblige(st, z3.And(f.e > lo - 1, f.e < hi + 1), "float to int in range", 'fpcast')
        q = self.fresh('i', 'f2i')
        qr = z3.ToReal(q)
        self.add(z3.If(f.e >= 0, z3.And(qr <= f.e, f.e < qr + 1), z3.And(qr >= f.e, f.e > qr - 1)))
        self.add(z3.And(q >= lo, q <= hi))
        return IV(q, w, lo, hi)
    def fsqrt(self, st, a, fmt):
        if isc(a.e):
            if a.e < 0: self.oblige(st, False, "sqrt of a non-negative value", 'fpdomain')
            n = math.isqrt(int(a.e)) if isinstance(a.e, int) else None
            if n is not None and n * n == a.e: return FV(n, fmt)
        if a.lo is None or a.lo < 0:
            self.oblige(st, zr(a.e) >= 0, "sqrt of a non-negative value", 'fpdomain')
        if a.isint and a.lo is not None and a.lo < 1 and self.valid(a.e >= 1, ms=800): a = FV(a.e, a.fmt, 1, a.hi, True)
        if not a.isint and not isc(a.e) and a.lo is not None and a.lo <= 0 and self.valid(a.e >= z3.RealVal(Fraction(1, 2)), ms=800): a = FV(a.e, a.fmt, Fraction(1, 2), a.hi)
        s = self.same('sq', 0, zr(a.e))
        self.add(s >= 0); self.add(s * s == zr(a.e))
        hi = None
        if a.hi is not None: hi = Fraction(math.isqrt(int(a.hi)) + 1)
        lo = Fraction(0) if a.lo is None or a.lo <= 0 else Fraction(1, 2) if a.lo < 1 else Fraction(math.isqrt(int(a.lo)))
        return self.fround(st, s, fmt, lo, hi if hi is not None else Fraction(2) ** 8000, False, 'sqrt')
    # ---------- memory
    def new_obj(self, st, size, kind):
        i = self.nobj; self.nobj += 1
        st.mem[i] = Obj(size, kind)
        return PV(i, 0)
    def obj(self, st, base, write=False):
        o = st.mem.get(base)
        if o is None: raise Unsupported("access through an unknown pointer")
        if write:
            o = o.copy(); st.mem[base] = o
        return o
    def concretize(self, st, e, what):
        """fork over the feasible concrete values of e; returns through ForkOn"""
        if isinstance(e, int): return e
        e2 = z3.simplify(e)
        if z3.is_int_value(e2): return e2.as_long()
        r = self.check(ms=self.o.query_ms)
        if r == z3.unsat: raise PathEnd()
        if r != z3.sat: raise Unsupported("cannot resolve symbolic " + what)
        v = self.s.model().eval(e, model_completion=True).as_long()
        if self.check(e != v) == z3.unsat: return v
        raise ForkOn(e == v)
    def deref(self, st, p, size, write):
        if isinstance(p, IV): p = PV(0, p.e)
        if not isinstance(p, PV): raise Unsupported("dereference of a non-pointer")
        if p.base == 0:
            self.oblige(st, False, "no null dereference", 'memory')
        off = self.concretize(st, p.off, "address")
        o = st.mem.get(p.base)
        if o is None: raise Unsupported("unknown object")
        if not o.live: self.oblige(st, False, "no use after free", 'memory')
        if o.size is not None and (off < 0 or off + size > o.size):
            self.oblige(st, False, "access inside its object", 'memory')
        return p.base, off
    def load(self, st, p, ty):
        if ty.k == 's':
            return [self.load(st, self.padd(p, o), t) for o, t in ty.el]
        if ty.k == 'a':
            return [self.load(st, self.padd(p, i * ty.el.size), ty.el) for i in range(ty.n)]
        size = (ty.w + 7) // 8 if ty.k == 'i' else ty.size
        if ty.k == 'f' and ty.w == 64: size = 16
        if isinstance(p, PV) and not isinstance(p.off, int) and p.base:
            v = self.load_sym(st, p, size, ty)
            if v is not None: return v
        base, off = self.deref(st, p, size, False)
        o = st.mem[base]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(st, c[1], ty)
        v = self.load_bytes(st, o, off, size, ty)
        return v
    def load_sym(self, st, p, size, ty):
        """symbolic index into a small array of numbers: if-then-else over its cells"""
        o = st.mem.get(p.base)
        if o is None or not o.live or ty.k not in 'if': return None
        e = z3.simplify(p.off)
        if z3.is_int_value(e): return None
        cs = [(c, v) for c, (n, v) in sorted(o.cells.items()) if n == size]
        if not 2 <= len(cs) <= 16: return None
        vs = []
        for c, v in cs:
            if isinstance(v, Undef) or not isinstance(v, (IV, FV)) : continue
            vs.append((c, self.coerce(st, v, ty)))
        if len(vs) < 2: return None
        if self.check(z3.And([e != c for c, _ in vs])) != z3.unsat: return None
        r = vs[-1][1]
        for c, v in reversed(vs[:-1]): r = self.ite(st, e == c, v, r)
        return r
    def coerce(self, st, v, ty):
        if isinstance(v, Undef): return self.havoc(ty, 'undef')
        if ty.k == 'i':
            if isinstance(v, IV):
                if v.w != ty.w:
                    if v.w < ty.w: return self.ext(v, ty.w, False)
                    return self.trunc(v, ty.w)
                return v
            if isinstance(v, PV): return IV(v.off, 64) if v.base == 0 and isc(v.off) else v
            if isinstance(v, FV): return self.f_bits(st, v, ty.w)
            if ty.w == 1: return v
            return self.b2i(v, ty.w)
        if ty.k == 'f':
            if isinstance(v, FV) or isinstance(v, tuple): return v
            if isinstance(v, IV) and isc(v.e) and v.e == 0: return FV(0, ty.w)
            return self.bits_f(st, v, ty.w)
        if ty.k == 'p':
            if isinstance(v, (PV, FnPtr)): return v
            if isinstance(v, IV) and isc(v.e): return PV(0, v.e)
        raise Unsupported(f"reinterpreting {type(v).__name__} as {ty}")
    def f_bits(self, st, v, w):
        """the bits of a float: known when it was built from bits or is a constant"""
        if v.raw is not None and v.raw.w == w: return v.raw
        if isc(v.e) and w == 64:
            import struct
            f = -0.0 if v.e == 0 and v.neg0 else float(v.e)
            return IV(struct.unpack('<q', struct.pack('<d', f))[0], 64)
        raise Unsupported("float bits in int mode")
    def bits_f(self, st, v, fmt):
        """a float from its bits: the value is left arbitrary (only the bits can be read back)"""
        if not isinstance(v, IV) or fmt != 53: raise Unsupported("float from bits in int mode")
        if isc(v.e):
            import struct
            f = struct.unpack('<d', struct.pack('<Q', int(v.e) & ((1 << 64) - 1)))[0]
            if f != f or f in (math.inf, -math.inf): return ('special', f, 53)
            r = FV(Fraction(f), 53); r.neg0 = f == 0 and math.copysign(1, f) < 0; return r
        r = FV(self.fresh('r', 'bits'), 53); r.raw = v
        return r
    def x_frexp(self, st, I, a, n):
        """libm contract: x = m * 2**e with 1/2 <= |m| < 1, or m = e = 0"""
        x, p = a[0], a[1]
        if isinstance(x, tuple): raise Unsupported("frexp of a non-finite value")
        if isc(x.e):
            m, e = math.frexp(float(x.e)); self.store(st, p, IV(e, 32), ity(32)); return FV(Fraction(m), 53)
        key = x.e.get_id() if not x.isint else ('i', x.e.get_id())
        hit = self.frexps.get(key)
        if hit is None:
            m = self.fresh('r', 'fm'); e = self.fresh('i', 'fe')
            hit = self.frexps[key] = (m, e, x.e)
        m, e = hit[0], hit[1]; xr = zr(x.e); h = z3.RealVal(Fraction(1, 2))
        self.add(z3.If(xr == 0, z3.And(m == 0, e == 0), z3.If(xr > 0, z3.And(m >= h, m < 1), z3.And(m <= -h, m > -1))))
        self.add(z3.And(e >= -1100, e <= 1100))
        for j in range(-2, 3):
            b = z3.RealVal(Fraction(2) ** j); ax = z3.Or(z3.And(xr >= b / 2, xr < b), z3.And(xr <= -b / 2, xr > -b))
            self.add(z3.Implies(ax, z3.And(e == j, m * b == xr)))
        self.store(st, p, IV(e, 32, -1100, 1100), ity(32))
        return FV(m, 53, -1, 1, False)
    def x_ldexp(self, st, I, a, n):
        """x * 2**k (no overflow or underflow: obligation)"""
        x, k = a[0], self.S(a[1])
        if isinstance(x, tuple): raise Unsupported("ldexp of a non-finite value")
        if not isc(k.e):
            if k.lo is None or k.hi - k.lo > 200:
                lo, hi = self.tight(k)
            else: lo, hi = k.lo, k.hi
            if hi - lo > 200: raise Unsupported("ldexp with an unbounded exponent")
            for v in range(lo, hi):
                if self.decide(k.e == v): break
            else: v = hi
        else: v = int(k.e)
        f = Fraction(2) ** v
        if isc(x.e): return FV(Fraction(x.e) * f, 53)
        e = zr(x.e) * z3.RealVal(f); kk = None if x.k is None else max(0, x.k - v)
        return FV(e, 53, None if x.lo is None else x.lo * f, None if x.hi is None else x.hi * f, False, kk)
    def tight(self, k):
        """solver-derived bounds of an integer term within [-200, 200]"""
        lo, hi = -200, 200
        if not self.valid(z3.And(k.e >= lo, k.e <= hi)): raise Unsupported("ldexp with an unbounded exponent")
        a, b = lo, hi
        while a < b:
            m = (a + b + 1) // 2
            if self.valid(k.e >= m): a = m
            else: b = m - 1
        lo = a; a, b = lo, hi
        while a < b:
            m = (a + b) // 2
            if self.valid(k.e <= m): b = m
            else: a = m + 1
        return lo, b
    def near(self, r, x, bits, scale=1):
        u = z3.RealVal(Fraction(1, 1 << bits))
        return z3.If(x >= 0, z3.And(r - x <= u * x, x - r <= u * x), z3.And(r - x <= -u * x, x - r <= -u * x))
    def x_vp_mul_near(self, st, I, a, n): return self.near(zr(a[0].e), sq_abs(zr(a[1].e), zr(a[2].e)), a[3].e)
    def x_vp_div_near(self, st, I, a, n): return self.near(sq_abs(zr(a[0].e), zr(a[2].e)), zr(a[1].e), a[3].e)
    def x_vp_sq_near(self, st, I, a, n): return self.near(sq_abs(zr(a[0].e), zr(a[0].e)), zr(a[1].e) * z3.RealVal(Fraction(2) ** int(self.cint(st, a[2]))), a[3].e)
    def x_vp_lin_near(self, st, I, a, n):
        return self.near(zr(a[0].e), zr(a[1].e) * z3.RealVal(Fraction(2) ** int(self.cint(st, a[2]))) + zr(a[3].e), a[4].e)
    def x_vp_d_near(self, st, I, a, n):
        """|d * 2**k - num| <= |num| / 2**bits"""
        N = zr(self.zarg(st, a[2]).e)
        return self.near(zr(a[0].e) * z3.RealVal(Fraction(2) ** int(self.cint(st, a[1]))), N, a[3].e)
    # ghost reals of the specifications (handles into rtab)
    def rnew(self, e): self.rtab.append(e); return self.const_i(len(self.rtab) - 1, 32)
    def rget(self, v): return self.rtab[v.e]
    def x_vp_r_any(self, st, I, a, n):
        x = self.fresh('r', 'g'); return self.rnew(x)
    def x_vp_r_d(self, st, I, a, n):
        if isinstance(a[0], tuple): raise Unsupported("ghost of a non-finite value")
        return self.rnew(zr(a[0].e))
    def x_vp_r_z(self, st, I, a, n): return self.rnew(zr(self.zarg(st, a[0]).e))
    def x_vp_r_uf(self, st, I, a, n):
        nm = self.cstr(st, a[0]); xs = [zi(self.zarg(st, x).e) for x in a[1:]]
        return self.rnew(z3.Function(nm + '/R', *([z3.IntSort()] * len(xs)), z3.RealSort())(*xs))
    x_vp_r_uf2 = x_vp_r_uf4 = x_vp_r_uf6 = x_vp_r_uf
    def x_vp_r_p2(self, st, I, a, n): return self.rnew(z3.RealVal(Fraction(2) ** int(self.S(a[0]).e)))
    def x_vp_r_add(self, st, I, a, n): return self.rnew(self.rget(a[0]) + self.rget(a[1]))
    def x_vp_r_sub(self, st, I, a, n): return self.rnew(self.rget(a[0]) - self.rget(a[1]))
    def x_vp_r_mul(self, st, I, a, n): return self.rnew(sq_abs(self.rget(a[0]), self.rget(a[1])))
    def x_vp_r_sqrt(self, st, I, a, n):
        x = self.rget(a[0]); s = self.same('sq', 0, x); self.add(s >= 0); self.add(s * s == x); return self.rnew(s)
    def x_vp_r_le(self, st, I, a, n): return self.rget(a[0]) <= self.rget(a[1])
    def x_vp_r_lt(self, st, I, a, n): return self.rget(a[0]) < self.rget(a[1])
    def x_vp_r_eq(self, st, I, a, n): return self.rget(a[0]) == self.rget(a[1])
    def x_vp_r_todbl(self, st, I, a, n):
        """a double holding exactly this real (only in contracts of callees)"""
        return FV(self.rget(a[0]), 53)
    def x_vp_r_todbl_in(self, st, I, a, n):
        e = self.rget(a[0]); lo, hi = Fraction(a[1].e), Fraction(a[2].e)
        self.add(z3.And(e >= z3.RealVal(lo), e <= z3.RealVal(hi)))
        return FV(e, 53, lo, hi)
    def cint(self, st, v):
        v = self.S(v)
        if isc(v.e): return v.e
        lo, hi = self.tight(v)
        for k in range(lo, hi):
            if self.decide(v.e == k): return k
        return hi
    def load_bytes(self, st, o, off, size, ty):
        # collect overlapping cells
        parts = []
        for c, (n, v) in o.cells.items():
            if c < off + size and c + n > off: parts.append((c, n, v))
        if not parts: 
            if o.kind == 'zero': return self.coerce(st, self.const_i(0, size * 8), ty)
            return self.havoc(ty, 'uninit')
        parts.sort(key=lambda t: t[0])
        if ty.k == 'i' and len(parts) > 1 and all(isinstance(v, IV) and v.w == 8 * n and c >= off and c + n <= off + size for c, n, v in parts) and sum(n for _, n, _ in parts) == size and ty.w == 8 * size:
            return CIV(self, [v for _, _, v in parts])
        acc = None; pos = off
        for c, n, v in parts:
            if isinstance(v, Undef): v = self.havoc_int(n * 8, 'uninit')
            if isinstance(v, bool) or (not isinstance(v, (IV, FV, PV, FnPtr, tuple)) and z3.is_bool(v)): v = self.b2i(v, 8 * n)
            if isinstance(v, FV) and len(parts) == 1: raise Unsupported("partial load of a float")
            v = self.coerce_bits(st, v, n * 8)
            if c > pos: 
                h = self.const_i(0, (c - pos) * 8) if o.kind == 'zero' else self.havoc_int((c - pos) * 8, 'uninit')
                acc = self.cat(acc, h, pos - off, size); pos = c
            lo = max(c, off); hi = min(c + n, off + size)
            if lo > c: v = self.trunc(self.shift(st, 'lshr', v, self.const_i((lo - c) * 8, self.width(v)), self.width(v), (False, False)), (c + n - lo) * 8)
            if hi < c + n: v = self.trunc(v, (hi - lo) * 8)
            acc = self.cat(acc, v, lo - off, size); pos = hi
        if pos < off + size:
            h = self.const_i(0, (off + size - pos) * 8) if o.kind == 'zero' else self.havoc_int((off + size - pos) * 8, 'uninit')
            acc = self.cat(acc, h, pos - off, size)
        return self.coerce(st, acc, ty)
    def width(self, v): return v.w
    def coerce_bits(self, st, v, w):
        if isinstance(v, IV): return v if v.w == w else self.ext(v, w, False)
        if isinstance(v, FV): return self.f_bits(st, v, w)
        raise Unsupported("byte access to a pointer")
    def cat(self, acc, v, pos, size):
        v = self.ext(self.U(v), size * 8, False)
        if pos: v = IV(v.e * (1 << (8 * pos)), size * 8, v.lo << (8 * pos), v.hi << (8 * pos))
        if acc is None: return v
        return IV(acc.e + v.e, size * 8, acc.lo + v.lo, acc.hi + v.hi)
    def store(self, st, p, v, ty):
        if ty.k == 's':
            if isinstance(v, Undef): return
            for (o, t), x in zip(ty.el, v): self.store(st, self.padd(p, o), x, t)
            return
        if ty.k == 'a':
            if isinstance(v, Undef): return
            for i, x in enumerate(v): self.store(st, self.padd(p, i * ty.el.size), x, ty.el)
            return
        size = (ty.w + 7) // 8 if ty.k == 'i' else ty.size
        if ty.k == 'f' and ty.w == 64: size = 16
        base, off = self.deref(st, p, size, True)
        self.put(st, base, off, size, v)
    def put(self, st, base, off, size, v):
        if isinstance(v, CIV) and v.w == 8 * size and all(p.w % 8 == 0 for p in v.parts):
            for p in v.parts: self.put(st, base, off, p.w // 8, p); off += p.w // 8
            return
        o = self.obj(st, base, True)
        if off in o.cells and o.cells[off][0] == size:
            o.cells[off] = (size, v); return
        for c in [c for c, (n, _) in o.cells.items() if c < off + size and c + n > off]:
            n, old = o.cells.pop(c)
            if c < off:
                x = old if isinstance(old, Undef) else self.trunc(self.coerce_bits(st, old, n * 8), (off - c) * 8)
                o.cells[c] = (off - c, x)
            if c + n > off + size:
                if isinstance(old, Undef): x = old
                else:
                    ob = self.coerce_bits(st, old, n * 8)
                    x = self.trunc(self.shift(st, 'lshr', ob, self.const_i((off + size - c) * 8, n * 8), n * 8, (False, False)), (c + n - off - size) * 8)
                o.cells[off + size] = (c + n - off - size, x)
        o.cells[off] = (size, v)
    def padd(self, p, k):
        if isinstance(p, IV): p = PV(0, p.e)
        if isinstance(k, int) and k == 0: return p
        return PV(p.base, p.off + k)
    # ---------- values
    def havoc_int(self, w, pfx):
        x = self.fresh('i', pfx); lo, hi = self.srange(w)
        self.add(z3.And(x >= lo, x <= hi))
        return IV(x, w, lo, hi)
    def havoc(self, ty, pfx='h', isint=False):
        if ty.k == 'i':
            if ty.w == 1: return self.fresh('b', pfx)
            return self.havoc_int(ty.w, pfx)
        if ty.k == 'f':
            return FV(self.fresh('i' if isint else 'r', pfx), ty.w, None, None, isint)
        if ty.k == 's': return [self.havoc(t, pfx) for _, t in ty.el]
        if ty.k == 'a': return [self.havoc(ty.el, pfx) for _ in range(ty.n)]
        raise Unsupported("arbitrary pointer value")
    def zero(self, ty):
        if ty.k == 'i': return False if ty.w == 1 else self.const_i(0, ty.w)
        if ty.k == 'f': return self.f_const(Fraction(0), ty.w)
        if ty.k == 'p': return NULL
        if ty.k == 's': return [self.zero(t) for _, t in ty.el]
        if ty.k == 'a': return [self.zero(ty.el) for _ in range(ty.n)]
        raise Unsupported("zero of " + ty.k)
    def ext(self, v, w, signed):
        if not isinstance(v, IV): 
            if isinstance(v, PV): return v
            if signed: 
                return IV(-int(v), w) if isinstance(v, bool) else IV(z3.If(v, z3.IntVal(-1), z3.IntVal(0)), w, -1, 0)
            return self.b2i(v, w)
        if v.b is not None: return IV(v.e, w, v.lo, v.hi, v.b)
        if not signed and w <= 64 and w % 8 == 0 and v.w % 8 == 0 and v.w < w and (isinstance(v, CIV) or v.lo < 0 or v.hi >> v.w):
            return CIV(self, (v.parts if isinstance(v, CIV) else [v]) + [IV(0, w - v.w)])
        x = self.S(v) if signed else self.U(v)
        return IV(x.e, w, x.lo, x.hi, x.b, x.tz)
    def trunc(self, v, w):
        if not isinstance(v, IV): return v
        if isinstance(v, CIV):
            r = v.cut(0, w)
            if r is not None: return r
        if w == 1:
            if v.b is not None: return v.b
            if isc(v.e): return bool(v.e & 1)
            if v.lo >= 0 and v.hi <= 1: return v.e == 1
            q = self.fresh('i', 'q'); r = self.fresh('i', 'r')
            self.add(v.e == 2 * q + r); self.add(z3.And(r >= 0, r <= 1))
            return r == 1
        return IV(v.e, w, v.lo, v.hi, v.b, v.tz)
    def opv(self, st, o, env):
        k = o[0]
        if k == 'v': 
            v = env[o[1]]
            return v
        if k == 'c':
            if o[2].w == 1: return bool(o[1] & 1)
            return self.const_i(o[1], o[2].w)
        if k == 'f': return self.f_const(o[1], o[2].w)
        if k == 'null': return NULL
        if k == 'undef':
            if o[1].k in 'sa': return [self.opv(st, ('undef', t), env) for t in ([t for _, t in o[1].el] if o[1].k == 's' else [o[1].el] * o[1].n)]
            if o[1].k == 'p': return NULL
            return Undef(o[1])
        if k == 'zero': return self.zero(o[1])
        if k == 'g': return self.global_ptr(st, o[1])
        if k == 'fn': return FnPtr(o[1])
        if k == 'agg': return [self.opv(st, x, env) for x in o[1]]
        if k == 'ce':
            if o[1] == 'gep':
                ops = [self.opv(st, x, env) for x in o[2]]
                return self.gep(st, ops, o[3])
            if o[1] in ('inttoptr', 'ptrtoint'): return self.opv(st, o[2][0], env)
        raise Unsupported("operand %r" % (o,))
    def val(self, st, o, env):
        v = self.opv(st, o, env)
        if isinstance(v, Undef): v = self.havoc(v.ty, 'undef')
        return v
    def global_ptr(self, st, name):
        b = self.gobj.get(name)
        if b is None:
            b = self.nobj; self.nobj += 1; self.gobj[name] = b
        if b not in st.mem:
            ty, ini, const = self.m.global_init(name)
            st.mem[b] = Obj(ty.size, 'zero')
            if ini is not None and ini[0] != 'zero':
                if ini[0] == 'unk': raise Unsupported("global initialiser " + name)
                try: self.store(st, PV(b, 0), self.opv(st, ini, {}), ty)
                except Unsupported: pass
        return PV(b, 0)
    def cstr(self, st, p):
        o = st.mem[p.base]; s = ''; i = p.off
        while True:
            c = o.cells.get(i)
            if c is None: return s
            v = c[1]; x = self.as_int(v)
            if x == 0: return s
            s += chr(x & 255); i += 1
    def as_int(self, v): return v.e
    def gep(self, st, ops, ty):
        p = ops[0]
        idx = ops[1:]
        cur = ty; off = 0
        for n, i in enumerate(idx):
            x = self.idx(i)
            if n == 0: off = off + x * ty.size; continue
            if cur.k == 's':
                o, cur = cur.el[x]; off = off + o
            elif cur.k == 'a':
                cur = cur.el; off = off + x * cur.size
            else: raise Unsupported("gep")
        return self.padd(p, off)
    def idx(self, i):
        if isinstance(i, IV):
            return i.e if isc(i.e) else self.S(i).e
        if isinstance(i, bool): return int(i)
        raise Unsupported("gep index")
    # ---------- exploration
    def run_harness(self, name, init=None):
        f = self.m.func(name)
        if f is None: raise Unsupported("no function " + name)
        st = State(); st.frames = []; st.mem = {}; st.inputs = []; st.cuts = []; st.uf = {}; st.trail = []
        self.enter(st, f, [], None)
        self.push()
        try:
            self.run(st)
        finally:
            self.pop()
        return self.res
    def enter(self, st, f, args, ret):
        fr = Frame(); fr.f = f; fr.env = {}; fr.blk = 0; fr.prev = -1; fr.ip = 0; fr.ret = ret; fr.visits = {}
        for (i, t), v in zip(f.params, args): fr.env[i] = v
        st.frames.append(fr)
        if len(st.frames) > 60: raise Unsupported("recursion depth")
    def goto(self, st, tgt):
        """transfer control to block tgt; returns False when the path ends at a loop cut"""
        fr = st.frames[-1]; F = fr.f
        prev = fr.blk
        blk = F.blocks[tgt]
        vals = []
        for ph in blk.phis:
            for pb, op in ph.ops:
                if pb == prev: vals.append((ph.id, self.opv(st, op, fr.env))); break
            else: raise Unsupported("phi without incoming value")
        depth = len(st.frames)
        # leaving active cuts?
        while st.cuts and st.cuts[-1].depth == depth and tgt not in st.cuts[-1].body:
            c = st.cuts[-1]
            if not c.final: return False        # exits are not followed while inferring
            st.cuts.pop()
        if st.cuts and st.cuts[-1].depth == depth and st.cuts[-1].header == tgt:
            c = st.cuts[-1]
            for i, v in vals: fr.env[i] = v
            fr.prev = prev; fr.blk = tgt; fr.ip = 0
            c.on_back(st)
            return False
        for i, v in vals: fr.env[i] = v
        fr.prev = prev; fr.blk = tgt; fr.ip = 0
        if tgt in F.loops:
            if self.o.inv_loops and self.want_inv(st, F, tgt):
                self.cut_loop(st, F, tgt)
                return False
            if prev not in F.loops[tgt]: fr.visits[tgt] = 0
            fr.visits[tgt] = fr.visits.get(tgt, 0) + 1
            if fr.visits[tgt] > self.o.unroll:
                if self.quiet: return False
                raise Unsupported(f"loop not unrolled completely after {self.o.unroll} iterations")
        return True
    def want_inv(self, st, F, hdr):
        w = self.o.inv_loops
        if callable(w): return w(self, st, F, hdr)
        return True
    def run(self, st):
        self.depth += 1
        try:
            while True:
                try:
                    if not self.step(st): return
                except ForkOn as fo:
                    st2 = st.fork()
                    self.push(); self.add(fo.c)
                    self.run(st)
                    self.pop()
                    self.push(); self.add(z3.Not(fo.c))
                    if self.check() != z3.unsat: self.run(st2)
                    self.pop()
                    return
        except PathEnd:
            return
        finally:
            self.depth -= 1
    def decide(self, c):
        if isinstance(c, bool): return c
        c2 = z3.simplify(c)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        if not self.feas(c): return False
        if not self.feas(z3.Not(c)): return True
        raise ForkOn(c)
    def branch(self, st, c, t, f):
        """returns True if execution continues in st"""
        if isinstance(c, Undef): c = self.havoc(c.ty, 'undef')
        if isinstance(c, bool): return self.goto(st, t if c else f)
        c = z3.simplify(c)
        if z3.is_true(c): return self.goto(st, t)
        if z3.is_false(c): return self.goto(st, f)
        ft = self.feas(c)
        ff = self.feas(z3.Not(c)) if ft else True
        if ft and not ff: return self.goto(st, t)
        if ff and not ft: return self.goto(st, f)
        st2 = st.fork()
        self.push(); self.add(c)
        try:
            if self.goto(st, t): self.run(st)
        except PathEnd: pass
        self.pop()
        self.push(); self.add(z3.Not(c))
        try:
            if self.goto(st2, f): self.run(st2)
        except PathEnd: pass
        self.pop()
        return False
    def endpath(self, st):
        self.res.paths += 1
        if self.res.paths > self.o.max_paths: raise Budget("too many paths")
    def step(self, st):
        """execute one instruction; True to continue with st"""
        fr = st.frames[-1]
        I = fr.f.blocks[fr.blk].insts[fr.ip]
        env = fr.env; op = I.op
        if op == 'br':
            if not I.ops: return self.goto(st, I.x[0])
            return self.branch(st, self.opv(st, I.ops[0], env), I.x[0], I.x[1])
        if op == 'ret':
            v = self.opv(st, I.ops[0], env) if I.ops else None
            while st.cuts and st.cuts[-1].depth == len(st.frames):
                if not st.cuts[-1].final: return False
                st.cuts.pop()
            st.frames.pop()
            if not st.frames:
                self.endpath(st)
                if not self.quiet: self.cover(st, 'end of harness')
                return False
            rid, rblk = fr.ret
            fr = st.frames[-1]
            if rid is not None: fr.env[rid] = v
            if rblk is not None: return self.goto(st, rblk)
            return True
        if op in ('call', 'invoke'):
            r = self.call(st, I, env)
            if r is CALLED: return True
            if r is ENDED: return False
            if I.ty.k != 'void': env[I.id] = r
            if op == 'invoke': return self.goto(st, I.x[1])
            fr.ip += 1
            return True
        if op == 'switch':
            v = self.val(st, I.ops[0], env)
            return self.switch(st, v, I)
        if op == 'unreachable':
            self.oblige(st, False, "unreachable code is not reached", 'unreachable')
            return False
        if op == 'select' and self.o.fork_select:
            c = self.val(st, I.ops[0], env)
            if not isinstance(c, bool):
                c = self.decide(c)
            env[I.id] = self.opv(st, I.ops[1] if c else I.ops[2], env)
            fr.ip += 1
            return True
        env[I.id] = self.inst(st, I, env)
        fr.ip += 1
        return True
    def switch(self, st, v, I):
        if isinstance(v, IV) and isc(v.e):
            for c, t in I.x[1]:
                if (c - v.e) % (1 << v.w) == 0: return self.goto(st, t)
            return self.goto(st, I.x[0])
        # chain of tests
        rest = []
        conts = []
        for c, t in I.x[1]:
            cond = self.icmp(st, 'eq', v, self.const_i(c, self.width(v)))
            conts.append((cond, t))
        neg = []
        for cond, t in conts:
            if not self.feas(cond): continue
            s2 = st.fork()
            self.push(); self.add(cond)
            try:
                if self.goto(s2, t): self.run(s2)
            except PathEnd: pass
            self.pop()
        self.push()
        for cond, t in conts: self.add(bnot(cond))
        if self.check() != z3.unsat:
            try:
                if self.goto(st, I.x[0]): self.run(st)
            except PathEnd: pass
        self.pop()
        return False
    def inst(self, st, I, env):
        op = I.op
        V = lambda k: self.val(st, I.ops[k], env)
        if op in ('add', 'sub', 'mul'):
            a, b = V(0), V(1)
            if isinstance(a, PV) or isinstance(b, PV): return self.ptr_arith(op, a, b)
            if I.ty.w == 1: return self.xor1(a, b) if op != 'mul' else band(a, b)
            return self.arith(st, op, a, b, I.ty.w, I.x)
        if op == 'icmp':
            return self.icmp(st, I.x, V(0), V(1))
        if op == 'load': return self.load(st, V(0), I.ty)
        if op == 'store':
            v = self.opv(st, I.ops[0], env)
            self.store(st, V(1), v, self.tyof(I.ops[0], v, st, env, I))
            return None
        if op == 'gep': return self.gep(st, [V(k) for k in range(len(I.ops))], I.x)
        if op == 'alloca':
            n = V(0); 
            return self.new_obj(st, I.x.size * self.as_int(n), 'stack')
        if op == 'select':
            c = V(0)
            if isinstance(c, bool): return self.opv(st, I.ops[1] if c else I.ops[2], env)
            return self.ite(st, c, V(1), V(2))
        if op in ('and', 'or', 'xor'):
            a, b = V(0), V(1)
            if I.ty.w == 1 and I.ty.k == 'i':
                return band(a, b) if op == 'and' else bor(a, b) if op == 'or' else self.xor1(a, b)
            return self.bitop(st, op, a, b, I.ty.w)
        if op in ('zext', 'sext'): return self.ext(V(0), I.ty.w, op == 'sext')
        if op == 'trunc': return self.trunc(V(0), I.ty.w)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            a, b = V(0), V(1)
            if isinstance(a, PV): raise Unsupported("pointer division")
            return self.divrem(st, op, a, b, I.ty.w)
        if op in ('shl', 'lshr', 'ashr'):
            b = V(1)
            if isinstance(b, IV) and not isc(b.e):
                self.concretize(st, b.e, 'shift')   # may fork
                b = IV(self.concretize(st, b.e, 'shift'), b.w)
            return self.shift(st, op, V(0), b, I.ty.w, I.x if op == 'shl' else None)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return self.farith(st, op, V(0), V(1), I.ty.w)
        if op == 'fcmp': return self.fcmp(st, I.x, V(0), V(1))
        if op == 'fneg':
            a = V(0)
            return self.fneg(st, a, I.ty.w)
        if op in ('sitofp', 'uitofp'):
            a = V(0)
            if not isinstance(a, IV) and self.o.mode == 'int': a = self.ext(a, 32, op == 'sitofp')
            return self.i2f(st, a, I.ty.w, op == 'sitofp')
        if op in ('fptosi', 'fptoui'): return self.f2i(st, V(0), I.ty.w, op == 'fptosi')
        if op == 'fptrunc': return self.fptrunc(st, V(0), I.ty.w)
        if op == 'fpext': return self.fpext(st, V(0), I.ty.w)
        if op == 'freeze': return V(0)
        if op == 'ptrtoint' or op == 'inttoptr': return V(0)
        if op == 'bitcast': return self.coerce(st, V(0), I.ty)
        if op == 'extractvalue':
            v = V(0)
            for k in I.x: v = v[k]
            return v
        if op == 'insertvalue':
            v = self.opv(st, I.ops[0], env); x = self.opv(st, I.ops[1], env)
            def ins(v, path):
                v = list(v) if isinstance(v, list) else self.opv(st, ('undef', v.ty), env)
                if len(path) == 1: v[path[0]] = x
                else: v[path[0]] = ins(v[path[0]], path[1:])
                return v
            return ins(v, I.x)
        if op == 'fence': return None
        raise Unsupported("instruction " + op)
    def xor1(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool): return a != b
        if isinstance(a, bool): return bnot(b) if a else b
        if isinstance(b, bool): return bnot(a) if b else a
        return z3.Xor(a, b)
    def fneg(self, st, a, fmt):
        if isinstance(a, tuple): return ('special', -a[1], fmt)
        return FV(-a.e, fmt, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, a.isint)
    def fptrunc(self, st, a, fmt):
        if isinstance(a, tuple): return a
        return self.fround(st, a.e, fmt, a.lo, a.hi, a.isint, 'truncation', a.k)
    def fpext(self, st, a, fmt):
        if isinstance(a, tuple): return a
        return FV(a.e, fmt, a.lo, a.hi, a.isint, a.k)
    def ptr_arith(self, op, a, b):
        if op == 'sub' and isinstance(a, PV) and isinstance(b, PV):
            if a.base != b.base: raise Unsupported("difference of unrelated pointers")
            d = a.off - b.off
            return IV(d, 64, -(1 << 62), 1 << 62)
        if op == 'add' and isinstance(a, PV) and isinstance(b, IV): return PV(a.base, a.off + b.e)
        raise Unsupported("pointer arithmetic")
    def tyof(self, o, v, st, env, I):
        # type of a stored operand
        if o[0] == 'v':
            t = self.tymap(st.frames[-1].f).get(o[1])
            return t
        if o[0] == 'undef': return o[1]
        if o[0] in ('c', 'f', 'agg', 'unk'): return o[2]
        if o[0] in ('null', 'zero'): return o[1]
        return PTRTY
    def tymap(self, f):
        t = getattr(self, '_tm', None)
        if t is None: t = self._tm = {}
        r = t.get(f.name)
        if r is None:
            r = dict(f.params)
            for b in f.blocks:
                for i in b.phis + b.insts: r[i.id] = i.ty
            t[f.name] = r
        return r
    def ite(self, st, c, a, b):
        if isinstance(a, IV) and isinstance(b, IV):
            if isc(a.e) and isc(b.e):
                if a.e == b.e: return a
            if a.b is not None or b.b is not None or (isc(a.e) and isc(b.e) and a.e in (0, 1) and b.e in (0, 1)):
                A = a.b if a.b is not None else (bool(a.e) if isc(a.e) and a.e in (0, 1) else None)
                B = b.b if b.b is not None else (bool(b.e) if isc(b.e) and b.e in (0, 1) else None)
                if A is not None and B is not None: return self.b2i(z3.If(c, zb(A), zb(B)), a.w)
            L, H = self.srange(a.w)
            if not ((a.lo >= L and a.hi <= H and b.lo >= L and b.hi <= H) or (a.lo >= 0 and b.lo >= 0 and a.hi < (1 << a.w) and b.hi < (1 << a.w))):
                pass   # congruence is kept by the If itself
            return IV(z3.If(c, zi(a.e), zi(b.e)), a.w, min(a.lo, b.lo), max(a.hi, b.hi), None, min(a.tz, b.tz))
        if isinstance(a, FV) and isinstance(b, FV):
            ii = a.isint and b.isint
            lo = None if None in (a.lo, b.lo) else min(a.lo, b.lo); hi = None if None in (a.hi, b.hi) else max(a.hi, b.hi)
            return FV(z3.If(c, zi(a.e) if ii else zr(a.e), zi(b.e) if ii else zr(b.e)), a.fmt, lo, hi, ii)
        if isinstance(a, PV) and isinstance(b, PV):
            if a.base == b.base:
                if isc(a.off) and isc(b.off) and a.off == b.off: return a
            return a if self.decide(c) else b
        if isinstance(a, (tuple, FnPtr, list, PV)) or isinstance(b, (tuple, FnPtr, list, PV)): return a if self.decide(c) else b
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b: return a
            return c if a else z3.Not(c)
        return z3.If(c, zb(a), zb(b))
    # ---------- calls
    def call(self, st, I, env):
        callee = I.x[0]
        if callee[0] == 'fn': name = callee[1]
        else:
            v = self.opv(st, callee, env)
            if not isinstance(v, FnPtr): raise Unsupported("indirect call")
            name = v.name
        h = self.intrinsic(name)
        if h is not None:
            args = [None if o[0] == 'meta' else self.val(st, o, env) if not name.startswith('llvm.') else self.opv(st, o, env) for o in I.ops]
            return h(st, I, args, name)
        if self.o.contracts:
            for pat, target in self.o.contracts:
                if re.search(pat, name):
                    f = self.m.func(target)
                    if f is None: raise Unsupported("contract function " + target)
                    self.res.externals['contract ' + target] = self.res.externals.get('contract ' + target, 0) + 1
                    args = [self.opv(st, o, env) for o in I.ops]
                    self.enter_call(st, I, f, args)
                    return CALLED
        f = self.m.func(name)
        if f is None: raise Unsupported("call to external function " + name)
        args = [self.opv(st, o, env) for o in I.ops]
        self.enter_call(st, I, f, args)
        return CALLED
    def enter_call(self, st, I, f, args):
        fr = st.frames[-1]
        rblk = I.x[1] if I.op == 'invoke' else None
        if rblk is None: fr.ip += 1
        self.enter(st, f, args, (I.id if I.ty.k != 'void' else None, rblk))
    def input(self, st, name, kind, v):
        st.inputs.append((name, kind, v))
    def cover(self, st, name):
        if name in self.res.covers and self.res.covers[name] == 'reached': return
        r = self.check(ms=self.o.query_ms)
        if r == z3.sat: self.res.covers[name] = 'reached'
        elif r == z3.unknown: self.res.covers.setdefault(name, 'unknown')
    def intrinsic(self, name):
        h = getattr(self, 'x_' + name, None)
        if h: return h
        if name.startswith('vp_any_'): return self.any
        if name.startswith('vp_uf'): return self.ufcall
        if name.startswith('llvm.'): return self.llvm
        if name in ('_Znwm', '_Znam', 'malloc'): return self.opnew
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'): return self.opdel
        if name.startswith('__cxa_allocate_exception'): return self.throw
        if name in ('__cxa_throw', '_ZSt20__throw_length_errorPKc', '__cxa_rethrow', '_ZSt17__throw_bad_allocv', '__clang_call_terminate', '_ZSt9terminatev', 'abort', '_ZSt28__throw_bad_array_new_lengthv') or name.startswith('_ZSt') and '__throw_' in name: return self.throw
        if name in ('sqrt', 'sqrtl', 'sqrtf'): return lambda st, I, a, n: self.fsqrt(st, a[0], I.ty.w)
        if name in ('fabs', 'fabsl', 'fabsf'): return lambda st, I, a, n: self.fabs(st, a[0], I.ty.w)
        if name in ('floor', 'floorl', 'ceil', 'ceill', 'floorf', 'ceilf', 'trunc'): return lambda st, I, a, n: self.ffloor(st, a[0], I.ty.w, n)
        return None
    def throw(self, st, I, a, n):
        if not self.o.throw_ok: self.oblige(st, False, "no exception is thrown", 'throw')
        self.endpath(st)
        return ENDED
    def opnew(self, st, I, a, n):
        e = a[0].e
        return self.new_obj(st, e if isc(e) else None, 'heap')
    def opdel(self, st, I, a, n):
        p = a[0]
        if isinstance(p, PV) and p.base:
            o = self.obj(st, p.base, True); o.live = False
        return None
    def any(self, st, I, a, n):
        nm = self.cstr(st, a[0]) if a and isinstance(a[0], PV) else n
        k = n[len('vp_any_'):]
        return self.fresh_input(st, nm, k, I.ty)
    def fresh_input(self, st, nm, k, ty):
        if k == 'bool':
            v = self.fresh('b', nm); self.input(st, nm, k, v); return v
        if ty.k == 'i':
            v = self.havoc_int(ty.w, nm)
            if k.startswith('u'):
                v = IV(v.e, ty.w, 0, (1 << ty.w) - 1)
                # havoc_int added the signed range: make a new one
                x = self.fresh('i', nm); self.add(z3.And(x >= 0, x < (1 << ty.w))); v = IV(x, ty.w, 0, (1 << ty.w) - 1)
            self.input(st, nm, k, v.e); return v
        if ty.k == 'f':
            v = FV(self.fresh('r', nm), ty.w); self.input(st, nm, k, v.e); return v
        raise Unsupported("vp_any of " + ty.k)
    def x_vp_range(self, st, I, a, n):
        """vp_range(name, lo, hi): 64-bit signed integer input in a constant range"""
        nm = self.cstr(st, a[0]); lo, hi = a[1].e, a[2].e
        x = self.fresh('i', nm)
        self.add(z3.And(x >= lo, x <= hi)); self.input(st, nm, 'i64', x)
        return IV(x, 64, lo, hi)
    def ufcall(self, st, I, a, n):
        nm = self.cstr(st, a[0]); args = a[1:]
        key = (nm, len(args), I.ty.k)
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function(nm, *([z3.IntSort()] * len(args)), z3.BoolSort() if I.ty.w == 1 else z3.IntSort())
        t = f(*[zi(self.S(x).e) if isinstance(x, IV) else zi(self.b2i(x, 8).e) for x in args])
        if I.ty.w == 1: return t
        lo, hi = self.srange(I.ty.w)
        self.add(z3.And(t >= lo, t <= hi))
        return IV(t, I.ty.w, lo, hi)
    def x_vp_assume(self, st, I, a, n):
        c = a[0]
        if isinstance(c, IV): c = self.icmp(st, 'ne', c, self.const_i(0, c.w))
        if c is False: raise PathEnd()
        self.add(c)
        if c is not True and self.check() == z3.unsat: raise PathEnd()
        return None
    def x_vp_assert(self, st, I, a, n):
        c = a[0]
        if isinstance(c, IV): c = self.icmp(st, 'ne', c, self.const_i(0, c.w))
        self.oblige(st, c, self.cstr(st, a[1]), 'assert')
        return None
    def x_vp_cover(self, st, I, a, n):
        if not self.quiet: self.cover(st, self.cstr(st, a[0]))
        return None
    def x_vp_pathsplit(self, st, I, a, n):
        """fork on a condition (proof hint: no effect on meaning)"""
        c = a[0]
        return self.decide(c)
    def x_vp_native(self, st, I, a, n): return False if I.ty.w == 1 else self.const_i(0, I.ty.w)
    def x_vp_note(self, st, I, a, n): return None
    def x_vp_zexact(self, st, I, a, n):
        raise Unsupported("vp_zexact")
    def zarg(self, st, v):
        if isinstance(v, PV): return self.load(st, v, ity(256))
        return v
    def x_vp_ld_is(self, st, I, a, n):
        """vp_ld_is(long double v, Z expected): v is exactly the integer expected"""
        a = [a[0], self.zarg(st, a[1])]
        return self.fcmp(st, 'oeq', a[0], FV(a[1].e, 64, a[1].lo, a[1].hi, True) if not isc(a[1].e) else FV(a[1].e, 64))
    def x_vp_d_is(self, st, I, a, n): return self.x_vp_ld_is(st, I, a, n)
    def x_vp_sqrt_near(self, st, I, a, n):
        r, num, den, bits = a[0], self.zarg(st, a[1]), self.zarg(st, a[2]), a[3]
        if isinstance(r, tuple): return False
        R, N, D = zr(r.e), zr(num.e), zr(den.e)
        u = z3.RealVal(Fraction(1, 1 << bits.e))
        x = R * R * D
        return z3.And(R >= 0, N >= 0, x - N <= u * N, N - x <= u * N)
    def x_vp_f2z(self, st, I, a, n):
        raise Unsupported("f2z")
    def llvm(self, st, I, a, n):
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.prefetch')): return None
        if n.startswith('llvm.assume'): return None
        a = [self.havoc(x.ty, 'undef') if isinstance(x, Undef) else x for x in a]
        if n.startswith('llvm.expect'): return a[0]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, a[0], a[1], a[2]); return None
        if n.startswith('llvm.memset'):
            self.memset(st, a[0], a[1], a[2]); return None
        if n.startswith('llvm.abs'):
            return self.iabs(st, a[0], a[1])
        if n.startswith('llvm.fabs'): return self.fabs(st, a[0], I.ty.w)
        if n.startswith('llvm.sqrt'): return self.fsqrt(st, a[0], I.ty.w)
        if n.startswith(('llvm.floor', 'llvm.ceil')): return self.ffloor(st, a[0], I.ty.w, n[5:])
        if n.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            c = self.icmp(st, n[5] + 'gt', a[0], a[1])
            if 'min' in n: c = bnot(c)
            return (a[0] if c else a[1]) if isinstance(c, bool) else self.ite(st, c, a[0], a[1])
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
            return self.farith(st, 'fadd', self.farith(st, 'fmul', a[0], a[1], I.ty.w), a[2], I.ty.w)
        if n.startswith('llvm.is.constant'): return False
        if n.startswith('llvm.objectsize'): return self.const_i(-1, I.ty.w)
        if n.startswith('llvm.umul.with.overflow'):
            w = a[0].w; r = IV(self.U(a[0]).e * self.U(a[1]).e, w, 0, (1 << (2 * w)))
            ov = (r.e >= (1 << w)) if isc(r.e) else zi(r.e) >= (1 << w)
            return [r, ov]
        if n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'):
            self.oblige(st, False, "no trap", 'unreachable'); return ENDED
        if n.startswith('llvm.ctlz'): return self.ctlz(st, a[0])
        raise Unsupported("intrinsic " + n)
    def ctlz(self, st, a): raise Unsupported("ctlz")
    def iabs(self, st, v, poison):
        v = self.S(v)
        if isc(v.e): return IV(abs(v.e), v.w)
        c = zi(v.e) < 0
        L = self.srange(v.w)[0]
        if v.lo == L and poison is True: self.oblige(st, zi(v.e) != L, "abs does not overflow", 'overflow')
        r = IV(z3.If(c, -v.e, v.e), v.w, 0, max(abs(v.lo), abs(v.hi)))
        if self.decide(c): return IV(-v.e, v.w, 0, r.hi)
        return IV(v.e, v.w, max(v.lo, 0), v.hi) if v.hi >= 0 else IV(v.e, v.w, v.lo, v.hi)
    def fabs(self, st, a, fmt):
        if isc(a.e): return FV(abs(a.e), fmt)
        if a.lo is not None and a.lo >= 0: return a
        c = zi(a.e) < 0 if a.isint else a.e < 0
        hi = None if a.lo is None else max(abs(a.lo), abs(a.hi))
        if not self.decide(c): return FV(a.e, fmt, 0 if hi is not None else None, hi, a.isint)
        return FV(-a.e, fmt, 0 if hi is not None else None, hi, a.isint)
    def ffloor(self, st, a, fmt, n):
        if a.isint: return a
        if isc(a.e):
            return FV(math.floor(a.e) if 'floor' in n else math.ceil(a.e) if 'ceil' in n else int(a.e), fmt)
        q = self.fresh('i', 'fl'); qr = z3.ToReal(q)
        if 'floor' in n: self.add(z3.And(qr <= a.e, a.e < qr + 1))
        elif 'ceil' in n: self.add(z3.And(qr >= a.e, a.e > qr - 1))
        else: raise Unsupported(n)
        return FV(q, fmt, None if a.lo is None else math.floor(a.lo), None if a.hi is None else math.ceil(a.hi), True)
    def memcpy(self, st, d, s, n):
        n = self.concretize(st, self.as_int(n), "memcpy length")
        if n == 0: return
        sb, so = self.deref(st, s, n, False)
        db, do = self.deref(st, d, n, True)
        src = st.mem[sb]
        items = []
        for c, (k, v) in sorted(src.cells.items()):
            if c >= so and c + k <= so + n: items.append((c - so, k, v))
            elif c < so + n and c + k > so:
                lo = max(c, so); hi = min(c + k, so + n)
                if isinstance(v, Undef): continue
                x = self.coerce_bits(st, v, k * 8)
                if lo > c: x = self.trunc(self.shift(st, 'lshr', x, self.const_i((lo - c) * 8, k * 8), k * 8, (False, False)), (c + k - lo) * 8)
                if hi < c + k: x = self.trunc(x, (hi - lo) * 8)
                items.append((lo - so, hi - lo, x))
        o = self.obj(st, db, True)
        # clear destination range
        for c in [c for c, (k, _) in o.cells.items() if c < do + n and c + k > do]:
            k, old = o.cells[c]
            if c >= do and c + k <= do + n: del o.cells[c]
            else:
                self.put(st, db, max(c, do), min(c + k, do + n) - max(c, do), Undef(None)); o = st.mem[db]
                del o.cells[max(c, do)]
        if src.kind == 'zero' and o.kind != 'zero':
            pos = 0
            for off, k, v in items + [(n, 0, None)]:
                for b in range(pos, off): o.cells[do + b] = (1, self.const_i(0, 8))
                pos = off + k
        for off, k, v in items: o.cells[do + off] = (k, v)
    def memset(self, st, d, v, n):
        n = self.concretize(st, self.as_int(n), "memset length")
        if n == 0: return
        db, do = self.deref(st, d, n, True)
        o = self.obj(st, db, True)
        x = self.as_int(v)
        if isinstance(x, int) and x & 255 == 0:
            for c in [c for c, (k, _) in o.cells.items() if c < do + n and c + k > do]:
                k, old = o.cells[c]
                if c >= do and c + k <= do + n: del o.cells[c]
                else: raise Unsupported("memset over part of a cell")
            off = do
            while off < do + n:
                k = 8 if off % 8 == 0 and off + 8 <= do + n else 4 if off % 4 == 0 and off + 4 <= do + n else 1
                o.cells[off] = (k, self.const_i(0, 8 * k)); off += k
            return
        for i in range(n): o.cells[do + i] = (1, self.trunc(v, 8))
    # ---------- loop cuts with Houdini
    def cut_loop(self, st, F, hdr):
        depth = len(st.frames)
        fr = st.frames[-1]
        phis = F.blocks[hdr].phis
        body = F.loops[hdr]
        slots = [('phi', ph.id, ph.ty) for ph in phis]      # plus memory cells discovered on the way
        fty = {}                                            # slot -> treat float as integer
        init = {('phi', ph.id): fr.env[ph.id] for ph in phis}
        for ph in phis:
            v = init[('phi', ph.id)]
            if isinstance(v, FV) and v.isint: fty[('phi', ph.id)] = True
        memslots = []
        init_mem = dict(st.mem)
        cands = None
        rounds = 0
        dropped = set()
        self.quiet += 1
        try:
            while True:
                rounds += 1
                if rounds > 400: raise Unsupported("invariant inference did not converge")
                hav = self.loop_havoc(st, F, hdr, slots, memslots, fty)
                self.push()
                s0, vals = self.apply_havoc(st, slots, memslots, fty, init)
                if cands is None:
                    cl = self.o.templates(self, LoopCtx(self, st, F, hdr, slots, memslots, init))
                    cands = []
                    iv = {k: init[k] for k in init}
                    for c in cl:
                        if c[0] in dropped: continue
                        try: f = c[1](iv)
                        except (Unsupported, z3.Z3Exception, AttributeError, TypeError): continue
                        if f is None: continue
                        ok = f if isinstance(f, bool) else None
                        if ok is None:
                            # initial values: outside the havoc, but fresh variables do no harm
                            ok = self.valid(f, ms=self.o.feas_ms)
                        if ok: cands.append(c)
                for c in cands:
                    f = c[1](vals)
                    if f is not None: self.add(f)
                changed = {'drop': set(), 'mem': set(), 'fty': set()}
                def on_back(s2, changed=changed):
                    bv = {('phi', ph.id): s2.frames[-1].env[ph.id] for ph in phis}
                    # memory changes
                    for b, o in s2.mem.items():
                        o0 = s0.mem.get(b)
                        if o0 is None or o is o0: continue
                        for off, (n, v) in o.cells.items():
                            c0 = o0.cells.get(off)
                            if (b, off) in [(m[0], m[1]) for m in memslots]: continue
                            if c0 is None or c0[0] != n or not same(c0[1], v):
                                changed['mem'].add((b, off, n))
                    for m in memslots:
                        c = s2.mem[m[0]].cells.get(m[1])
                        x = c[1] if c and c[0] == m[2] else None
                        if x is None and isinstance(init.get(('mem', m[0], m[1])), IV):
                            # the same bytes, written in other pieces
                            try: x = self.load(s2, PV(m[0], m[1]), ity(8 * m[2]))
                            except (Unsupported, KeyError, AttributeError, TypeError): x = None
                            if not isinstance(x, IV): x = None
                        bv[('mem', m[0], m[1])] = x
                    for k in list(fty):
                        v = bv.get(k)
                        if fty[k] and not (isinstance(v, FV) and v.isint): changed['fty'].add(k)
                    if changed['mem'] or changed['fty']: return
                    todo = []
                    for c in cands:
                        if c[0] in changed['drop']: continue
                        try: f = c[1](bv)
                        except (Unsupported, z3.Z3Exception, AttributeError, TypeError): f = False
                        if f is None: f = False
                        if f is True: continue
                        todo.append((c, f))
                    if todo:
                        allf = z3.And(*[zb(f) for _, f in todo])
                        if not self.valid(allf, ms=self.o.query_ms):
                            for c, f in todo:
                                if not self.valid(f, ms=self.o.query_ms):
                                    changed['drop'].add(c[0])
                                    if DROPHOOK: DROPHOOK(self, c, f)
                self.with_cut(s0.fork(), hdr, depth, body, on_back, False)
                self.pop()
                if changed['mem']:
                    for b, off, n in sorted(changed['mem']):
                        c = st.mem[b].cells.get(off) if b in st.mem else None
                        if b not in st.mem: continue
                        memslots.append((b, off, n, c))
                        k = ('mem', b, off)
                        init[k] = c[1] if c else None
                        if c and isinstance(c[1], FV) and c[1].isint: fty[k] = True
                    cands = None
                    continue
                if changed['fty']:
                    for k in changed['fty']: fty[k] = False
                    cands = None
                    continue
                if changed['drop']:
                    dropped |= changed['drop']
                    cands = [c for c in cands if c[0] not in changed['drop']]
                    continue
                break
        finally:
            self.quiet -= 1
        if not self.quiet:
            self.res.loops.append({'function': F.name, 'header': F.blocks[hdr].name[:60], 'invariants': [c[0] for c in cands], 'rounds': rounds})
            for c in cands: self.record("loop invariant: " + c[0], 'invariant', 'proved', 'z3 (houdini)', 0, None)
        self.push()
        s1, vals = self.apply_havoc(st, slots, memslots, fty, init)
        for c in cands:
            f = c[1](vals)
            if f is not None: self.add(f)
        if self.check() != z3.unsat:
            self.with_cut(s1, hdr, depth, body, lambda s: self.endpath(s), True)
        self.pop()
    def loop_havoc(self, *a): return None
    def apply_havoc(self, st, slots, memslots, fty, init):
        s = st.fork(); fr = s.frames[-1]; vals = {}
        for kind, pid, ty in slots:
            v = init[('phi', pid)]
            n = self.havoc_like(v, ty, fty.get(('phi', pid), False))
            fr.env[pid] = n; vals[('phi', pid)] = n
        for b, off, n, c in memslots:
            k = ('mem', b, off)
            v = init.get(k)
            if v is None:
                x = Undef(None); o = self.obj(s, b, True); o.cells.pop(off, None); vals[k] = None; continue
            x = self.havoc_like(v, None, fty.get(k, False))
            o = self.obj(s, b, True); o.cells[off] = (n, x); vals[k] = x
        return s, vals
    def havoc_like(self, v, ty, isint):
        if isinstance(v, Undef): return self.havoc(v.ty, 'lv')
        if isinstance(v, IV): 
            x = self.havoc_int(v.w, 'lv'); return x
        if isinstance(v, FV): return FV(self.fresh('i' if isint else 'r', 'lv'), v.fmt, None, None, isint)
        if isinstance(v, PV): return PV(v.base, self.fresh('i', 'lp'))
        if isinstance(v, bool) or z3.is_bool(v): return self.fresh('b', 'lb')
        raise Unsupported("loop-carried value of an unsupported kind")
    def with_cut(self, s, hdr, depth, body, on_back, final):
        c = Cut(); c.header = hdr; c.depth = depth; c.body = body; c.on_back = on_back; c.final = final
        s.cuts.append(c)
        fr = s.frames[-1]; fr.ip = 0
        self.run(s)

DROPHOOK = None
class LoopCtx:
    def __init__(self, eng, st, F, hdr, slots, memslots, init):
        self.eng = eng; self.st = st; self.F = F; self.hdr = hdr
        self.init = init
        self.keys = list(init)
    def ints(self): return [k for k in self.keys if isinstance(self.init[k], IV) and self.init[k].w > 1]
    def floats(self): return [k for k in self.keys if isinstance(self.init[k], FV)]
    def bools(self): return [k for k in self.keys if isinstance(self.init[k], bool) or z3.is_bool(self.init[k])]
    def ptrs(self): return [k for k in self.keys if isinstance(self.init[k], PV)]

def same(a, b):
    if a is b: return True
    if isinstance(a, IV) and isinstance(b, IV):
        if isc(a.e) or isc(b.e): return isc(a.e) and isc(b.e) and a.e == b.e
        return a.e.eq(b.e)
    if isinstance(a, PV) and isinstance(b, PV):
        if a.base != b.base: return False
        if isc(a.off) or isc(b.off): return isc(a.off) and isc(b.off) and a.off == b.off
        return a.off.eq(b.off)
    if isinstance(a, FV) and isinstance(b, FV):
        if isc(a.e) or isc(b.e): return isc(a.e) and isc(b.e) and a.e == b.e
        return a.e.eq(b.e)
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
    try: return a.eq(b)
    except Exception: return False

class PathEnd(Exception): pass
class ForkOn(Exception):
    def __init__(s, c): s.c = c
CALLED = object(); ENDED = object()
PTRTY = llvmir.Ty(); PTRTY.k = 'p'; PTRTY.w = 64; PTRTY.size = 8; PTRTY.el = None; PTRTY.n = 0

def round_frac(x, p):
    """round a Fraction to p significant bits, nearest even"""
    x = Fraction(x)
    if x == 0: return Fraction(0)
    s = -1 if x < 0 else 1; x = abs(x)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    # scale so that 2^(p-1) <= m < 2^p
    sh = p - 1 - e
    m = x * (Fraction(2) ** sh)
    while m >= (1 << p): m /= 2; sh -= 1
    while m < (1 << (p - 1)): m *= 2; sh += 1
    n = m.numerator // m.denominator; r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1): n += 1
    return s * Fraction(n) / (Fraction(2) ** sh)
def sq_abs(a, b):
    """a*b; the square of an absolute value is the square of its argument"""
    if not isc(a) and not isc(b) and (a is b or a.eq(b)) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        _, t, f = a.children()
        d = z3.simplify(t + f, som=True)
        if (z3.is_int_value(d) or z3.is_rational_value(d)) and d.as_fraction() == 0 if z3.is_rational_value(d) else z3.is_int_value(d) and d.as_long() == 0:
            return t * t
    return a * b
def ity(w):
    t = llvmir.Ty(); t.k = 'i'; t.w = w; t.size = (w + 7) // 8; t.el = None; t.n = 0
    return t
