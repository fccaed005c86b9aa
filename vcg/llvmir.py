"""Load an LLVM 18 IR file through the LLVM C API (ctypes) and decode it into plain Python objects."""
import ctypes, re
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, c_double, POINTER, byref
from fractions import Fraction

_L = ctypes.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
def _f(name, res, *args):
    fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args); return fn
P = c_void_p
ctxCreate = _f("LLVMContextCreate", P)
ctxDispose = _f("LLVMContextDispose", None, P)
memBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(P), POINTER(c_char_p))
parseIR = _f("LLVMParseIRInContext", c_int, P, P, POINTER(P), POINTER(c_char_p))
firstFn = _f("LLVMGetFirstFunction", P, P); nextFn = _f("LLVMGetNextFunction", P, P)
firstGl = _f("LLVMGetFirstGlobal", P, P); nextGl = _f("LLVMGetNextGlobal", P, P)
getInit = _f("LLVMGetInitializer", P, P); isGlConst = _f("LLVMIsGlobalConstant", c_int, P)
getName = _f("LLVMGetValueName2", P, P, POINTER(ctypes.c_size_t))
countParams = _f("LLVMCountParams", c_uint, P); getParam = _f("LLVMGetParam", P, P, c_uint)
firstBB = _f("LLVMGetFirstBasicBlock", P, P); nextBB = _f("LLVMGetNextBasicBlock", P, P)
firstI = _f("LLVMGetFirstInstruction", P, P); nextI = _f("LLVMGetNextInstruction", P, P)
opcode = _f("LLVMGetInstructionOpcode", c_int, P)
numOps = _f("LLVMGetNumOperands", c_int, P); getOp = _f("LLVMGetOperand", P, P, c_uint)
typeOf = _f("LLVMTypeOf", P, P); typeKind = _f("LLVMGetTypeKind", c_int, P)
intWidth = _f("LLVMGetIntTypeWidth", c_uint, P)
structN = _f("LLVMCountStructElementTypes", c_uint, P); structEl = _f("LLVMStructGetTypeAtIndex", P, P, c_uint)
isOpaque = _f("LLVMIsOpaqueStruct", c_int, P)
arrLen = _f("LLVMGetArrayLength2", c_ulonglong, P); elType = _f("LLVMGetElementType", P, P)
vecLen = _f("LLVMGetVectorSize", c_uint, P)
dlOf = _f("LLVMGetModuleDataLayout", P, P)
offOf = _f("LLVMOffsetOfElement", c_ulonglong, P, P, c_uint)
abiSize = _f("LLVMABISizeOfType", c_ulonglong, P, P)
storeSize = _f("LLVMStoreSizeOfType", c_ulonglong, P, P)
icmpPred = _f("LLVMGetICmpPredicate", c_int, P); fcmpPred = _f("LLVMGetFCmpPredicate", c_int, P)
getNSW = _f("LLVMGetNSW", c_int, P); getNUW = _f("LLVMGetNUW", c_int, P); getExact = _f("LLVMGetExact", c_int, P)
calledVal = _f("LLVMGetCalledValue", P, P); numArgs = _f("LLVMGetNumArgOperands", c_uint, P)
countInc = _f("LLVMCountIncoming", c_uint, P); incVal = _f("LLVMGetIncomingValue", P, P, c_uint); incBB = _f("LLVMGetIncomingBlock", P, P, c_uint)
gepTy = _f("LLVMGetGEPSourceElementType", P, P); allocTy = _f("LLVMGetAllocatedType", P, P)
numIdx = _f("LLVMGetNumIndices", c_uint, P); getIdx = _f("LLVMGetIndices", POINTER(c_uint), P)
numSucc = _f("LLVMGetNumSuccessors", c_uint, P); getSucc = _f("LLVMGetSuccessor", P, P, c_uint)
isCond = _f("LLVMIsConditional", c_int, P)
isConst = _f("LLVMIsConstant", c_int, P); isUndef = _f("LLVMIsUndef", c_int, P); isPoison = _f("LLVMIsPoison", c_int, P)
valueKind = _f("LLVMGetValueKind", c_int, P)
printVal = _f("LLVMPrintValueToString", c_char_p, P)
constOpc = _f("LLVMGetConstOpcode", c_int, P)
sext = _f("LLVMConstIntGetSExtValue", c_longlong, P)
isDecl = _f("LLVMIsDeclaration", c_int, P)
aggEl = _f("LLVMGetAggregateElement", P, P, c_uint)
normDest = _f("LLVMGetNormalDest", P, P)
unwDest = _f("LLVMGetUnwindDest", P, P)
gvType = _f("LLVMGlobalGetValueType", P, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',58:'resume',59:'landingpad',
 56:'cmpxchg',57:'atomicrmw'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    __slots__ = ('k', 'w', 'size', 'el', 'n')   # k: i,f,p,s,a,void,label
    def __repr__(self): return f"{self.k}{self.w or ''}"

class Inst:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'txt')
    def __repr__(self): return self.txt or f"%{self.id} = {self.op}"

class Block:
    __slots__ = ('name', 'idx', 'phis', 'insts', 'succs')

class Func:
    __slots__ = ('name', 'params', 'blocks', 'entry', 'loops', 'rty')

class Module:
    def __init__(self, path):
        self.ctx = ctxCreate()
        buf = P(); msg = c_char_p()
        if memBuf(path.encode(), byref(buf), byref(msg)): raise RuntimeError(msg.value)
        m = P()
        if parseIR(self.ctx, buf, byref(m), byref(msg)): raise RuntimeError(msg.value)
        self.m = m; self.dl = dlOf(m)
        self.tycache = {}
        self.globals = {}
        self.gcache = {}
        self.funcs = {}
        self.fptr = {}
        g = firstGl(m)
        while g:
            self.globals[self.name(g)] = g
            g = nextGl(g)
        f = firstFn(m)
        while f:
            self.fptr[self.name(f)] = f
            f = nextFn(f)
    def name(self, v):
        n = ctypes.c_size_t()
        p = getName(v, byref(n))
        return ctypes.string_at(p, n.value).decode()
    def ty(self, t):
        r = self.tycache.get(t)
        if r: return r
        k = typeKind(t); r = Ty(); r.w = 0; r.el = None; r.n = 0; r.size = 0
        if k == 8: r.k = 'i'; r.w = intWidth(t)
        elif k in (2, 3, 4, 5, 6, 1): r.k = 'f'; r.w = {2: 24, 3: 53, 4: 64, 5: 113, 1: 11, 6: 106}[k]
        elif k == 12: r.k = 'p'; r.w = 64
        elif k == 0: r.k = 'void'
        elif k == 7: r.k = 'label'
        elif k == 10:
            r.k = 's'
            if isOpaque(t): r.el = []
            else: r.el = [(offOf(self.dl, t, i), self.ty(structEl(t, i))) for i in range(structN(t))]
        elif k == 11:
            r.k = 'a'; e = self.ty(elType(t)); r.n = arrLen(t); r.el = e
        elif k == 13:
            r.k = 'a'; e = self.ty(elType(t)); r.n = vecLen(t); r.el = e
        else: r.k = 'x%d' % k
        if r.k in 'ifpsa' and not (r.k == 's' and isOpaque(t)): r.size = abiSize(self.dl, t)
        self.tycache[t] = r
        return r
    def operand(self, v, ids):
        k = ids.get(v)
        if k is not None: return ('v', k)
        return self.const(v)
    def const(self, v):
        ty = self.ty(typeOf(v))
        vk = valueKind(v)
        # LLVMValueKind: 2 BB,3 MemAccess.. use names below
        if vk == 5: return ('fn', self.name(v))          # Function
        if vk == 6 or vk == 8 and False: return ('g', self.name(v))
        nm = None
        if isPoison(v): return ('undef', ty)
        if isUndef(v): return ('undef', ty)
        s = None
        if vk == 8: return ('g', self.name(v))            # GlobalVariable
        if vk == 18:                                       # ConstantInt
            if ty.w <= 64:
                return ('c', sext(v), ty)
            s = printVal(v).decode()
            return ('c', int(s.split()[-1]), ty)
        if vk == 19:                                       # ConstantFP
            s = printVal(v).decode().split()[-1]
            return ('f', parse_fp(s, ty), ty)
        if vk == 20: return ('null', ty)                  # ConstantPointerNull
        if vk == 15: return ('zero', ty)                  # ConstantAggregateZero
        if vk in (9, 10, 11, 12, 13, 15, 16):
            pass
        if vk == 10:                                       # ConstantExpr
            op = OPC[constOpc(v)]
            ops = [self.const(getOp(v, i)) for i in range(numOps(v))]
            if op == 'gep': return ('ce', op, ops, self.ty(gepTy(v)), ty)
            if op in ('bitcast', 'addrspacecast'): return ops[0]
            return ('ce', op, ops, None, ty)
        if ty.k in 'sa':
            n = len(ty.el) if ty.k == 's' else ty.n
            return ('agg', [self.const(aggEl(v, i)) for i in range(n)], ty)
        if ty.k == 'p':
            nm = self.name(v)
            if nm in self.globals: return ('g', nm)
            if nm in self.fptr: return ('fn', nm)
        return ('unk', printVal(v).decode()[:100], ty)
    def global_init(self, name):
        if name in self.gcache: return self.gcache[name]
        g = self.globals[name]
        ini = getInit(g)
        r = (self.ty(gvType(g)), self.const(ini) if ini else None, bool(isGlConst(g)))
        self.gcache[name] = r
        return r
    def func(self, name):
        r = self.funcs.get(name)
        if r is not None: return r
        fp = self.fptr.get(name)
        if not fp or isDecl(fp): return None
        r = self._decode(fp, name)
        self.funcs[name] = r
        return r
    def _decode(self, fp, name):
        F = Func(); F.name = name
        ids = {}; n = 0; F.params = []
        for i in range(countParams(fp)):
            p = getParam(fp, i); ids[p] = n; F.params.append((n, self.ty(typeOf(p)))); n += 1
        bbs = {}; order = []
        b = firstBB(fp)
        while b:
            bbs[b] = len(order); order.append(b)
            i = firstI(b)
            while i:
                ids[i] = n; n += 1
                i = nextI(i)
            b = nextBB(b)
        # BasicBlock values vs block refs are the same pointer type in the C API casts
        asval = _f("LLVMBasicBlockAsValue", P, P); asbb = _f("LLVMValueAsBasicBlock", P, P)
        F.blocks = []
        for b in order:
            B = Block(); B.idx = bbs[b]; B.name = self.name(asval(b)); B.phis = []; B.insts = []; B.succs = []
            i = firstI(b)
            while i:
                I = Inst(); I.op = OPC.get(opcode(i), 'op%d' % opcode(i)); I.id = ids[i]; I.ty = self.ty(typeOf(i)); I.x = None; I.txt = None
                op = I.op
                if op == 'phi':
                    I.ops = [(bbs[incBB(i, k)], self.operand(incVal(i, k), ids)) for k in range(countInc(i))]
                    B.phis.append(I)
                    i = nextI(i); continue
                if op in ('br',):
                    if isCond(i):
                        I.ops = [self.operand(getOp(i, 0), ids)]
                        I.x = [bbs[getSucc(i, 0)], bbs[getSucc(i, 1)]]
                    else:
                        I.ops = []; I.x = [bbs[getSucc(i, 0)]]
                    B.succs = list(I.x)
                elif op == 'switch':
                    no = numOps(i)
                    I.ops = [self.operand(getOp(i, 0), ids)]
                    I.x = (bbs[asbb(getOp(i, 1))], [(self.const(getOp(i, k))[1], bbs[asbb(getOp(i, k + 1))]) for k in range(2, no, 2)])
                    B.succs = [I.x[0]] + [t for _, t in I.x[1]]
                elif op in ('call', 'invoke'):
                    cv = calledVal(i)
                    I.x = [self.operand(cv, ids), None, None]
                    I.ops = [self.operand(getOp(i, k), ids) if True else None for k in range(numArgs(i))] if not self._hasmeta(i) else self._metaargs(i, ids)
                    if op == 'invoke':
                        I.x[1] = bbs[normDest(i)]; I.x[2] = bbs[unwDest(i)]
                        B.succs = [I.x[1]]
                else:
                    I.ops = [self.operand(getOp(i, k), ids) for k in range(numOps(i))]
                    if op == 'icmp': I.x = ICMP[icmpPred(i)]
                    elif op == 'fcmp': I.x = FCMP[fcmpPred(i)]
                    elif op in ('add', 'sub', 'mul', 'shl'): I.x = (bool(getNSW(i)), bool(getNUW(i)))
                    elif op in ('sdiv', 'udiv', 'lshr', 'ashr'): I.x = bool(getExact(i))
                    elif op == 'gep': I.x = self.ty(gepTy(i))
                    elif op == 'alloca': I.x = self.ty(allocTy(i))
                    elif op in ('extractvalue', 'insertvalue'):
                        k = numIdx(i); p = getIdx(i); I.x = [p[j] for j in range(k)]
                B.insts.append(I)
                i = nextI(i)
            F.blocks.append(B)
        F.entry = 0
        F.loops = find_loops(F)
        return F
    def _hasmeta(self, i):
        for k in range(numArgs(i)):
            if typeKind(typeOf(getOp(i, k))) == 14: return True
        return False
    def _metaargs(self, i, ids):
        r = []
        for k in range(numArgs(i)):
            o = getOp(i, k)
            r.append(('meta',) if typeKind(typeOf(o)) == 14 else self.operand(o, ids))
        return r

def find_loops(F):
    """natural loops: header idx -> set(block idx)"""
    n = len(F.blocks)
    preds = [[] for _ in range(n)]
    for b in F.blocks:
        for s in b.succs: preds[s].append(b.idx)
    # reachable order
    order = []; seen = set()
    def dfs(r):
        st = [(r, iter(F.blocks[r].succs))]; seen.add(r)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v, iter(F.blocks[v].succs))); break
            else:
                order.append(u); st.pop()
    dfs(0)
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == 0: continue
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while b != 0 and b != a: b = idom[b]
        return a == b
    loops = {}
    for b in rpo:
        for s in F.blocks[b].succs:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in preds[x] if p in seen)
    return loops

def parse_fp(s, ty):
    import struct
    if s.startswith('0xK'):
        h = int(s[3:], 16); sign = h >> 79; e = (h >> 64) & 0x7fff; m = h & ((1 << 64) - 1)
        if e == 0x7fff: return float('-inf') if sign else (float('inf') if m == 1 << 63 else float('nan'))
        v = Fraction(m) * Fraction(2) ** (e - 16383 - 63)
        return -v if sign else v
    if s.startswith('0x'):
        d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    else: d = float(s)
    if d != d or d in (float('inf'), float('-inf')): return d
    if d == 0 and str(d)[0] == '-': return d   # -0.0 as float
    return Fraction(d)
