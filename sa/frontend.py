"""Front end: /repo's current working tree -> linked LLVM IR -> Python IR.

Nothing of the project is executed.  cmake is only *configured* (to obtain the
real compile commands), every unit is compiled to LLVM IR at -O0 with debug
info, the units are linked, mem2reg'd and decoded through libLLVM's C API.
"""
import ctypes as C, ctypes.util, json, os, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'


class AnalysisBroken(Exception):
    pass


def tool(name):
    for p in (f'/usr/bin/{name}-18', f'{LLVM}/{name}', f'/usr/bin/{name}'):
        if os.path.exists(p):
            return p
    raise AnalysisBroken('missing tool ' + name)


def build_ir(work, repo=REPO):
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++', CMAKE_GENERATOR='Ninja')
    b = os.path.join(work, 'b')
    r = subprocess.run(['cmake', '-S', repo, '-B', b, '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                        '-DBUILD_TESTS=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken('cmake configure failed:\n' + r.stdout[-3000:])
    db = json.load(open(os.path.join(b, 'compile_commands.json')))
    units, seen = [], set()
    for e in db:
        f = os.path.realpath(os.path.join(e['directory'], e['file']))
        if f in seen or not f.endswith('.c'):
            continue
        seen.add(f)
        cmd = shlex.split(e['command'])
        args, i = [], 1
        while i < len(cmd):
            a = cmd[i]
            if a in ('-isystem', '-I', '-D', '-U', '-include'):
                args += [a, cmd[i + 1]]
                i += 1
            elif a.startswith(('-D', '-I', '-U', '-std', '-isystem')):
                args.append(a)
            i += 1
        units.append((f, args))
    if not units:
        raise AnalysisBroken('no compile commands')
    clang = tool('clang')

    def one(ua):
        f, args = ua
        o = os.path.join(work, f.strip('/').replace('/', '_') + '.bc')
        r = subprocess.run([clang, '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-c',
                            '-fno-builtin-strcmp', '-U_FORTIFY_SOURCE', '-emit-llvm', *args, f, '-o', o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken('clang failed on %s:\n%s' % (f, r.stdout[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, units))
    al, m, idm = (os.path.join(work, n) for n in ('all.bc', 'm.bc', 'idiom.bc'))
    # idiom.bc: the same program with the byte loops that only fill or copy a range written as memset/memcpy
    # (so that a fill loop and a memset are the same thing to the analysis); Loader takes from it exactly the
    # functions in which such a loop was recognised
    for cmd in ([tool('llvm-link'), *objs, '-o', al], [tool('opt'), '-passes=mem2reg', al, '-o', m],
                [tool('opt'), '-replexitval=always', '-passes=function(loop-simplify,lcssa,loop-mssa(loop-rotate),'
                 'loop(indvars,loop-idiom,indvars,loop-deletion))', m, '-o', idm]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken(' '.join(cmd[:1]) + ' failed:\n' + r.stdout[-3000:])
    return m, [u[0] for u in units], idm


# ------------------------------------------------------------------ libLLVM
_L = None


def lib():
    global _L
    if _L is None:
        for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so',
                  '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'):
            if os.path.exists(p):
                _L = C.CDLL(p)
                break
        else:
            raise AnalysisBroken('libLLVM not found')
        P = C.c_void_p
        for n in '''LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstBasicBlock LLVMGetNextBasicBlock
            LLVMGetFirstInstruction LLVMGetNextInstruction LLVMGetOperand LLVMTypeOf LLVMGetElementType
            LLVMGetReturnType LLVMGetParam LLVMGetFirstGlobal LLVMGetNextGlobal LLVMGetInitializer
            LLVMGetCalledValue LLVMGetIncomingValue LLVMGetIncomingBlock LLVMValueAsBasicBlock
            LLVMGlobalGetValueType LLVMStructGetTypeAtIndex LLVMGetAggregateElement LLVMGetAllocatedType
            LLVMGetGEPSourceElementType LLVMGetModuleDataLayout LLVMGetSwitchDefaultDest LLVMGetSuccessor
            LLVMGetInstructionParent LLVMGetCalledFunctionType LLVMIsAConstantExpr LLVMIsAGlobalVariable
            LLVMIsAFunction LLVMIsAConstantInt LLVMIsAConstantPointerNull LLVMIsAUndefValue
            LLVMIsAConstantAggregateZero LLVMIsAArgument LLVMIsAInstruction LLVMIsAConstantDataSequential
            LLVMIsAConstantArray LLVMIsAConstantStruct LLVMIsAPoisonValue LLVMIsAConstantFP LLVMIsAGlobalAlias
            LLVMGetElementAsConstant LLVMGetNamedFunction'''.split():
            getattr(_L, n).restype = P
        for n in ('LLVMGetValueName2', 'LLVMGetBasicBlockName', 'LLVMPrintValueToString', 'LLVMPrintTypeToString',
                  'LLVMGetDebugLocFilename', 'LLVMGetDebugLocDirectory'):
            getattr(_L, n).restype = C.c_void_p
        _L.LLVMConstIntGetZExtValue.restype = C.c_ulonglong
        _L.LLVMConstIntGetSExtValue.restype = C.c_longlong
        _L.LLVMOffsetOfElement.restype = C.c_ulonglong
        _L.LLVMABISizeOfType.restype = C.c_ulonglong
        _L.LLVMGetArrayLength.restype = C.c_uint
        _L.LLVMGetArrayLength2.restype = C.c_ulonglong
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 7: 'unreachable', 8: 'add', 10: 'sub', 12: 'mul', 14: 'udiv', 15: 'sdiv',
       17: 'urem', 18: 'srem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 68: 'freeze', 53: 'extractvalue', 54: 'insertvalue', 66: 'fneg',
       9: 'fadd', 11: 'fsub', 13: 'fmul', 16: 'fdiv', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 57: 'cmpxchg', 58: 'atomicrmw', 55: 'fence', 48: 'va_arg'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Ty:
    __slots__ = ('kind', 'bits', 'size', 'elems', 'offs', 'n', 'elem')


class Inst:
    __slots__ = ('op', 'ops', 'ty', 'id', 'line', 'file', 'x', 'fn', 'nsw')

    def __repr__(self):
        return f'<{self.op} %{self.id} {self.ops} {self.line}>'


class Func:
    __slots__ = ('name', 'blocks', 'order', 'params', 'ret', 'file', 'line', 'vararg', 'rpo', 'succ', 'decl', 'live', 'linkage', 'heads', 'defs')


class Glob:
    __slots__ = ('name', 'size', 'init', 'const', 'internal', 'ty', 'tls')


class Module:
    def __init__(self):
        self.funcs, self.globs, self.decls = {}, {}, set()
        self.idiom = []


def _s(p):
    return C.string_at(p).decode('utf-8', 'replace') if p else ''


class Loader:
    def __init__(self, path):
        L = self.L = lib()
        P = C.c_void_p
        ctx = P(L.LLVMContextCreate())
        L.LLVMContextCreate.restype = P
        ctx = P(L.LLVMContextCreate())
        buf, msg = P(), C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise AnalysisBroken('cannot read ' + path)
        mod = P()
        L.LLVMParseBitcodeInContext2.argtypes = [P, P, C.POINTER(P)]
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(mod)):
            raise AnalysisBroken('cannot parse ' + path)
        self.mod = mod
        self.dl = P(L.LLVMGetModuleDataLayout(mod))
        self.tycache = {}
        self.m = Module()
        self.load()

    def name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(C.c_void_p(v), C.byref(n))
        return C.string_at(p, n.value).decode('utf-8', 'replace') if p else ''

    def ty(self, t):
        if t in self.tycache:
            return self.tycache[t]
        L, P = self.L, C.c_void_p
        k = L.LLVMGetTypeKind(P(t))
        r = Ty()
        self.tycache[t] = r
        r.elems = r.offs = r.elem = None
        r.n = 0
        r.bits = 0
        r.size = 0
        if k == 8:
            r.kind = 'int'
            r.bits = L.LLVMGetIntTypeWidth(P(t))
            r.size = L.LLVMABISizeOfType(self.dl, P(t))
        elif k == 12:
            r.kind, r.bits, r.size = 'ptr', 64, 8
        elif k == 10:
            r.kind = 'struct'
            n = L.LLVMCountStructElementTypes(P(t))
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(P(t), i)) for i in range(n)]
            try:
                if L.LLVMTypeIsSized(P(t)):
                    r.size = L.LLVMABISizeOfType(self.dl, P(t))
                    r.offs = [L.LLVMOffsetOfElement(self.dl, P(t), i) for i in range(n)]
            except Exception:
                pass
        elif k == 11:
            r.kind = 'array'
            r.n = L.LLVMGetArrayLength2(P(t))
            r.elem = self.ty(L.LLVMGetElementType(P(t)))
            r.size = r.n * r.elem.size
        elif k == 0:
            r.kind = 'void'
        elif k in (1, 2, 3, 4, 5, 6):
            r.kind = 'fp'
            r.size = L.LLVMABISizeOfType(self.dl, P(t))
            r.bits = r.size * 8
        else:
            r.kind = 'other%d' % k
        return r

    def load(self):
        L, P = self.L, C.c_void_p
        g = L.LLVMGetFirstGlobal(self.mod)
        while g:
            G = Glob()
            G.name = self.name(g)
            t = self.ty(L.LLVMGlobalGetValueType(P(g)))
            G.size, G.ty = t.size, t
            G.const = bool(L.LLVMIsGlobalConstant(P(g)))
            G.tls = bool(L.LLVMIsThreadLocal(P(g)))
            G.internal = L.LLVMGetLinkage(P(g)) in (8, 9)
            G.init = L.LLVMGetInitializer(P(g))
            if L.LLVMIsDeclaration(P(g)):
                G.init = None
            self.m.globs[G.name] = G
            g = L.LLVMGetNextGlobal(P(g))
        f = L.LLVMGetFirstFunction(self.mod)
        fl = []
        while f:
            fl.append(f)
            f = L.LLVMGetNextFunction(P(f))
        for f in fl:
            nm = self.name(f)
            if L.LLVMIsDeclaration(P(f)):
                self.m.decls.add(nm)
        for G in self.m.globs.values():
            if G.init is not None:
                G.init = self.const(G.init)
        for f in fl:
            if not L.LLVMIsDeclaration(P(f)):
                self.func(f)

    # constants -> ('c',val,bits) ('null',) ('g',name,off) ('f',name) ('undef',bits) ('agg',[..],ty) ('zero',size)
    def const(self, v):
        L, P = self.L, C.c_void_p
        pv = P(v)
        if L.LLVMIsAConstantInt(pv):
            t = self.ty(L.LLVMTypeOf(pv))
            return ('c', L.LLVMConstIntGetZExtValue(pv), t.bits)
        if L.LLVMIsAFunction(pv):
            return ('f', self.name(v))
        if L.LLVMIsAGlobalVariable(pv):
            return ('g', self.name(v), 0)
        if L.LLVMIsAConstantPointerNull(pv):
            return ('c', 0, 64)
        if L.LLVMIsAUndefValue(pv) or L.LLVMIsAPoisonValue(pv):
            t = self.ty(L.LLVMTypeOf(pv))
            return ('undef', t.bits or t.size * 8)
        t = self.ty(L.LLVMTypeOf(pv))
        if L.LLVMIsAConstantAggregateZero(pv):
            return ('zero', t.size)
        if L.LLVMIsAConstantDataSequential(pv):
            return ('agg', [self.const(L.LLVMGetElementAsConstant(pv, i)) for i in range(t.n)], t)
        if L.LLVMIsAConstantArray(pv):
            return ('agg', [self.const(L.LLVMGetOperand(pv, i)) for i in range(t.n)], t)
        if L.LLVMIsAConstantStruct(pv):
            return ('agg', [self.const(L.LLVMGetOperand(pv, i)) for i in range(len(t.elems))], t)
        if L.LLVMIsAConstantExpr(pv):
            op = OPC.get(L.LLVMGetConstOpcode(pv))
            if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                return self.const(L.LLVMGetOperand(pv, 0))
            if op == 'gep':
                base = self.const(L.LLVMGetOperand(pv, 0))
                n = L.LLVMGetNumOperands(pv)
                idx = [L.LLVMConstIntGetSExtValue(P(L.LLVMGetOperand(pv, i))) for i in range(1, n)]
                ty = self.ty(L.LLVMGetGEPSourceElementType(pv))
                off = idx[0] * ty.size
                for i in idx[1:]:
                    if ty.kind == 'struct':
                        off += ty.offs[i]
                        ty = ty.elems[i]
                    else:
                        ty = ty.elem
                        off += i * ty.size
                if base[0] == 'g':
                    return ('g', base[1], base[2] + off)
                if base[0] == 'c':
                    return ('c', base[1] + off, 64)
            return ('cexpr', op, [self.const(L.LLVMGetOperand(pv, i)) for i in range(L.LLVMGetNumOperands(pv))], t.bits)
        if L.LLVMIsAConstantFP(pv):
            return ('fp', t.bits)
        return ('unk', t.bits)

    def func(self, f):
        L, P = self.L, C.c_void_p
        F = Func()
        F.name = self.name(f)
        F.linkage = L.LLVMGetLinkage(P(f))
        F.blocks, F.order, F.succ = {}, [], {}
        n = L.LLVMCountParams(P(f))
        F.params = [self.ty(L.LLVMTypeOf(P(L.LLVMGetParam(P(f), i)))) for i in range(n)]
        ids = {}
        for i in range(n):
            ids[L.LLVMGetParam(P(f), i)] = ('a', i)
        bbs = []
        b = L.LLVMGetFirstBasicBlock(P(f))
        while b:
            bbs.append(b)
            b = L.LLVMGetNextBasicBlock(P(b))
        bid = {b: i for i, b in enumerate(bbs)}
        insts = []
        k = 0
        for b in bbs:
            v = L.LLVMGetFirstInstruction(P(b))
            while v:
                ids[v] = ('v', k)
                insts.append((b, v, k))
                k += 1
                v = L.LLVMGetNextInstruction(P(v))
        F.file, F.line = '', 0
        for b in bbs:
            F.blocks[bid[b]] = []
            F.order.append(bid[b])
            F.succ[bid[b]] = []

        def opnd(v):
            if v in ids:
                return ids[v]
            return self.const(v)
        for b, v, k in insts:
            pv = P(v)
            I = Inst()
            I.id, I.fn = k, F.name
            o = L.LLVMGetInstructionOpcode(pv)
            I.op = OPC.get(o, 'op%d' % o)
            I.ty = self.ty(L.LLVMTypeOf(pv))
            I.line = L.LLVMGetDebugLocLine(pv)
            nn = C.c_uint()
            fp = L.LLVMGetDebugLocFilename(pv, C.byref(nn)) if I.line else None
            I.file = C.string_at(fp, nn.value).decode() if fp else ''
            I.x = None
            I.nsw = False
            if I.op == 'call':
                cv = L.LLVMGetCalledValue(pv)
                na = L.LLVMGetNumArgOperands(pv)
                callee = opnd(cv)
                if callee[0] == 'f' and callee[1].startswith('llvm.dbg'):
                    continue
                if callee[0] == 'f' and callee[1].startswith('llvm.lifetime'):
                    continue
                I.x = callee
                I.ops = [opnd(L.LLVMGetOperand(pv, i)) for i in range(na)]
            elif I.op == 'br':
                if L.LLVMIsConditional(pv):
                    I.ops = [opnd(L.LLVMGetOperand(pv, 0))]
                    I.x = [bid[L.LLVMGetSuccessor(pv, 0)], bid[L.LLVMGetSuccessor(pv, 1)]]
                else:
                    I.ops = []
                    I.x = [bid[L.LLVMGetSuccessor(pv, 0)]]
                F.succ[bid[b]] = list(I.x)
            elif I.op == 'switch':
                I.ops = [opnd(L.LLVMGetOperand(pv, 0))]
                no = L.LLVMGetNumOperands(pv)
                cases = []
                for i in range(2, no, 2):
                    cases.append((self.const(L.LLVMGetOperand(pv, i))[1], bid[L.LLVMValueAsBasicBlock(P(L.LLVMGetOperand(pv, i + 1)))]))
                dflt = bid[L.LLVMGetSwitchDefaultDest(pv)]
                I.x = (cases, dflt)
                F.succ[bid[b]] = [c[1] for c in cases] + [dflt]
            elif I.op == 'phi':
                no = L.LLVMCountIncoming(pv)
                I.x = {bid[L.LLVMGetIncomingBlock(pv, i)]: opnd(L.LLVMGetIncomingValue(pv, i)) for i in range(no)}
                I.ops = []
            elif I.op == 'alloca':
                t = self.ty(L.LLVMGetAllocatedType(pv))
                I.ops = [opnd(L.LLVMGetOperand(pv, 0))]
                I.x = t
            elif I.op == 'gep':
                I.ops = [opnd(L.LLVMGetOperand(pv, i)) for i in range(L.LLVMGetNumOperands(pv))]
                I.x = self.ty(L.LLVMGetGEPSourceElementType(pv))
            elif I.op == 'icmp':
                I.ops = [opnd(L.LLVMGetOperand(pv, i)) for i in range(2)]
                I.x = PRED[L.LLVMGetICmpPredicate(pv)]
            elif I.op == 'store':
                v0 = L.LLVMGetOperand(pv, 0)
                I.ops = [opnd(v0), opnd(L.LLVMGetOperand(pv, 1))]
                I.x = self.ty(L.LLVMTypeOf(P(v0)))
            else:
                I.ops = [opnd(L.LLVMGetOperand(pv, i)) for i in range(L.LLVMGetNumOperands(pv))]
                if I.op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
                    I.x = self.ty(L.LLVMTypeOf(P(L.LLVMGetOperand(pv, 0))))
            if I.line and not F.line and I.file:
                F.file, F.line = I.file, I.line
            F.blocks[bid[b]].append(I)
        # rpo
        seen, post = set(), []
        stack = [(0, iter(F.succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(F.succ[s])))
                    break
            else:
                post.append(n)
                stack.pop()
        F.rpo = {n: i for i, n in enumerate(reversed(post))}
        F.defs = None
        F.heads = frozenset(s for b, ss in F.succ.items() for s in ss if b in F.rpo and F.rpo[s] <= F.rpo[b])
        self.liveness(F)
        self.m.funcs[F.name] = F

    def liveness(self, F):
        use, dfn, phiuse = {}, {}, {}
        for b, ins in F.blocks.items():
            u, d = set(), set()
            for I in ins:
                if I.op == 'phi':
                    d.add(('v', I.id))
                    for pb, v in I.x.items():
                        if v[0] in 'av' and len(v) == 2:
                            phiuse.setdefault(pb, set()).add(v)
                    continue
                for o in list(I.ops) + ([I.x] if I.op == 'call' else []):
                    if o[0] in ('a', 'v') and len(o) == 2 and o not in d:
                        u.add(o)
                d.add(('v', I.id))
            use[b], dfn[b] = u, d
        live = {b: set() for b in F.blocks}
        ch = True
        while ch:
            ch = False
            for b in F.blocks:
                out = set(phiuse.get(b, ()))
                for s in F.succ[b]:
                    out |= live[s]
                # phi defs are live-in at block start for our merge key
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        F.live = {}
        for b in F.blocks:
            ph = {('v', I.id) for I in F.blocks[b] if I.op == 'phi'}
            F.live[b] = live[b] | ph


def fills(f):
    return sum(i.op == 'call' and i.x[0] == 'f' and i.x[1].startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove'))
               for b in f.blocks.values() for i in b)


def load(repo=REPO):
    work = tempfile.mkdtemp(prefix='sa_ir_')
    try:
        m, units, idm = build_ir(work, repo)
        ld = Loader(m)
        idiom = Loader(idm)
        for n, f in idiom.m.funcs.items():
            if n in ld.m.funcs and fills(f) > fills(ld.m.funcs[n]):
                ld.m.funcs[n] = f
                ld.m.idiom.append(n)
        ld.idiom = idiom
        ld.m.units = units
        ld.m._keep = ld
        return ld.m
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    m = load()
    print(len(m.funcs), len(m.globs), len(m.decls), sum(len(b) for f in m.funcs.values() for b in f.blocks.values()), time.time() - t)
    print(m.funcs['dstu_do_verify'].blocks[0])
    print(m.globs['dstu_curves'].init[1][0], [g for g in m.globs][:10])
