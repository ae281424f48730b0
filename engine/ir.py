"""Loads LLVM bitcode through the C API into types/constants usable by the executor."""
import ctypes as C
import re
import llvmc as L

class Undef:
    """LLVM undef/poison of some type: every use is a fresh unconstrained value."""
    __slots__ = ('ty',)
    def __init__(self, ty): self.ty = ty

class Ty:
    __slots__ = ('k', 'w', 'elems', 'offs', 'n', 'elem', 'stride', 'size', 'alloc', 'align', 's')

class Module:
    def __init__(self, path):
        ctx = L.LLVMContextCreate()
        buf = L.P(); err = L.P(); mod = L.P()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('cannot read ' + path)
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(mod)):
            raise RuntimeError('cannot parse ' + path)
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.little = L.LLVMByteOrder(self.dl) == 1
        self.psize = L.LLVMPointerSize(self.dl)
        self.pbits = self.psize * 8
        self.tcache = {}
        self.functions = {}   # name -> value ref
        self.globals = {}
        self.aliases = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            self.functions[L.name(f)] = f
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            self.globals[L.name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            self.aliases[L.name(a)] = a
            a = L.LLVMGetNextGlobalAlias(a)
        self.ATTR_BYVAL = L.LLVMGetEnumAttributeKindForName(b'byval', 5)

    def ty(self, t):
        r = self.tcache.get(t)
        if r is not None:
            return r
        k = L.LLVMGetTypeKind(t)
        r = Ty()
        r.s = None
        self.tcache[t] = r
        r.w = r.n = r.stride = 0; r.elems = r.offs = r.elem = None
        if k == 0: r.k = 'void'; r.size = r.alloc = r.align = 0; return r
        if k == 8: r.k = 'i'; r.w = L.LLVMGetIntTypeWidth(t)
        elif k == 12: r.k = 'p'; r.w = self.pbits
        elif k in (1, 2, 3, 4, 5, 6, 18):
            r.k = 'f'; r.w = {1: 16, 2: 32, 3: 64, 4: 80, 5: 128, 6: 128, 18: 16}[k]
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t)
            r.k = 's'
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = None
        elif k == 11:
            r.k = 'a'; r.n = L.LLVMGetArrayLength(t); r.elem = self.ty(L.LLVMGetElementType(t)); r.stride = r.elem.alloc
        elif k == 13:
            r.k = 'v'; r.n = L.LLVMGetVectorSize(t); r.elem = self.ty(L.LLVMGetElementType(t)); r.stride = r.elem.size
        elif k == 9:
            r.k = 'fn'; r.size = r.alloc = r.align = 0; return r
        elif k == 7 or k == 14 or k == 16:
            r.k = 'meta'; r.size = r.alloc = r.align = 0; return r
        else:
            r.k = '?%d' % k; r.size = r.alloc = r.align = 0; return r
        r.size = L.LLVMStoreSizeOfType(self.dl, t)
        r.alloc = L.LLVMABISizeOfType(self.dl, t)
        r.align = L.LLVMABIAlignmentOfType(self.dl, t)
        return r

def const_int(v, w):
    if w <= 64:
        return L.LLVMConstIntGetZExtValue(v)
    s = L.tostr(v)
    return int(s.split()[-1]) & ((1 << w) - 1)

def zero_of(ty):
    if ty.k in ('i', 'p', 'f'): return 0
    if ty.k == 's': return [zero_of(e) for e in ty.elems]
    if ty.k in ('a', 'v'): return [zero_of(ty.elem) for _ in range(ty.n)]
    raise ValueError(ty.k)
