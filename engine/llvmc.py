"""Thin ctypes binding over the LLVM 18 C API: just what the loader needs."""
import ctypes as C, ctypes.util, os

_CAND = ['/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so.1',
         '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1',
         '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so']
for _p in _CAND:
    if os.path.exists(_p):
        L = C.CDLL(_p)
        break
else:
    raise RuntimeError('libLLVM 18 not found')

P = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args)
    globals()[name] = f

U = C.c_uint; I = C.c_int; S = C.c_char_p; ULL = C.c_ulonglong
for n, r, a in [
 ('LLVMContextCreate', P, ()), ('LLVMParseBitcodeInContext2', I, (P, P, C.POINTER(P))),
 ('LLVMCreateMemoryBufferWithContentsOfFile', I, (S, C.POINTER(P), C.POINTER(P))),
 ('LLVMGetFirstFunction', P, (P,)), ('LLVMGetNextFunction', P, (P,)),
 ('LLVMGetFirstGlobal', P, (P,)), ('LLVMGetNextGlobal', P, (P,)),
 ('LLVMGetFirstGlobalAlias', P, (P,)), ('LLVMGetNextGlobalAlias', P, (P,)), ('LLVMAliasGetAliasee', P, (P,)),
 ('LLVMIsDeclaration', I, (P,)), ('LLVMGetValueName2', P, (P, C.POINTER(C.c_size_t))),
 ('LLVMGetFirstBasicBlock', P, (P,)), ('LLVMGetNextBasicBlock', P, (P,)), ('LLVMBasicBlockAsValue', P, (P,)),
 ('LLVMGetFirstInstruction', P, (P,)), ('LLVMGetNextInstruction', P, (P,)),
 ('LLVMGetInstructionOpcode', I, (P,)), ('LLVMGetNumOperands', I, (P,)), ('LLVMGetOperand', P, (P, U)),
 ('LLVMTypeOf', P, (P,)), ('LLVMGetTypeKind', I, (P,)), ('LLVMGetIntTypeWidth', U, (P,)),
 ('LLVMGetValueKind', I, (P,)), ('LLVMConstIntGetZExtValue', ULL, (P,)), ('LLVMPrintValueToString', P, (P,)),
 ('LLVMPrintTypeToString', P, (P,)),
 ('LLVMDisposeMessage', None, (P,)),
 ('LLVMGetICmpPredicate', I, (P,)), ('LLVMGetFCmpPredicate', I, (P,)),
 ('LLVMGetNSW', I, (P,)), ('LLVMGetNUW', I, (P,)), ('LLVMGetExact', I, (P,)),
 ('LLVMGetGEPSourceElementType', P, (P,)), ('LLVMGetAllocatedType', P, (P,)), ('LLVMGetAlignment', U, (P,)),
 ('LLVMCountIncoming', U, (P,)), ('LLVMGetIncomingValue', P, (P, U)), ('LLVMGetIncomingBlock', P, (P, U)),
 ('LLVMGetNumSuccessors', U, (P,)), ('LLVMGetSuccessor', P, (P, U)), ('LLVMIsConditional', I, (P,)),
 ('LLVMGetCondition', P, (P,)), ('LLVMGetCalledValue', P, (P,)), ('LLVMGetNumArgOperands', U, (P,)),
 ('LLVMGetNormalDest', P, (P,)), ('LLVMGetUnwindDest', P, (P,)), ('LLVMGetNumClauses', U, (P,)),
 ('LLVMGetClause', P, (P, U)), ('LLVMIsCleanup', I, (P,)), ('LLVMGetIndices', C.POINTER(U), (P,)),
 ('LLVMGetNumIndices', U, (P,)), ('LLVMGetConstOpcode', I, (P,)), ('LLVMGetInitializer', P, (P,)),
 ('LLVMIsGlobalConstant', I, (P,)), ('LLVMGetElementAsConstant', P, (P, U)), ('LLVMIsConstantString', I, (P,)),
 ('LLVMGetAsString', P, (P, C.POINTER(C.c_size_t))),
 ('LLVMGetModuleDataLayout', P, (P,)), ('LLVMABISizeOfType', ULL, (P, P)), ('LLVMStoreSizeOfType', ULL, (P, P)),
 ('LLVMABIAlignmentOfType', U, (P, P)), ('LLVMOffsetOfElement', ULL, (P, P, U)), ('LLVMByteOrder', I, (P,)),
 ('LLVMPointerSize', U, (P,)), ('LLVMGetElementType', P, (P,)), ('LLVMGetArrayLength', U, (P,)),
 ('LLVMGetVectorSize', U, (P,)), ('LLVMCountStructElementTypes', U, (P,)), ('LLVMStructGetTypeAtIndex', P, (P, U)),
 ('LLVMGlobalGetValueType', P, (P,)), ('LLVMGetEnumAttributeKindForName', U, (S, C.c_size_t)),
 ('LLVMGetCallSiteEnumAttribute', P, (P, U, U)), ('LLVMGetEnumAttributeAtIndex', P, (P, U, U)),
 ('LLVMGetTypeAttributeValue', P, (P,)), ('LLVMCountParams', U, (P,)), ('LLVMGetParam', P, (P, U)),
 ('LLVMGetReturnType', P, (P,)), ('LLVMIsFunctionVarArg', I, (P,)), ('LLVMGetCalledFunctionType', P, (P,)),
 ('LLVMGetDebugLocLine', U, (P,)), ('LLVMGetDebugLocFilename', P, (P, C.POINTER(U))),
 ('LLVMGetDebugLocDirectory', P, (P, C.POINTER(U))),
 ('LLVMGetSubprogram', P, (P,)), ('LLVMDIScopeGetFile', P, (P,)), ('LLVMDIFileGetFilename', P, (P, C.POINTER(U))),
 ('LLVMIsNull', I, (P,)), ('LLVMIsUndef', I, (P,)), ('LLVMIsPoison', I, (P,)), ('LLVMGetVolatile', I, (P,)),
 ('LLVMIsPackedStruct', I, (P,)), ('LLVMGetUndefMaskElem', I, ()), ('LLVMGetNumMaskElements', U, (P,)),
 ('LLVMGetFirstUse', P, (P,)), ('LLVMGetNextUse', P, (P,)), ('LLVMGetUser', P, (P,)),
 ('LLVMGetMaskValue', I, (P, U)), ('LLVMGetAtomicRMWBinOp', I, (P,)),
]:
    _f(n, r, *a)

def name(v):
    n = C.c_size_t()
    p = LLVMGetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode() if n.value else ''

def tostr(v):
    p = LLVMPrintValueToString(v)
    s = C.string_at(p).decode(errors='replace'); LLVMDisposeMessage(p)
    return s

def typestr(t):
    p = LLVMPrintTypeToString(t)
    s = C.string_at(p).decode(errors='replace'); LLVMDisposeMessage(p)
    return s
