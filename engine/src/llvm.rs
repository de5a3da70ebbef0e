//! Minimal bindings to the LLVM C API exported by rustc's libLLVM.
#![allow(non_snake_case, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};
pub type V = *mut c_void; // value
pub type T = *mut c_void; // type
pub type M = *mut c_void; // module
pub type B = *mut c_void; // basic block
extern "C" {
    pub fn LLVMContextCreate() -> *mut c_void;
    pub fn LLVMCreateMemoryBufferWithMemoryRange(d: *const c_char, n: usize, name: *const c_char, nul: c_int) -> *mut c_void;
    pub fn LLVMGetBitcodeModuleInContext2(c: *mut c_void, b: *mut c_void, m: *mut M) -> c_int;
    pub fn LLVMGetNamedFunction(m: M, n: *const c_char) -> V;
    pub fn LLVMGetNamedGlobal(m: M, n: *const c_char) -> V;
    pub fn LLVMGetNamedGlobalAlias(m: M, n: *const c_char, len: usize) -> V;
    pub fn LLVMGetModuleDataLayout(m: M) -> *mut c_void;
    pub fn LLVMABISizeOfType(td: *mut c_void, t: T) -> u64;
    pub fn LLVMABIAlignmentOfType(td: *mut c_void, t: T) -> c_uint;
    pub fn LLVMStoreSizeOfType(td: *mut c_void, t: T) -> u64;
    pub fn LLVMOffsetOfElement(td: *mut c_void, t: T, i: c_uint) -> u64;
    pub fn LLVMGetValueName2(v: V, n: *mut usize) -> *const c_char;
    pub fn LLVMTypeOf(v: V) -> T;
    pub fn LLVMGetTypeKind(t: T) -> c_uint;
    pub fn LLVMGetIntTypeWidth(t: T) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: T) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: T, i: c_uint) -> T;
    pub fn LLVMGetElementType(t: T) -> T;
    pub fn LLVMGetArrayLength2(t: T) -> u64;
    pub fn LLVMGetVectorSize(t: T) -> c_uint;
    pub fn LLVMGlobalGetValueType(v: V) -> T;
    pub fn LLVMGetReturnType(t: T) -> T;
    pub fn LLVMIsFunctionVarArg(t: T) -> c_int;
    pub fn LLVMCountParams(v: V) -> c_uint;
    pub fn LLVMGetParam(v: V, i: c_uint) -> V;
    pub fn LLVMIsDeclaration(v: V) -> c_int;
    pub fn LLVMGetFirstBasicBlock(v: V) -> B;
    pub fn LLVMGetNextBasicBlock(b: B) -> B;
    pub fn LLVMGetFirstInstruction(b: B) -> V;
    pub fn LLVMGetNextInstruction(i: V) -> V;
    pub fn LLVMGetInstructionOpcode(i: V) -> c_uint;
    pub fn LLVMGetNumOperands(v: V) -> c_int;
    pub fn LLVMGetOperand(v: V, i: c_uint) -> V;
    pub fn LLVMGetICmpPredicate(v: V) -> c_uint;
    pub fn LLVMGetFCmpPredicate(v: V) -> c_uint;
    pub fn LLVMGetAllocatedType(v: V) -> T;
    pub fn LLVMGetGEPSourceElementType(v: V) -> T;
    pub fn LLVMGetNumSuccessors(v: V) -> c_uint;
    pub fn LLVMGetSuccessor(v: V, i: c_uint) -> B;
    pub fn LLVMGetCondition(v: V) -> V;
    pub fn LLVMGetSwitchCaseValue(v: V, i: c_uint) -> V;
    pub fn LLVMGetSwitchDefaultDest(v: V) -> B;
    pub fn LLVMCountIncoming(v: V) -> c_uint;
    pub fn LLVMGetIncomingValue(v: V, i: c_uint) -> V;
    pub fn LLVMGetIncomingBlock(v: V, i: c_uint) -> B;
    pub fn LLVMGetCalledValue(v: V) -> V;
    pub fn LLVMGetNumArgOperands(v: V) -> c_uint;
    pub fn LLVMGetArgOperand(v: V, i: c_uint) -> V;
    pub fn LLVMGetNormalDest(v: V) -> B;
    pub fn LLVMGetNumIndices(v: V) -> c_uint;
    pub fn LLVMGetIndices(v: V) -> *const c_uint;
    pub fn LLVMGetAtomicRMWBinOp(v: V) -> c_uint;
    pub fn LLVMGetNumMaskElements(v: V) -> c_uint;
    pub fn LLVMGetMaskValue(v: V, i: c_uint) -> c_int;
    pub fn LLVMIsAFunction(v: V) -> V;
    pub fn LLVMIsAGlobalVariable(v: V) -> V;
    pub fn LLVMIsAGlobalAlias(v: V) -> V;
    pub fn LLVMIsAConstant(v: V) -> V;
    pub fn LLVMIsAConstantInt(v: V) -> V;
    pub fn LLVMIsAConstantFP(v: V) -> V;
    pub fn LLVMIsAConstantExpr(v: V) -> V;
    pub fn LLVMIsAConstantPointerNull(v: V) -> V;
    pub fn LLVMIsAConstantAggregateZero(v: V) -> V;
    pub fn LLVMIsAConstantDataSequential(v: V) -> V;
    pub fn LLVMIsAInlineAsm(v: V) -> V;
    pub fn LLVMIsUndef(v: V) -> c_int;
    pub fn LLVMIsNull(v: V) -> c_int;
    pub fn LLVMIsThreadLocal(v: V) -> c_int;
    pub fn LLVMGetConstOpcode(v: V) -> c_uint;
    pub fn LLVMConstIntGetZExtValue(v: V) -> u64;
    pub fn LLVMConstRealGetDouble(v: V, l: *mut c_int) -> f64;
    pub fn LLVMGetAggregateElement(v: V, i: c_uint) -> V;
    pub fn LLVMGetAsString(v: V, n: *mut usize) -> *const c_char;
    pub fn LLVMIsConstantString(v: V) -> c_int;
    pub fn LLVMGetInitializer(v: V) -> V;
    pub fn LLVMIsGlobalConstant(v: V) -> c_int;
    pub fn LLVMAliasGetAliasee(v: V) -> V;
    pub fn LLVMGetLinkage(v: V) -> c_uint;
    pub fn LLVMPrintValueToString(v: V) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: T) -> *mut c_char;
    pub fn LLVMDisposeMessage(s: *mut c_char);
    pub fn LLVMGetBasicBlockName(b: B) -> *const c_char;
    pub fn LLVMValueIsBasicBlock(v: V) -> c_int;
    #[link_name = "_ZN4llvm11GlobalValue11materializeEv"]
    fn materialize_raw(ret: *mut *mut c_void, this: V);
    pub fn LLVMGetTypeByName2(c: *mut c_void, n: *const c_char) -> T;
}
pub fn materialize(v: V) {
    let mut e: *mut c_void = std::ptr::null_mut();
    unsafe { materialize_raw(&mut e, v) };
    let e = (e as usize) & !1;
    if e != 0 { eprintln!("llvm: cannot materialize {}", name(v)); std::process::exit(70); }
}
pub fn name(v: V) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn show(v: V) -> String {
    unsafe { let p = LLVMPrintValueToString(v); let s = CStr::from_ptr(p).to_string_lossy().into_owned(); LLVMDisposeMessage(p); s }
}
pub fn show_ty(v: T) -> String {
    unsafe { let p = LLVMPrintTypeToString(v); let s = CStr::from_ptr(p).to_string_lossy().into_owned(); LLVMDisposeMessage(p); s }
}
