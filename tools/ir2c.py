#!/usr/bin/env python3
"""ir2c: mechanical LLVM-IR -> C extraction for CBMC.

Input : one linked LLVM 18 bitcode module (the real crefl sources compiled by
        clang, linked with a specification TU).
Output: one C file in which every function reachable from the entry points is
        emitted instruction by instruction.

What is kept: every instruction, every branch, all memory accesses (with the
byte offsets and sizes the compiler computed), all integer widths (wrap-around
two's complement), IEEE floats, poison (an over-long shift, a signed overflow
flagged nsw/nuw, ctlz of zero with the poison flag ... yields an arbitrary
value).
What is dropped: names of locals, source lines, alignment, 'inbounds'/TBAA/
'noundef' and other attributes, debug/lifetime intrinsics.
"""
import ctypes as C, sys, re, json, os

L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
VP = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
CtxCreate=_f('LLVMContextCreate',VP)
MBFile=_f('LLVMCreateMemoryBufferWithContentsOfFile',C.c_int,C.c_char_p,C.POINTER(VP),C.POINTER(C.c_char_p))
ParseIR=_f('LLVMParseIRInContext',C.c_int,VP,VP,C.POINTER(VP),C.POINTER(C.c_char_p))
FirstFunction=_f('LLVMGetFirstFunction',VP,VP); NextFunction=_f('LLVMGetNextFunction',VP,VP)
NamedFunction=_f('LLVMGetNamedFunction',VP,VP,C.c_char_p)
FirstGlobal=_f('LLVMGetFirstGlobal',VP,VP); NextGlobal=_f('LLVMGetNextGlobal',VP,VP)
GlobInit=_f('LLVMGetInitializer',VP,VP)
IsDecl=_f('LLVMIsDeclaration',C.c_int,VP)
GlobValTy=_f('LLVMGlobalGetValueType',VP,VP)
IsConstGlobal=_f('LLVMIsGlobalConstant',C.c_int,VP)
ValName=_f('LLVMGetValueName2',C.POINTER(C.c_char),VP,C.POINTER(C.c_size_t))
TypeOf=_f('LLVMTypeOf',VP,VP); TypeKind=_f('LLVMGetTypeKind',C.c_int,VP)
IntWidth=_f('LLVMGetIntTypeWidth',C.c_uint,VP)
RetTy=_f('LLVMGetReturnType',VP,VP); CountParamTys=_f('LLVMCountParamTypes',C.c_uint,VP)
GetParamTys=_f('LLVMGetParamTypes',None,VP,C.POINTER(VP)); IsVarArg=_f('LLVMIsFunctionVarArg',C.c_int,VP)
StructN=_f('LLVMCountStructElementTypes',C.c_uint,VP); StructAt=_f('LLVMStructGetTypeAtIndex',VP,VP,C.c_uint)
IsPacked=_f('LLVMIsPackedStruct',C.c_int,VP); StructName=_f('LLVMGetStructName',C.c_char_p,VP)
ElemTy=_f('LLVMGetElementType',VP,VP); ArrLen=_f('LLVMGetArrayLength2',C.c_uint64,VP)
CountParams=_f('LLVMCountParams',C.c_uint,VP); GetParam=_f('LLVMGetParam',VP,VP,C.c_uint)
FirstBB=_f('LLVMGetFirstBasicBlock',VP,VP); NextBB=_f('LLVMGetNextBasicBlock',VP,VP); EntryBB=_f('LLVMGetEntryBasicBlock',VP,VP)
FirstInst=_f('LLVMGetFirstInstruction',VP,VP); NextInst=_f('LLVMGetNextInstruction',VP,VP)
Terminator=_f('LLVMGetBasicBlockTerminator',VP,VP)
NumSucc=_f('LLVMGetNumSuccessors',C.c_uint,VP); GetSucc=_f('LLVMGetSuccessor',VP,VP,C.c_uint)
Opcode=_f('LLVMGetInstructionOpcode',C.c_int,VP); ConstOpcode=_f('LLVMGetConstOpcode',C.c_int,VP)
NumOps=_f('LLVMGetNumOperands',C.c_int,VP); GetOp=_f('LLVMGetOperand',VP,VP,C.c_uint)
ICmpPred=_f('LLVMGetICmpPredicate',C.c_int,VP); FCmpPred=_f('LLVMGetFCmpPredicate',C.c_int,VP)
CountIncoming=_f('LLVMCountIncoming',C.c_uint,VP); InVal=_f('LLVMGetIncomingValue',VP,VP,C.c_uint); InBB=_f('LLVMGetIncomingBlock',VP,VP,C.c_uint)
NumIdx=_f('LLVMGetNumIndices',C.c_uint,VP); GetIdx=_f('LLVMGetIndices',C.POINTER(C.c_uint),VP)
GEPSrcTy=_f('LLVMGetGEPSourceElementType',VP,VP)
AllocTy=_f('LLVMGetAllocatedType',VP,VP)
CalledVal=_f('LLVMGetCalledValue',VP,VP); CalledFnTy=_f('LLVMGetCalledFunctionType',VP,VP)
NumArgOps=_f('LLVMGetNumArgOperands',C.c_uint,VP)
CIntZ=_f('LLVMConstIntGetZExtValue',C.c_uint64,VP)
GetNSW=_f('LLVMGetNSW',C.c_int,VP); GetNUW=_f('LLVMGetNUW',C.c_int,VP); GetExact=_f('LLVMGetExact',C.c_int,VP)
ModDL=_f('LLVMGetModuleDataLayout',VP,VP)
ABISize=_f('LLVMABISizeOfType',C.c_uint64,VP,VP); OffElem=_f('LLVMOffsetOfElement',C.c_uint64,VP,VP,C.c_uint)
StoreSize=_f('LLVMStoreSizeOfType',C.c_uint64,VP,VP)
PrintVal=_f('LLVMPrintValueToString',VP,VP); PrintTy=_f('LLVMPrintTypeToString',VP,VP)
IsUndef=_f('LLVMIsUndef',C.c_int,VP); IsPoison=_f('LLVMIsPoison',C.c_int,VP)
IsNull=_f('LLVMIsNull',C.c_int,VP)
ValueKind=_f('LLVMGetValueKind',C.c_int,VP)
ConstStr=_f('LLVMGetAsString',C.POINTER(C.c_char),VP,C.POINTER(C.c_size_t)); IsConstStr=_f('LLVMIsConstantString',C.c_int,VP)
AggElem=_f('LLVMGetAggregateElement',VP,VP,C.c_uint)
ConstRealD=_f('LLVMConstRealGetDouble',C.c_double,VP,C.POINTER(C.c_int))
SwitchDefault=_f('LLVMGetSwitchDefaultDest',VP,VP)
IntrinID=_f('LLVMGetIntrinsicID',C.c_uint,VP)
SizeOfBits=_f('LLVMSizeOfTypeInBits',C.c_uint64,VP,VP)
AliasAliasee=_f('LLVMAliasGetAliasee',VP,VP)

# value kinds
VK=dict(enumerate("Argument BasicBlock MemoryUse MemoryDef MemoryPhi Function GlobalAlias GlobalIFunc GlobalVariable BlockAddress ConstantExpr ConstantArray ConstantStruct ConstantVector Undef ConstAggZero ConstDataArray ConstDataVector ConstInt ConstFP ConstNull ConstTokenNone MetadataAs InlineAsm Instruction Poison ConstTargetNone".split()))
TK="void half float double x86_fp80 fp128 ppc_fp128 label int function struct array pointer vector metadata x86_mmx token svector bfloat x86_amx targetext".split()
OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',66:'fneg',68:'freeze'}
ICMP={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP="false oeq ogt oge olt ole one ord uno ueq ugt uge ult ule une true".split()

class Unsupported(Exception): pass

def name_of(v):
    n=C.c_size_t(); p=ValName(v,C.byref(n)); return C.string_at(p,n.value).decode('utf8','replace')
def vstr(v): return C.string_at(PrintVal(v)).decode('utf8','replace')
def paramattrs(f,k):
    line=[x for x in vstr(f).splitlines() if x.startswith(('define','declare'))][0]
    a=line[line.index('(')+1:]; d=0; out=[]; cur=''
    for ch in a:
        if ch=='(': d+=1
        if ch==')':
            if d==0: break
            d-=1
        if ch==',' and d==0: out.append(cur); cur=''; continue
        cur+=ch
    out.append(cur); return out[k]
def tstr(t): return C.string_at(PrintTy(t)).decode('utf8','replace')
def mangle(n): return re.sub(r'[^A-Za-z0-9_]','_',n)

# external functions we let CBMC's own library (or the prelude) model
LIBC={'malloc':'ptr vf_malloc(uint64_t)','free':'void vf_free(ptr)','realloc':'ptr vf_realloc(ptr,uint64_t)','calloc':None,
 'memcmp':'uint32_t vf_memcmp(ptr,ptr,uint64_t)','strlen':'uint64_t vf_strlen(ptr)','abort':'void vf_abort(void)',
 'memchr':'ptr vf_memchr(ptr,uint32_t,uint64_t)','strcmp':'uint32_t vf_strcmp(ptr,ptr)',
 'memcpy':None,'memset':None,'isdigit':None}

PRELUDE=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'prelude.c')).read()

class Mod:
    def __init__(s, path, repl=None, entry=None, cuts=None, track=False):
        s.track=track
        s.ctx=CtxCreate(); mb=VP(); err=C.c_char_p()
        if MBFile(path.encode(),C.byref(mb),C.byref(err)): raise SystemExit('read %s: %s'%(path,err.value))
        s.m=VP()
        if ParseIR(s.ctx,mb,C.byref(s.m),C.byref(err)): raise SystemExit('parse %s: %s'%(path,err.value))
        s.dl=ModDL(s.m)
        s.repl=repl or {}          # function name -> replacement function name (contract stub)
        s.types=[]; s.tnames={}    # emitted struct typedefs
        s.gl={}; s.gout=[]; s.gdecl=[]; s.fdone={}; s.work=[]; s.fout=[]; s.fproto=[]; s.names={}; s.used=set()
        s.externs=set(); s.stubbed=set(); s.stats=dict(functions=[],instructions=0)
        s.cuts={}; s.cutinfo=[]; s.cutmiss=[]
        for c in (cuts or []):
            fn,k,nm=c.split(':'); s.cuts.setdefault(fn,[]).append((int(k),nm))
        s.instr=bool(s.cuts)
        if s.cuts:
            # the functions whose loops are cut keep their locals in memory (the invariants name
            # them); everything else is put in SSA form
            AddAttr=_f('LLVMAddAttributeAtIndex',None,VP,C.c_uint,VP); CrEnum=_f('LLVMCreateEnumAttribute',VP,VP,C.c_uint,C.c_uint64)
            KId=_f('LLVMGetEnumAttributeKindForName',C.c_uint,C.c_char_p,C.c_size_t)
            f=FirstFunction(s.m)
            while f:
                if name_of(f) in s.cuts:
                    for a in (b'optnone',b'noinline'): AddAttr(f,0xffffffff,CrEnum(s.ctx,KId(a,len(a)),0))
                f=NextFunction(f)
            opts=_f('LLVMCreatePassBuilderOptions',VP)()
            er=_f('LLVMRunPasses',VP,VP,C.c_char_p,VP,VP)(s.m,b'function(sroa)',None,opts)
            if er: raise SystemExit('sroa failed')
        s.funcs={}
        f=FirstFunction(s.m)
        while f: s.funcs[name_of(f)]=f; f=NextFunction(f)
    # ---- types
    def ct(s,t):
        k=TK[TypeKind(t)]
        if k=='void': return 'void'
        if k=='int':
            w=IntWidth(t)
            if w==1: return '_Bool'
            if w in(8,16,32,64): return 'uint%d_t'%w
            if w==128: return 'u128'
            return s.bv(w)
        if k=='float': return 'float'
        if k=='double': return 'double'
        if k=='pointer': return 'ptr'
        if k in('struct','array','vector'): return s.agg(t)
        raise Unsupported('type '+tstr(t))
    def bv(s,w):
        n='ubv%d'%w
        if n not in s.tnames:
            s.tnames[n]=1; s.types.append('typedef unsigned __CPROVER_bitvector[%d] %s; typedef signed __CPROVER_bitvector[%d] s%s;'%(w,n,w,n))
        return n
    def agg(s,t):
        k=TK[TypeKind(t)]; key=('agg',tstr(t) if not(k=='struct' and StructName(t)) else t)
        if key in s.tnames: return s.tnames[key]
        n='T%d'%len(s.tnames); s.tnames[key]=n
        if k=='struct':
            fs=[]
            for i in range(StructN(t)): fs.append('%s f%d;'%(s.ct(StructAt(t,i)),i))
            pk=' __attribute__((packed))' if IsPacked(t) else ''
            if not fs: fs=['char dummy[0];']
            s.types.append('typedef struct%s { %s } %s;'%(pk,' '.join(fs),n))
        else:
            ln=ArrLen(t) if k=='array' else _f('LLVMGetVectorSize',C.c_uint,VP)(t)
            s.types.append('typedef struct { %s a[%d]; } %s;'%(s.ct(ElemTy(t)),ln,n))
        return n
    def sct(s,t):
        w=IntWidth(t)
        if w==1: raise Unsupported('signed i1')
        if w in(8,16,32,64): return 'int%d_t'%w
        if w==128: return 's128'
        return 's'+s.bv(w)
    # ---- constants
    def fname(s,f):
        n=name_of(f); rn=n if n in s.repl else re.sub(r'\.\d+$','',n)
        k='%s>%s'%(getattr(s,'curfn',''),rn)      # caller>callee=stub: calls from that caller only
        if k in s.repl and s.repl[k] in s.funcs:
            s.stubbed.add('%s in %s by %s'%(rn,s.curfn,s.repl[k])); f=s.funcs[s.repl[k]]; n=name_of(f)
        elif rn in s.repl and s.repl[rn] in s.funcs:
            s.stubbed.add('%s by %s'%(rn,s.repl[rn])); f=s.funcs[s.repl[rn]]; n=name_of(f)
        if IsDecl(f):
            return s.extern(n,f)
        if n not in s.fdone:
            s.fdone[n]='F_'+mangle(n); s.work.append(f)
        return s.fdone[n]
    def extern(s,n,f):
        if n in s.EXT: s.externs.add(n); return s.EXT[n]
        if n.startswith('nd_') or n.startswith('__vf_'): s.externs.add(n); return n
        s.externs.add('UNMODELLED '+n)
        t=GlobValTy(f); cn='X_'+mangle(n)
        if cn not in s.used:
            s.used.add(cn)
            ps=(VP*max(1,CountParamTys(t)))(); GetParamTys(t,ps)
            args=[s.ct(ps[i])+' a%d'%i for i in range(CountParamTys(t))]
            s.fproto.append('/* unmodelled external %s: reaching it is a failed obligation */'%n)
            rt=s.ct(RetTy(t))
            s.fproto.append('%s %s(%s);'%(rt,cn,', '.join(args)+(', ...' if IsVarArg(t) and args else '') or 'void'))
            body='VF_ASSERT(0,"[extern] unmodelled external function %s reached"); __CPROVER_assume(0);'%n
            s.fout.append('%s %s(%s)\n{ %s %s }\n'%(rt,cn,', '.join(args)+(', ...' if IsVarArg(t) and args else '') or 'void',body,'' if rt=='void' else rt+' r; return r;'))
        return cn
    EXT={'malloc':'vf_malloc','free':'vf_free','realloc':'vf_realloc','calloc':'vf_calloc','memcmp':'vf_memcmp','bcmp':'vf_memcmp','strlen':'vf_strlen','abort':'vf_abort','memcpy':'vf_memcpy_','memmove':'vf_memmove_','memset':'vf_memset_','strcmp':'vf_strcmp','isdigit':'vf_isdigit','_Znwm':'vf_malloc','_ZdlPv':'vf_free','_ZdlPvm':'vf_free2','memchr':'vf_memchr','fprintf':'vf_fprintf','printf':'vf_printf','fwrite':'vf_fwrite','__vf_assume':'__CPROVER_assume','putchar':'vf_putchar','puts':'vf_puts'}
    def gname(s,g):
        n=name_of(g)
        if n in s.gl: return s.gl[n]
        base='G_'+mangle(n) if n else 'G_anon'
        cn=base; i=0
        while cn in s.used: i+=1; cn='%s_%d'%(base,i)
        s.used.add(cn); s.gl[n]=cn
        t=GlobValTy(g)
        ty=s.ct(t)
        s.gdecl.append('extern %s %s;'%(ty,cn))
        if IsDecl(g):
            s.gout.append('%s %s; /* external global: zero-initialised stand-in, never read by value */'%(ty,cn))
        else:
            s.gout.append('%s %s = %s;'%(ty,cn,s.cinit(GlobInit(g),t)))
        return cn
    def cinit(s,v,t):
        k=TK[TypeKind(t)]
        if k in('struct','array','vector'):
            vk=VK[ValueKind(v)]
            if vk in('ConstAggZero','Undef','Poison') or IsNull(v): return '{0}'
            n=StructN(t) if k=='struct' else (ArrLen(t) if k=='array' else _f('LLVMGetVectorSize',C.c_uint,VP)(t))
            if k=='array' and IsConstStr(v):
                ln=C.c_size_t(); p=ConstStr(v,C.byref(ln)); b=C.string_at(p,ln.value)
                return '{{%s}}'%','.join(map(str,b))
            el=[s.cinit(AggElem(v,i),StructAt(t,i) if k=='struct' else ElemTy(t)) for i in range(n)]
            return '{%s}'%','.join(el) if k=='struct' else '{{%s}}'%','.join(el)
        return s.const(v,init=True)
    def const(s,v,init=False):
        t=TypeOf(v); vk=VK[ValueKind(v)]; k=TK[TypeKind(t)]
        if vk=='ConstInt':
            w=IntWidth(t)
            if w==1: return '1' if CIntZ(v) else '0'
            if w<=32: return '%dU'%CIntZ(v) if w==32 else '((%s)%dU)'%(s.ct(t),CIntZ(v))
            if w<=64: return '%dULL'%CIntZ(v) if w==64 else '((%s)%dULL)'%(s.ct(t),CIntZ(v))
            m=re.match(r'i\d+ (-?\d+)',vstr(v)); x=int(m.group(1))%(1<<w)
            return '((((%s)%dULL)<<64)|%dULL)'%(s.ct(t),x>>64,x&((1<<64)-1))
        if vk=='ConstFP':
            loses=C.c_int(); d=ConstRealD(v,C.byref(loses))
            if d!=d or d in(float('inf'),float('-inf')):
                import struct
                txt=vstr(v); m=re.search(r'0x([0-9A-F]+)',txt); bits=int(m.group(1),16)
                if k=='double': return 'vf_f64_bits(%dULL)'%bits
                dd=struct.unpack('>d',struct.pack('>Q',bits))[0]
                # float constants are printed as doubles
                sign=bits>>63; mant=(bits>>29)&0x7fffff
                return 'vf_f32_bits(%dU)'%((sign<<31)|0x7f800000|mant)
            return d.hex() if k=='double' else '((float)%s)'%d.hex()
        if vk=='ConstNull': return '((ptr)0)'
        if vk=='Function': return '((ptr)&%s)'%s.fname(v)
        if vk=='GlobalVariable': return '((ptr)&%s)'%s.gname(v)
        if vk=='GlobalAlias': return s.const(AliasAliasee(v))
        if vk in('Undef','Poison'):
            if init: return '0'
            return s.poison(t)
        if vk=='ConstAggZero': return '((%s){0})'%s.ct(t)
        if vk in('ConstantStruct','ConstantArray','ConstDataArray','ConstDataVector','ConstantVector'):
            return '((%s)%s)'%(s.ct(t),s.cinit(v,t))
        if vk=='ConstantExpr':
            op=OPC.get(ConstOpcode(v))
            return s.expr(op,v,t,lambda x:s.const(x),True)
        raise Unsupported('constant '+vstr(v))
    def poison(s,t):
        c=s.ct(t)
        n='poison_'+mangle(c)
        if n not in s.used:
            s.used.add(n); s.fproto.append('static inline %s %s(void) { %s poison; return poison; }'%(c,n,c))
        return n+'()'
    # ---- expressions
    def gep(s,v,val):
        src=GEPSrcTy(v); n=NumOps(v); base=val(GetOp(v,0)); off=0; terms=[]
        t=src
        for i in range(1,n):
            ix=GetOp(v,i)
            if i==1: sz=ABISize(s.dl,t)
            else:
                k=TK[TypeKind(t)]
                if k=='struct':
                    j=CIntZ(ix); off+=OffElem(s.dl,t,j); t=StructAt(t,j); continue
                t=ElemTy(t); sz=ABISize(s.dl,t)
            if VK[ValueKind(ix)]=='ConstInt':
                w=IntWidth(TypeOf(ix)); x=CIntZ(ix)
                if x>>(w-1): x-=1<<w
                off+=x*sz
            else:
                w=IntWidth(TypeOf(ix))
                e=val(ix)
                if w<64: e='(uint64_t)(int64_t)(%s)%s'%(s.sct(TypeOf(ix)),e)
                terms.append('%s*%dULL'%(e,sz) if sz!=1 else e)
        # pointer arithmetic stays pointer arithmetic (base + signed offset)
        if off or not terms: terms.append('%d'%off if off else '0')
        if terms==['0']: return base
        return '(%s + (int64_t)(%s))'%(base,' + '.join('(int64_t)(%s)'%x if not re.match(r'^-?\d+$',x) else x for x in terms))
    def expr(s,op,v,t,val,const=False):
        o=lambda i: val(GetOp(v,i))
        c=s.ct(t)
        if op in('add','sub','mul','and','or','xor','udiv','urem','sdiv','srem','shl','lshr','ashr'):
            a,b=o(0),o(1); w=IntWidth(t)
            if w==1:
                if op in('add','sub','xor'): return '(_Bool)(%s ^ %s)'%(a,b)
                if op in('and','mul'): return '(_Bool)(%s & %s)'%(a,b)
                if op=='or': return '(_Bool)(%s | %s)'%(a,b)
                raise Unsupported('i1 '+op)
            if TK[TypeKind(t)]!='int': raise Unsupported('vector op')
            sc=s.sct(t)
            if op in('and','or','xor'): return '(%s)(%s %s %s)'%(c,a,{'and':'&','or':'|','xor':'^'}[op],b)
            if op in('add','sub','mul'):
                sym={'add':'+','sub':'-','mul':'*'}[op]; ov={'add':'plus','sub':'minus','mul':'mult'}[op]
                e='(%s)(%s %s %s)'%(c,a,sym,b)
                if op=='mul' and w==64 and all(VK[ValueKind(GetOp(v,i))]!='ConstInt' for i in(0,1)): e='VF_MUL64(%s,%s)'%(a,b)
                conds=[]
                if not const:
                    if GetNSW(v): conds.append('__CPROVER_overflow_%s((%s)%s,(%s)%s)'%(ov,sc,a,sc,b))
                    if GetNUW(v): conds.append('__CPROVER_overflow_%s(%s,%s)'%(ov,a,b))
                if conds: e='((%s) ? %s : %s)'%(' || '.join(conds),s.poison(t),e)
                return e
            if op in('udiv','urem'):
                s.pend.append('VF_ASSERT((%s)!=0,"[ub] division by zero");'%b)
                return '(%s)(%s %s %s)'%(c,a,'/' if op=='udiv' else '%',b)
            if op in('sdiv','srem'):
                s.pend.append('VF_ASSERT((%s)!=0,"[ub] division by zero");'%b)
                return '(%s)((%s)%s %s (%s)%s)'%(c,sc,a,'/' if op=='sdiv' else '%',sc,b)
            cb=VK[ValueKind(GetOp(v,1))]=='ConstInt' and CIntZ(GetOp(v,1))<w
            if op=='shl': e='(%s)(%s << %s)'%(c,a,b) if w>=32 else '(%s)((uint32_t)%s << %s)'%(c,a,b)
            elif op=='lshr': e='(%s)(%s >> %s)'%(c,a,b)
            else: e='(%s)((%s)%s >> %s)'%(c,sc,a,b)
            if not cb: e='((%s) < %d ? %s : %s)'%(b,w,e,s.poison(t))
            return e
        if op in('fadd','fsub','fmul','fdiv'):
            return '(%s %s %s)'%(o(0),{'fadd':'+','fsub':'-','fmul':'*','fdiv':'/'}[op],o(1))
        if op=='fneg': return '(-%s)'%o(0)
        if op=='trunc':
            return '(_Bool)((%s)&1)'%o(0) if c=='_Bool' else '(%s)%s'%(c,o(0))
        if op=='zext': return '(%s)%s'%(c,o(0))
        if op=='sext':
            st=TypeOf(GetOp(v,0))
            if IntWidth(st)==1: return '(%s)(-(%s)%s)'%(c,s.sct(t),o(0))
            return '(%s)(%s)(%s)%s'%(c,s.sct(t),s.sct(st),o(0))
        if op=='fptoui': return '(%s)%s'%(c,o(0))
        if op=='fptosi': return '(%s)(%s)%s'%(c,s.sct(t),o(0))
        if op=='uitofp': return '(%s)%s'%(c,o(0))
        if op=='sitofp': return '(%s)(%s)%s'%(c,s.sct(TypeOf(GetOp(v,0))),o(0))
        if op in('fptrunc','fpext'): return '(%s)%s'%(c,o(0))
        if op=='ptrtoint': return '(%s)(uint64_t)%s'%(c,o(0))
        if op=='inttoptr': return '(ptr)(uint64_t)%s'%o(0)
        if op=='bitcast':
            a=s.ct(TypeOf(GetOp(v,0)))
            if a==c: return o(0)
            m={('uint64_t','double'):'vf_f64_bits',('double','uint64_t'):'vf_bits_f64',('uint32_t','float'):'vf_f32_bits',('float','uint32_t'):'vf_bits_f32'}
            if (a,c) in m: return '%s(%s)'%(m[(a,c)],o(0))
            raise Unsupported('bitcast %s->%s'%(a,c))
        if op=='gep': return s.gep(v,val)
        if op=='icmp':
            p=ICMP[ICmpPred(v)]; a,b=o(0),o(1); ot=TypeOf(GetOp(v,0))
            sym={'eq':'==','ne':'!=','gt':'>','ge':'>=','lt':'<','le':'<='}[p[-2:]]
            if TK[TypeKind(ot)]=='pointer':
                return '(_Bool)(%s %s %s)'%(a,sym,b)
            if p[0]=='s' : return '(_Bool)((%s)%s %s (%s)%s)'%(s.sct(ot),a,sym,s.sct(ot),b)
            return '(_Bool)(%s %s %s)'%(a,sym,b)
        if op=='fcmp':
            p=FCMP[FCmpPred(v)]; a,b=o(0),o(1)
            un='(__CPROVER_isnand(%s)||__CPROVER_isnand(%s))'%(a,b) if s.ct(TypeOf(GetOp(v,0)))=='double' else '(__CPROVER_isnanf(%s)||__CPROVER_isnanf(%s))'%(a,b)
            if p=='true': return '1'
            if p=='false': return '0'
            if p=='uno': return un
            if p=='ord': return '(!%s)'%un
            sym={'eq':'==','ne':'!=','gt':'>','ge':'>=','lt':'<','le':'<='}[p[-2:]]
            base='(%s %s %s)'%(a,sym,b)
            return '(_Bool)(%s %s %s)'%(un,'||',base) if p[0]=='u' else '(_Bool)(!%s && %s)'%(un,base)
        if op=='select': return '(%s ? %s : %s)'%(o(0),o(1),o(2))
        if op=='freeze': return o(0)
        raise Unsupported('op %s: %s'%(op,vstr(v)))
    # ---- functions
    def sig(s,f,cn):
        t=GlobValTy(f); n=CountParams(f)
        ps=['%s a%d'%(s.ct(TypeOf(GetParam(f,i))),i) for i in range(n)]
        if IsVarArg(t): ps.append('...')
        return '%s %s(%s)'%(s.ct(RetTy(t)),cn,', '.join(ps) or 'void')
    def emit_func(s,f):
        s.curfn=name_of(f)
        nm=name_of(f); cn=s.fdone[nm]
        s.stats['functions'].append(nm)
        s.fproto.append(s.sig(f,cn)+';')
        env={}; 
        for i in range(CountParams(f)): env[GetParam(f,i)]='a%d'%i
        # reverse post order
        order=[]; seen=set()
        st=[(EntryBB(f),0)]; seen.add(st[0][0])
        while st:
            b,i=st.pop(); t=Terminator(b); n=NumSucc(t)
            if i<n:
                st.append((b,i+1)); d=GetSucc(t,i)
                if d not in seen: seen.add(d); st.append((d,0))
            else: order.append(b)
        order.reverse()
        lab={b:'L%d'%i for i,b in enumerate(order)}
        decl=[]; body=[]; cnt=[0]
        pre=[]
        cutat,inloop,escaped=s.find_cuts(f,order) if s.instr else ({},{},set())
        frames=s.instr and not nm.startswith(('inv_','hav_','var_','vf_'))
        def val(v):
            if v in env: return env[v]
            return s.const(v)
        # first pass: allocate names
        for b in order:
            i=FirstInst(b)
            while i:
                t=TypeOf(i)
                if TK[TypeKind(t)]!='void':
                    n='v%d'%cnt[0]; cnt[0]+=1; env[i]=n
                    decl.append('%s %s;'%(s.ct(t),n))
                i=NextInst(i)
        def edge(frm,to):
            cp=[]
            i=FirstInst(to)
            while i and OPC.get(Opcode(i))=='phi':
                for k in range(CountIncoming(i)):
                    if InBB(i,k)==frm:
                        x=InVal(i,k)
                        e=val(x)
                        if e!=env[i]: cp.append((env[i],e,s.ct(TypeOf(i))))
                        break
                i=NextInst(i)
            out=''
            if len(cp)==1: out='%s = %s; '%(cp[0][0],cp[0][1])
            elif cp:
                srcs=[c[1] for c in cp]; dsts={c[0] for c in cp}
                if any(d in srcs for d in dsts) or any(re.search(r'\b%s\b'%re.escape(d),e) for d in dsts for e in srcs):
                    for d,e,ty in cp:
                        tn='p_'+d
                        if ('%s %s;'%(ty,tn)) not in decl: decl.append('%s %s;'%(ty,tn))
                        out+='%s = %s; '%(tn,e)
                    for d,e,ty in cp: out+='%s = p_%s; '%(d,d)
                else:
                    for d,e,ty in cp: out+='%s = %s; '%(d,e)
            for h,(nmc,blocks) in cutat.items():
                if frm in blocks and to not in blocks: out+='vf_cut_leave(); '
            if to in cutat: return out+'goto %s_%s;'%(lab[to],'back' if frm in cutat[to][1] else 'in')
            return out+'goto %s;'%lab[to]
        for b in order:
            if b in cutat: body+=s.emit_cut(f,b,cutat[b],env,lab,pre)
            body.append('%s:;'%lab[b])
            i=FirstInst(b)
            while i:
                op=OPC.get(Opcode(i)); t=TypeOf(i); s.stats['instructions']+=1
                s.pend=[]
                if op is None: raise Unsupported(vstr(i))
                if op=='phi': pass
                elif op=='alloca':
                    n=env[i]; at=AllocTy(i)
                    ne=GetOp(i,0)
                    if VK[ValueKind(ne)]!='ConstInt': raise Unsupported('dynamic alloca')
                    k=CIntZ(ne)
                    if k==1: decl.append('%s m_%s;'%(s.ct(at),n)); body.append('%s = (ptr)&m_%s;'%(n,n))
                    else: decl.append('%s m_%s[%d];'%(s.ct(at),n,k)); body.append('%s = (ptr)&m_%s[0];'%(n,n))
                    if frames and i in escaped: body.append('vf_cut_local(%s);'%n)
                elif op=='load':
                    c=s.ct(t); pv=val(GetOp(i,0)); cc='uint8_t' if c=='_Bool' else c
                    e='vf_ld_%s(%s)'%(cc,pv) if s.trk(env,GetOp(i,0),c) else '*(%s*)%s'%(cc,pv)
                    if c=='_Bool': e='(_Bool)(%s & 1)'%e
                    body.append('%s = %s;'%(env[i],e))
                elif op=='store':
                    c=s.ct(TypeOf(GetOp(i,0))); x=val(GetOp(i,0))
                    if c=='_Bool': c='uint8_t'; x='(uint8_t)'+x
                    if frames and not (GetOp(i,1) in env and OPC.get(Opcode(GetOp(i,1)))=='alloca' if VK[ValueKind(GetOp(i,1))]=='Instruction' else False): body.append('VF_STORE(%s);'%val(GetOp(i,1)))
                    body.append(('vf_st_%s(%s,%s);' if s.trk(env,GetOp(i,1),c) else '*(%s*)%s = %s;')%(c,val(GetOp(i,1)),x))
                elif op=='br':
                    if NumSucc(i)==1: body.append(edge(b,GetSucc(i,0)))
                    else:
                        # operands: cond, false, true
                        body.append('if (%s) { %s } else { %s }'%(val(GetOp(i,0)),edge(b,GetSucc(i,0)),edge(b,GetSucc(i,1))))
                elif op=='switch':
                    c=val(GetOp(i,0)); n=NumOps(i)
                    out=[]
                    for k in range(2,n,2):
                        cv=val(GetOp(i,k)); bbv=GetOp(i,k+1)
                        out.append('if (%s == %s) { %s }'%(c,cv,edge(b,s.asbb(bbv))))
                    out.append(edge(b,SwitchDefault(i)))
                    body.append(' else '.join(out[:-1])+(' else { %s }'%out[-1] if len(out)>1 else out[-1]))
                elif op=='ret':
                    for h,(nmc,blocks) in cutat.items():
                        if b in blocks: body.append('vf_cut_leave();')
                    if frames and escaped: body.append('vf_nloc = sv_loc;')
                    body.append('return%s;'%(' '+val(GetOp(i,0)) if NumOps(i) else ''))
                elif op=='unreachable':
                    body.append('VF_ASSERT(0,"[ub] unreachable code reached"); __CPROVER_assume(0);'+('' if s.ct(RetTy(GlobValTy(f)))=='void' else ' { %s r__; return r__; }'%s.ct(RetTy(GlobValTy(f)))))
                elif op=='extractvalue':
                    e=val(GetOp(i,0)); ag=TypeOf(GetOp(i,0)); ix=GetIdx(i)
                    for k in range(NumIdx(i)):
                        if TK[TypeKind(ag)]=='struct': e+='.f%d'%ix[k]; ag=StructAt(ag,ix[k])
                        else: e+='.a[%d]'%ix[k]; ag=ElemTy(ag)
                    body.append('%s = %s;'%(env[i],e))
                elif op=='insertvalue':
                    src=GetOp(i,0); ag=TypeOf(src); n=env[i]; ix=GetIdx(i)
                    if VK[ValueKind(src)] not in('Undef','Poison'): body.append('%s = %s;'%(n,val(src)))
                    e=n
                    for k in range(NumIdx(i)):
                        if TK[TypeKind(ag)]=='struct': e+='.f%d'%ix[k]; ag=StructAt(ag,ix[k])
                        else: e+='.a[%d]'%ix[k]; ag=ElemTy(ag)
                    body.append('%s = %s;'%(e,val(GetOp(i,1))))
                elif op=='call':
                    r=s.call(i,val)
                    if r:
                        body+=s.pend
                        if frames and r.startswith(('vf_mem','vf_free','vf_realloc')) and not r.startswith('vf_memc(') : body.append('VF_STORE(%s);'%val(GetOp(i,0)))
                        if TK[TypeKind(t)]=='void': body.append(r+';')
                        else: body.append('%s = %s;'%(env[i],r))
                else:
                    e=s.expr(op,i,t,val)
                    body+=s.pend
                    body.append('%s = %s;'%(env[i],e))
                i=NextInst(i)
        if frames and escaped: decl.append('int sv_loc = vf_nloc;')
        decl+=pre
        s.fout.append('%s\n{\n  %s\n  %s\n}\n'%(s.sig(f,cn),'\n  '.join(decl),'\n  '.join(body)))
    def trk(s,env,v,c):
        """may the access go to a tracked object?"""
        if not s.track or c not in('ptr','_Bool','uint8_t','uint16_t','uint32_t','uint64_t','float','double'): return False
        return not (VK[ValueKind(v)] in('GlobalVariable','ConstantExpr') or (VK[ValueKind(v)]=='Instruction' and OPC.get(Opcode(v))=='alloca'))
    # ---- loop invariants
    def find_cuts(s,f,order):
        """-> ({header: (name, blocks of the loop)}, {}, allocas whose address escapes)"""
        esc=set()
        for b in order:
            i=FirstInst(b)
            while i:
                op=OPC.get(Opcode(i))
                for k in range(NumOps(i)):
                    o=GetOp(i,k)
                    if VK[ValueKind(o)]=='Instruction' and OPC.get(Opcode(o))=='alloca' and not (op=='load' or (op=='store' and k==1)): esc.add(o)
                i=NextInst(i)
        nm=name_of(f); want=s.cuts.get(nm,[])
        if not want: return {},{},esc
        succ={b:[GetSucc(Terminator(b),k) for k in range(NumSucc(Terminator(b)))] for b in order}
        pred={b:[] for b in order}
        for b in order:
            for d in succ[b]: pred[d].append(b)
        # dominators (small functions: the simple algorithm)
        dom={b:set(order) for b in order}; dom[order[0]]={order[0]}; ch=True
        while ch:
            ch=False
            for b in order[1:]:
                n=set.intersection(*[dom[p] for p in pred[b]])|{b}
                if n!=dom[b]: dom[b]=n; ch=True
        loops={}
        for b in order:
            for d in succ[b]:
                if d in dom[b]:
                    bl=loops.setdefault(d,{d}); st=[b]
                    while st:
                        x=st.pop()
                        if x in bl: continue
                        bl.add(x); st+=pred[x]
        layout=[]; b=FirstBB(f)
        while b:
            if b in loops: layout.append(b)
            b=NextBB(b)
        out={}
        for k,name in want:
            if k>=len(layout): s.cutmiss.append('%s has no loop %d'%(nm,k)); continue
            if len(layout)!=len(s.cuts[nm]) and not any(x[1].endswith('_only') for x in want): pass
            out[layout[k]]=(name,loops[layout[k]])
        return out,{},esc
    def emit_cut(s,f,h,cut,env,lab,pre):
        name,blocks=cut; nm=name_of(f); L=lab[h]
        mod=[]; used=set()
        # every local the loop may modify
        names={}
        b=FirstBB(f)
        while b:
            i=FirstInst(b)
            while i:
                if OPC.get(Opcode(i))=='alloca': names[i]=name_of(i)
                i=NextInst(i)
            b=NextBB(b)
        b=FirstBB(f)
        while b:
            if b in blocks:
                i=FirstInst(b)
                while i:
                    op=OPC.get(Opcode(i))
                    for k in range(NumOps(i)):
                        o=GetOp(i,k)
                        if o in names:
                            used.add(o)
                            if op!='load' and o not in mod: mod.append(o)
                    i=NextInst(i)
            b=NextBB(b)
        # an address taken before the loop may be used inside it
        b=FirstBB(f)
        while b:
            i=FirstInst(b)
            while i:
                op=OPC.get(Opcode(i))
                for k in range(NumOps(i)):
                    o=GetOp(i,k)
                    if o in names and not (op=='load' or (op=='store' and k==1)) and o not in mod and op in('call','store','phi','select'): mod.append(o)
                i=NextInst(i)
            b=NextBB(b)
        def hook(kind,need):
            fn='%s_%s'%(kind,name)
            if fn not in s.funcs:
                if need: s.cutmiss.append('no '+fn)
                return None
            g=s.funcs[fn]; args=[]
            for k in range(CountParams(g)):
                pn=name_of(GetParam(g,k))
                m=re.search(r'dereferenceable\((\d+)\)',paramattrs(g,k)); sz=int(m.group(1)) if m else None
                cand=[a for a,n in names.items() if re.fullmatch(re.escape(pn)+r'(\.addr)?\d*',n) and (sz is None or ABISize(s.dl,AllocTy(a))==sz)]
                best=[a for a in cand if a in used] or cand
                if len(best)>1: best=[a for a in best if names[a] in(pn,pn+'.addr')] or best
                if len(best)!=1: s.cutmiss.append('%s: loop variable %s of %s %s'%(name,pn,nm,'not found' if not best else 'is ambiguous')); return None
                args.append(env[best[0]])
            return '%s(%s)'%(s.fname(g),', '.join(args))
        inv=hook('inv',True); hav=hook('hav',False); step=hook('step',False); var=hook('var',False)
        if inv is None: return ['%s_in:; %s_back:; VF_ASSERT(0,"[cut] loop %s not recognised"); __CPROVER_assume(0);'%(L,L,name)]
        s.cutinfo.append(dict(function=nm,invariant=name,loop_locals=[names[a] for a in mod],termination=bool(var)))
        if var: pre.append('uint64_t vr_%s;'%L)
        o=['%s_in:;'%L,
           'VF_ASSERT(%s,"[inv] %s holds when the loop is entered");'%(inv,name),'vf_cut_enter();']
        for a in mod: o.append('{ %s nd; m_%s = nd; } vf_cut_local_at(%s);'%(s.ct(AllocTy(a)),env[a],env[a]))
        if hav: o.append('F_vf_hook = 1; %s; F_vf_hook = 0;'%hav)
        o.append('__CPROVER_assume(%s);'%inv)
        if var: o.append('vr_%s = %s;'%(L,var))
        o.append('goto %s; %s_back:;'%(L,L))
        o.append('VF_COVER(0,"[cover] a pass through the loop %s");'%name)
        if step: o.append(step+';')
        o.append('VF_ASSERT(%s,"[inv] %s is preserved by an arbitrary pass");'%(inv,name))
        if var: o.append('VF_ASSERT(%s < vr_%s,"[inv] %s terminates");'%(var,L,name))
        o.append('__CPROVER_assume(0);')
        return o
    def asbb(s,v):
        return _f('LLVMValueAsBasicBlock',VP,VP)(v)
    def call(s,i,val):
        cv=CalledVal(i); n=NumArgOps(i)
        vk=VK[ValueKind(cv)]
        if vk=='Function':
            fn=name_of(cv)
            if fn.startswith('llvm.'): return s.intrin(fn,i,val,n)
            if fn=='__vf_assert' or fn=='__vf_cover':
                # second argument: constant string
                lab=s.cstr(GetOp(i,1))
                if fn=='__vf_assert': return 'VF_ASSERT(%s,"%s")'%(val(GetOp(i,0)),lab)
                return 'VF_COVER(!(%s),"[cover] %s")'%(val(GetOp(i,0)),lab)
            if fn=='__vf_in':
                lab=s.cstr(GetOp(i,0))
                return 'vf_in()'
            if fn=='__vf_case': return '((uint64_t)VF_CASE)'
            if fn=='__vf_ncases': return '((uint64_t)VF_NCASES)'
            if fn=='__vf_modifies': return 'vf_cut_allow(%s)'%val(GetOp(i,0)) if s.instr else None
            if fn=='__vf_track2': return 'vf_track2(%s)'%', '.join(val(GetOp(i,k)) for k in range(n))
            if fn=='__vf_track': return 'vf_track(%s)'%', '.join(val(GetOp(i,k)) for k in range(n))
            if fn=='__vf_opaque': return 'vf_opaque()'
            if fn=='__vf_written': return 'vf_twr' if s.track else '(_Bool)0'
            if fn in('__vf_tlen','__vf_tkill','__vf_tmove'): return '%s(%s)'%(fn[2:],val(GetOp(i,0))) if s.track else ('(uint64_t)0' if fn=='__vf_tlen' else None)
            if fn=='__vf_log': return 'vf_log(%s)'%val(GetOp(i,0))
            if fn=='__vf_assume': return '__CPROVER_assume(%s)'%val(GetOp(i,0))
            cn=s.fname(cv)
            return '%s(%s)'%(cn,', '.join(val(GetOp(i,k)) for k in range(n)))
        if vk=='InlineAsm': raise Unsupported('inline asm')
        ft=CalledFnTy(i); ps=(VP*max(1,CountParamTys(ft)))(); GetParamTys(ft,ps)
        tys=', '.join(s.ct(ps[k]) for k in range(CountParamTys(ft))) or 'void'
        return '((%s(*)(%s))%s)(%s)'%(s.ct(RetTy(ft)),tys,val(cv),', '.join(val(GetOp(i,k)) for k in range(n)))
    def cstr(s,v):
        # constant pointer to string global
        if VK[ValueKind(v)]=='ConstantExpr': v=GetOp(v,0)
        init=GlobInit(v); ln=C.c_size_t(); p=ConstStr(init,C.byref(ln))
        return C.string_at(p,ln.value).rstrip(b'\0').decode()
    def intrin(s,fn,i,val,n):
        o=lambda k: val(GetOp(i,k)); t=TypeOf(i); p=fn.split('.')
        base=p[1]
        if base in('lifetime','dbg','donothing','invariant','assume','experimental','stacksave','stackrestore','prefetch'): return None
        if base=='memcpy': return 'vf_memcpy(%s,%s,%s)'%(o(0),o(1),o(2))
        if base=='memmove': return 'vf_memmove(%s,%s,%s)'%(o(0),o(1),o(2))
        if base=='memset': return 'vf_memset(%s,%s,%s)'%(o(0),o(1),o(2))
        if base in('ctlz','cttz'):
            w=IntWidth(t); e='vf_%s%d(%s)'%(base,w,o(0))
            if VK[ValueKind(GetOp(i,1))]=='ConstInt' and CIntZ(GetOp(i,1)): e='(%s!=0 ? %s : %s)'%(o(0),e,s.poison(t))
            return e
        if base in('ctpop','bswap','bitreverse'): return 'vf_%s%d(%s)'%(base,IntWidth(t),o(0))
        if base in('fshl','fshr'): return 'vf_%s%d(%s,%s,%s)'%(base,IntWidth(t),o(0),o(1),o(2))
        if base in('umin','umax'):
            return '(%s %s %s ? %s : %s)'%(o(0),'<' if base=='umin' else '>',o(1),o(0),o(1))
        if base in('smin','smax'):
            c=s.sct(t); return '((%s)%s %s (%s)%s ? %s : %s)'%(c,o(0),'<' if base=='smin' else '>',c,o(1),o(0),o(1))
        if base=='abs':
            c=s.sct(t); return '((%s)%s < 0 ? (%s)(0-%s) : %s)'%(c,o(0),s.ct(t),o(0),o(0))
        if base in('uadd','usub','umul','sadd','ssub','smul') and p[2]=='with':
            ty=s.ct(t); w=s.ct(StructAt(t,0)); sym={'add':'+','sub':'-','mul':'*'}[base[1:]]; ov={'add':'plus','sub':'minus','mul':'mult'}[base[1:]]
            a,b=o(0),o(1)
            ca=a if base[0]=='u' else '(%s)%s'%(s.sct(StructAt(t,0)),a); cb=b if base[0]=='u' else '(%s)%s'%(s.sct(StructAt(t,0)),b)
            return '((%s){(%s)(%s %s %s),__CPROVER_overflow_%s(%s,%s)})'%(ty,w,a,sym,b,ov,ca,cb)
        if base=='fabs': return 'vf_fabs_%s(%s)'%(p[2],o(0))
        if base=='is' or base=='expect': return o(0)
        if base=='umul' : pass
        if base=='trap': return 'VF_ASSERT(0,"[ub] trap reached")'
        if base in('va_start','va_end','va_copy'): return None
        raise Unsupported('intrinsic '+fn)
    def run(s,entries):
        for e in entries:
            if e not in s.funcs: raise Unsupported('entry %s missing'%e)
            s.fname(s.funcs[e])
        while s.work:
            s.emit_func(s.work.pop())
        for e in entries:
            s.fout.append('void VF_%s(void) { F_%s(); VF_COVER(0,"[cover] end of the obligation group reached"); }\n'%(mangle(e),mangle(e)))
        return '\n'.join((['#define VF_TRACKING 1'] if s.track else [])+[PRELUDE]+s.types+s.gdecl+s.fproto+s.gout+s.fout)

if __name__=='__main__':
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument('bc'); ap.add_argument('-o'); ap.add_argument('-e',action='append'); ap.add_argument('-r',action='append',default=[]); ap.add_argument('-t',action='store_true'); ap.add_argument('-c',action='append',default=[])
    a=ap.parse_args()
    m=Mod(a.bc,dict(x.split('=') for x in a.r),cuts=a.c,track=a.t); src=m.run(a.e)
    for c in m.cuts:
        if c not in m.stats['functions']: m.cutmiss.append('function %s is not reached'%c)
    open(a.o,'w').write(src); print(json.dumps(dict(stubbed=sorted(m.stubbed),externs=sorted(m.externs),functions=m.stats['functions'],ins=m.stats['instructions'],cuts=m.cutinfo,cutmiss=m.cutmiss)))
