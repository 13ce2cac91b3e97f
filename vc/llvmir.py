"""Loads textual LLVM IR through the installed LLVM 18 C API (ctypes) into plain Python objects."""
import ctypes as C, os
LIB=os.environ.get('VC_LIBLLVM','/usr/lib/llvm-18/lib/libLLVM-18.so')
L=C.CDLL(LIB)
P=C.c_void_p
def fn(name,res,*args):
    f=getattr(L,name); f.restype=res; f.argtypes=list(args); return f
ctxCreate=fn('LLVMContextCreate',P)
createBuf=fn('LLVMCreateMemoryBufferWithContentsOfFile',C.c_int,C.c_char_p,C.POINTER(P),C.POINTER(C.c_char_p))
parseIR=fn('LLVMParseIRInContext',C.c_int,P,P,C.POINTER(P),C.POINTER(C.c_char_p))
firstF=fn('LLVMGetFirstFunction',P,P); nextF=fn('LLVMGetNextFunction',P,P)
firstG=fn('LLVMGetFirstGlobal',P,P); nextG=fn('LLVMGetNextGlobal',P,P)
firstBB=fn('LLVMGetFirstBasicBlock',P,P); nextBB=fn('LLVMGetNextBasicBlock',P,P)
firstI=fn('LLVMGetFirstInstruction',P,P); nextI=fn('LLVMGetNextInstruction',P,P)
valName=fn('LLVMGetValueName2',C.c_void_p,P,C.POINTER(C.c_size_t))
opcode=fn('LLVMGetInstructionOpcode',C.c_int,P)
numOps=fn('LLVMGetNumOperands',C.c_int,P); getOp=fn('LLVMGetOperand',P,P,C.c_uint)
typeOf=fn('LLVMTypeOf',P,P); typeKind=fn('LLVMGetTypeKind',C.c_int,P)
intW=fn('LLVMGetIntTypeWidth',C.c_uint,P)
valKind=fn('LLVMGetValueKind',C.c_int,P)
zext=fn('LLVMConstIntGetZExtValue',C.c_ulonglong,P)
constOpc=fn('LLVMGetConstOpcode',C.c_int,P)
gepTy=fn('LLVMGetGEPSourceElementType',P,P)
icmpPred=fn('LLVMGetICmpPredicate',C.c_int,P)
fcmpPred=fn('LLVMGetFCmpPredicate',C.c_int,P)
cntInc=fn('LLVMCountIncoming',C.c_uint,P); incVal=fn('LLVMGetIncomingValue',P,P,C.c_uint); incBB=fn('LLVMGetIncomingBlock',P,P,C.c_uint)
numIdx=fn('LLVMGetNumIndices',C.c_uint,P); idxs=fn('LLVMGetIndices',C.POINTER(C.c_uint),P)
allocTy=fn('LLVMGetAllocatedType',P,P); gValTy=fn('LLVMGlobalGetValueType',P,P)
cntParams=fn('LLVMCountParams',C.c_uint,P); getParam=fn('LLVMGetParam',P,P,C.c_uint)
isDecl=fn('LLVMIsDeclaration',C.c_int,P)
called=fn('LLVMGetCalledValue',P,P); numArg=fn('LLVMGetNumArgOperands',C.c_uint,P)
dlOf=fn('LLVMGetModuleDataLayout',P,P)
abiSize=fn('LLVMABISizeOfType',C.c_ulonglong,P,P); storeSize=fn('LLVMStoreSizeOfType',C.c_ulonglong,P,P)
abiAlign=fn('LLVMABIAlignmentOfType',C.c_uint,P,P)
offElem=fn('LLVMOffsetOfElement',C.c_ulonglong,P,P,C.c_uint)
structN=fn('LLVMCountStructElementTypes',C.c_uint,P); structE=fn('LLVMStructGetTypeAtIndex',P,P,C.c_uint)
arrLen=fn('LLVMGetArrayLength',C.c_uint,P); elTy=fn('LLVMGetElementType',P,P)
dbgLine=fn('LLVMGetDebugLocLine',C.c_uint,P); dbgFile=fn('LLVMGetDebugLocFilename',C.c_void_p,P,C.POINTER(C.c_uint))
initOf=fn('LLVMGetInitializer',P,P); isConstG=fn('LLVMIsGlobalConstant',C.c_int,P)
rmwOp=fn('LLVMGetAtomicRMWBinOp',C.c_int,P); ordering=fn('LLVMGetOrdering',C.c_int,P)
cxS=fn('LLVMGetCmpXchgSuccessOrdering',C.c_int,P)
valAsBB=fn('LLVMValueAsBasicBlock',P,P); bbAsVal=fn('LLVMBasicBlockAsValue',P,P)
condOf=fn('LLVMGetCondition',P,P); isCond=fn('LLVMIsConditional',C.c_int,P)
numSucc=fn('LLVMGetNumSuccessors',C.c_uint,P); getSucc=fn('LLVMGetSuccessor',P,P,C.c_uint)
aggElem=fn('LLVMGetAggregateElement',P,P,C.c_uint)
isNullC=fn('LLVMIsNull',C.c_int,P); isUndef=fn('LLVMIsUndef',C.c_int,P)
exactF=fn('LLVMGetExact',C.c_int,P); nswF=fn('LLVMGetNSW',C.c_int,P)
retTy=fn('LLVMGetReturnType',P,P)
prt=fn('LLVMPrintValueToString',C.c_void_p,P)
intrID=fn('LLVMGetIntrinsicID',C.c_uint,P)

OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',
27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',
45:'call',46:'select',52:'extractelement',53:'insertelement',54:'shufflevector',55:'fence',56:'cmpxchg',57:'atomicrmw',
50:'extractelement',51:'insertelement',53:'extractvalue',54:'insertvalue',68:'freeze',66:'fneg'}
# the authoritative numbering (llvm-c/Core.h)
OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',
42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',
53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
PRED={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
ORD={0:'na',1:'unordered',2:'monotonic',4:'acquire',5:'release',6:'acq_rel',7:'seq_cst'}
RMW={0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin'}

class Ty:
    __slots__=('kind','w','size','align','fields','offs','el','n','store')
    # kind: int ptr struct array void float vec other
    def __repr__(s): return f'{s.kind}{s.w if s.kind=="int" else ""}'

class Inst:
    __slots__=('op','ty','ops','id','x','line','file','blk','idx','ref')
class Block:
    __slots__=('name','insts','id','succs','preds','fn')
class Func:
    __slots__=('name','args','blocks','decl','retty','loops','ipdom','entry','modsum')
class Global:
    __slots__=('name','ty','init','const','ext')

class Module:
    def __init__(self,path):
        self.ctx=ctxCreate()
        buf=P(); msg=C.c_char_p()
        if createBuf(path.encode(),C.byref(buf),C.byref(msg)): raise RuntimeError(msg.value)
        m=P()
        if parseIR(self.ctx,buf,C.byref(m),C.byref(msg)): raise RuntimeError(msg.value)
        self.m=m; self.dl=dlOf(m); self.tys={}
        self.funcs={}; self.globals={}
        self._fref={}
        f=firstF(m); raw=[]
        while f:
            raw.append(f); f=nextF(f)
        for f in raw:
            fo=Func(); fo.name=self.name(f); fo.decl=bool(isDecl(f)); fo.blocks=[]; fo.args=[]; fo.loops=None; fo.ipdom=None; fo.entry=None; fo.modsum=None
            fo.retty=self.ty(retTy(gValTy(f)))
            self._fref[f]=fo; self.funcs[fo.name]=fo
        g=firstG(m); graw=[]
        while g: graw.append(g); g=nextG(g)
        self._gref={}
        for g in graw:
            go=Global(); go.name=self.name(g); go.ty=self.ty(gValTy(g)); go.init=None; go.const=bool(isConstG(g)); go.ext=bool(isDecl(g))
            self._gref[g]=go; self.globals[go.name]=go
        self._raw={fo.name:f for f,fo in self._fref.items()}
        for g,go in self._gref.items():
            i=initOf(g)
            if i: go.init=('lazy',i)
    def name(self,v):
        n=C.c_size_t(); p=valName(v,C.byref(n)); return C.string_at(p,n.value).decode()
    def ty(self,t):
        r=self.tys.get(t)
        if r is not None: return r
        r=Ty(); self.tys[t]=r
        k=typeKind(t); r.w=0; r.fields=None; r.offs=None; r.el=None; r.n=0; r.size=0; r.align=1; r.store=0
        if k==0: r.kind='void'; return r
        if k==8: r.kind='int'; r.w=intW(t)
        elif k==12: r.kind='ptr'; r.w=64
        elif k==10:
            r.kind='struct'; r.fields=[self.ty(structE(t,i)) for i in range(structN(t))]
            r.size=abiSize(self.dl,t); r.offs=[offElem(self.dl,t,i) for i in range(len(r.fields))]
        elif k==11: r.kind='array'; r.n=arrLen(t); r.el=self.ty(elTy(t))
        elif k in (2,3): r.kind='float'; r.w=32 if k==2 else 64
        elif k==13: r.kind='vec'
        else: r.kind='other'; return r
        try:
            r.size=abiSize(self.dl,t); r.align=abiAlign(self.dl,t); r.store=storeSize(self.dl,t)
        except Exception: pass
        return r
    def opnd(self,v,ids):
        """operand -> tuple"""
        r=ids.get(v)
        if r is not None: return ('r',r)
        f=self._fref.get(v)
        if f is not None: return ('f',f.name)
        g=self._gref.get(v)
        if g is not None: return ('g',g.name)
        k=valKind(v); t=self.ty(typeOf(v))
        # LLVMValueKind: 8 ConstantExpr.. use tests instead
        if isUndef(v): return ('undef',t)
        if t.kind=='int' and k==18: return ('c',t.w,zext(v)&((1<<t.w)-1))
        if t.kind=='ptr' and isNullC(v): return ('c',64,0)
        if isNullC(v): return ('zero',t)
        if k==10:  # ConstantExpr
            o=OPC.get(constOpc(v),'?')
            ops=[self.opnd(getOp(v,i),ids) for i in range(numOps(v))]
            if o=='gep': return ('ce','gep',t,self.ty(gepTy(v)),ops)
            return ('ce',o,t,None,ops)
        if t.kind in('array','struct'):
            n=t.n if t.kind=='array' else len(t.fields)
            return ('agg',t,[self.opnd(aggElem(v,i),ids) for i in range(n)])
        if k==19 or t.kind=='float': return ('undef',t)
        if k in (24,25): return ('md',)
        return ('?',k,t)
    def ginit(self,go):
        if go.init is None: return None
        if go.init[0]=='lazy': go.init=self.opnd(go.init[1],{})
        return go.init
    def body(self,name):
        """parse the function body lazily"""
        fo=self.funcs[name]
        if fo.decl or fo.blocks: return fo
        f=self._raw[name]
        ids={}; bbs=[]; b=firstBB(f); bid={}
        n=cntParams(f); nid=0
        for i in range(n):
            p=getParam(f,i); ids[p]=nid; fo.args.append((nid,self.ty(typeOf(p)))); nid+=1
        while b: bid[b]=len(bbs); bbs.append(b); b=nextBB(b)
        raw=[]
        for b in bbs:
            i=firstI(b); l=[]
            while i: ids[i]=nid; nid+=1; l.append(i); i=nextI(i)
            raw.append(l)
        for bi,b in enumerate(bbs):
            bo=Block(); bo.id=bi; bo.name=f'b{bi}'; bo.insts=[]; bo.preds=[]; bo.fn=fo; bo.succs=[]
            fo.blocks.append(bo)
        for bi,b in enumerate(bbs):
            bo=fo.blocks[bi]
            for i in raw[bi]:
                o=Inst(); o.op=OPC.get(opcode(i),'?'); o.id=ids[i]; o.ty=self.ty(typeOf(i)); o.x=None; o.blk=bo; o.ref=i
                o.line=dbgLine(i)
                ln=C.c_uint(); p=dbgFile(i,C.byref(ln)); o.file=C.string_at(p,ln.value).decode() if p else ''
                op=o.op
                if op=='phi':
                    o.ops=[]; o.x=[(bid[incBB(i,k)],self.opnd(incVal(i,k),ids)) for k in range(cntInc(i))]
                elif op=='br':
                    if isCond(i):
                        o.ops=[self.opnd(condOf(i),ids)]; o.x=[bid[getSucc(i,0)],bid[getSucc(i,1)]]
                    else: o.ops=[]; o.x=[bid[getSucc(i,0)]]
                elif op=='switch':
                    # operands: cond, default, (val,bb)*
                    o.ops=[self.opnd(getOp(i,0),ids)]
                    cs=[]
                    for k in range(2,numOps(i),2):
                        cs.append((zext(getOp(i,k)),bid[valAsBB(getOp(i,k+1))]))
                    o.x=(bid[valAsBB(getOp(i,1))],cs)
                elif op=='call':
                    cv=called(i); na=numArg(i)
                    o.ops=[self.opnd(getOp(i,k),ids) for k in range(na)]
                    o.x=self.opnd(cv,ids)
                elif op=='gep':
                    o.ops=[self.opnd(getOp(i,k),ids) for k in range(numOps(i))]; o.x=self.ty(gepTy(i))
                elif op=='alloca':
                    o.ops=[self.opnd(getOp(i,0),ids)]; o.x=self.ty(allocTy(i))
                elif op=='icmp':
                    o.ops=[self.opnd(getOp(i,k),ids) for k in range(2)]; o.x=PRED[icmpPred(i)]
                elif op in('extractvalue','insertvalue'):
                    o.ops=[self.opnd(getOp(i,k),ids) for k in range(numOps(i))]; p=idxs(i); o.x=[p[k] for k in range(numIdx(i))]
                elif op=='atomicrmw':
                    o.ops=[self.opnd(getOp(i,k),ids) for k in range(2)]; o.x=(RMW.get(rmwOp(i),'?'),ORD.get(ordering(i),'?'))
                elif op=='fence':
                    tx=C.string_at(prt(i)).decode(); o.ops=[]; o.x=next((k for k in('seq_cst','acq_rel','acquire','release') if k in tx),'?')
                elif op=='cmpxchg':
                    o.ops=[self.opnd(getOp(i,k),ids) for k in range(3)]; o.x=ORD.get(cxS(i),'?')
                else:
                    o.ops=[self.opnd(getOp(i,k),ids) for k in range(numOps(i))]
                    if op in('load','store'): o.x=ORD.get(ordering(i),'?')
                    elif op in('sdiv','udiv','ashr','lshr'): o.x=bool(exactF(i))
                    elif op in('add','sub','mul','shl'): o.x=bool(nswF(i))
                bo.insts.append(o)
            t=bo.insts[-1]
            if t.op=='br': bo.succs=list(t.x)
            elif t.op=='switch': bo.succs=[t.x[0]]+[b for _,b in t.x[1]]
        for bo in fo.blocks:
            for s in set(bo.succs): fo.blocks[s].preds.append(bo.id)
        self.analyse(fo)
        return fo
    def analyse(self,fo):
        n=len(fo.blocks)
        # dominators (bitset), post-dominators (with virtual exit n), natural loops
        full=(1<<n)-1
        dom=[full]*n; dom[0]=1
        ch=True
        while ch:
            ch=False
            for b in range(1,n):
                d=full
                ps=fo.blocks[b].preds
                if not ps: continue
                for p in ps: d&=dom[p]
                d|=1<<b
                if d!=dom[b]: dom[b]=d; ch=True
        loops={}
        for b in fo.blocks:
            for s in b.succs:
                if dom[b.id]>>s&1:
                    body=loops.setdefault(s,{s}); st=[b.id]
                    while st:
                        x=st.pop()
                        if x in body: continue
                        body.add(x); st.extend(fo.blocks[x].preds)
        fo.loops=loops
        full=(1<<(n+1))-1
        pd=[full]*(n+1); pd[n]=1<<n
        succ=[b.succs if b.succs else [n] for b in fo.blocks]
        ch=True
        while ch:
            ch=False
            for b in range(n-1,-1,-1):
                d=full
                for s in succ[b]: d&=pd[s]
                d|=1<<b
                if d!=pd[b]: pd[b]=d; ch=True
        fo.ipdom=[None]*n
        for b in range(n):
            c=[x for x in range(n) if x!=b and pd[b]>>x&1]
            # immediate: the one post-dominated by all the others
            for x in c:
                if all(pd[x]>>y&1 for y in c):
                    fo.ipdom[b]=x; break

if __name__=='__main__':
    import sys
    m=Module(sys.argv[1])
    for f in m.funcs.values():
        if not f.decl:
            m.body(f.name); print(f.name,len(f.blocks),'loops',{k:sorted(v) for k,v in f.loops.items()},'ipdom',f.ipdom)
            if len(sys.argv)>2:
                for b in f.blocks:
                    print(' ',b.name)
                    for i in b.insts: print('    ',i.id,i.op,i.ops,i.x,i.line)
