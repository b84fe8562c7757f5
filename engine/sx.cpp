// sx: a bounded, path-complete symbolic executor for LLVM bitcode.
//
//   sx [options] module.bc
//
// Runs `main` of the linked bitcode (code under test + harness + sxlibc) with
// the input bytes returned by sx_byte() symbolic.  Every feasible path is
// explored; branch feasibility, pointer validity and assertions are decided
// symbolically (z3 for everything that depends on more than one input byte and
// for every assertion).  Results go to a JSON file.
#include <atomic>
#include <sys/prctl.h>
#include <sys/mman.h>
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <signal.h>

using namespace llvm;
ExprPool pool;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static double T0, deadline=1e18;
[[noreturn]] static void fatal(const std::string&m) { fprintf(stderr,"sx: FATAL %s\n",m.c_str()); fflush(stderr); _exit(3); }

// ---------------------------------------------------------------- options
static int optJobs=8, optMaxViol=8, optSamples=4;
static uint64_t optMaxInst=200000000ull;
static double optTime=600;
static uint8_t optFill=0x15; /* memory that was not written: neither zero nor negative as an int, no character of a word */ static bool optKeep=false;
static std::string optOut="sx.json", optScratch;
static unsigned optSeed=1;
static int optTarget=96; static uint64_t optMux=64; static int optCross=16;

// ---------------------------------------------------------------- memory
struct Obj { int rc; uint32_t size; bool ro, heap; uint8_t*d; const Expr**s;
  std::string *name; };
struct ObjP { Obj*p; ObjP():p(nullptr){} explicit ObjP(Obj*o):p(o){if(p)p->rc++;}
  ObjP(const ObjP&o):p(o.p){if(p)p->rc++;} ObjP(ObjP&&o) noexcept:p(o.p){o.p=nullptr;}
  ObjP&operator=(const ObjP&o){ if(o.p)o.p->rc++; drop(); p=o.p; return*this;}
  ObjP&operator=(ObjP&&o) noexcept { std::swap(p,o.p); return*this;}
  void drop(){ if(p&&--p->rc==0){ free(p->d); free(p->s); delete p; } p=nullptr; }
  ~ObjP(){drop();} };
static Obj* newObj(uint32_t size,uint8_t fill){ Obj*o=new Obj; o->rc=0;o->size=size;o->ro=false;o->heap=false;o->d=(uint8_t*)malloc(size?size:1);memset(o->d,fill,size);o->s=nullptr;o->name=nullptr;return o; }
static Obj* cloneObj(Obj*q){ Obj*o=new Obj; *o=*q; o->rc=0; o->d=(uint8_t*)malloc(q->size?q->size:1); memcpy(o->d,q->d,q->size); if(q->s){ o->s=(const Expr**)malloc(sizeof(Expr*)*(q->size?q->size:1)); memcpy(o->s,q->s,sizeof(Expr*)*q->size);} return o; }
static const int OSH=24;
static std::vector<Obj*> roTab(1,nullptr);   // ids 1..R-1
static std::vector<ObjP> initMem;            // ids R..
static uint64_t R0;
static const uint64_t FNBASE=0x7f00000000000000ull;

// ---------------------------------------------------------------- code
enum OpC : uint8_t { O_BIN, O_CMP, O_SEL, O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
  O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_ABS, O_MINMAX, O_MEMCPY, O_MEMSET, O_VASTART, O_VACOPY, O_NOP,
  O_FBIN, O_FCMP, O_FCVT, O_BSWAP, O_CTPOP, O_CTTZ, O_CTLZ, O_FSH, O_SATSUB, O_OVF, O_TRAP, O_MOVN };
struct Inst { OpC op; uint8_t w, wa, sub; int32_t dst,a,b,c,ext,n; uint64_t imm; };
struct Edge { int32_t target; std::vector<std::pair<int32_t,int32_t>> copies; };
struct GepT { int32_t idx; uint8_t w; int64_t scale; };
struct SwCase { uint64_t v; int32_t edge; };
struct Fn { Function*f; std::string name; bool translated=false; std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges;
  std::vector<GepT> geps; std::vector<int32_t> args; std::vector<uint8_t> argw; std::vector<SwCase> cases; int nregs=0; int nparams=0; uint64_t addr; int builtin=-1; bool vararg=false; std::vector<int> locs; };
static std::vector<Fn*> fns; static std::map<Function*,Fn*> fnOf; static std::map<const GlobalVariable*,uint64_t> gvAddr;
static const DataLayout*DL; static Module*M;
static Fn*onExit=nullptr,*onAbort=nullptr;

static uint64_t evalConst(const Constant*c);
static bool isAgg(Type*t){ return t->isStructTy()||t->isArrayTy(); }
static int widthOf(Type*t){ if (t->isIntegerTy()) { int w=t->getIntegerBitWidth(); if (w>64) fatal("wide int"); return w; } if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isVoidTy()) return 0; return -1; }
static int nslots(Type*t){ if (t->isVoidTy()) return 0; if (auto*s=dyn_cast<StructType>(t)) { int n=0; for(auto*e:s->elements()) n+=nslots(e); return n;} if (auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements()*nslots(a->getElementType()); if (widthOf(t)<0) { std::string s; raw_string_ostream o(s); t->print(o); fatal("type "+s);} return 1; }

static uint64_t gepConst(const GEPOperator*g) {
  APInt off(64,0); if (!g->accumulateConstantOffset(*DL,off)) fatal("gep const");
  return evalConst(cast<Constant>(g->getPointerOperand()))+off.getZExtValue();
}
static uint64_t evalConst(const Constant*c) {
  if (auto*i=dyn_cast<ConstantInt>(c)) return i->getValue().getZExtValue();
  if (auto*f=dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return 0;
  if (auto*f=dyn_cast<Function>(c)) return fnOf[const_cast<Function*>(f)]->addr;
  if (auto*g=dyn_cast<GlobalVariable>(c)) { auto it=gvAddr.find(g); if (it==gvAddr.end()) fatal("global "+g->getName().str()); return it->second; }
  if (auto*a=dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
  if (auto*e=dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(e));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        uint64_t v=evalConst(e->getOperand(0)); int w=widthOf(e->getType()); return v&maskw(w); }
      case Instruction::Trunc: return evalConst(e->getOperand(0))&maskw(widthOf(e->getType()));
      case Instruction::Sub: return (evalConst(e->getOperand(0))-evalConst(e->getOperand(1)))&maskw(widthOf(e->getType()));
      case Instruction::Add: return (evalConst(e->getOperand(0))+evalConst(e->getOperand(1)))&maskw(widthOf(e->getType()));
      case Instruction::ICmp: { auto*ce=e; uint64_t x=evalConst(ce->getOperand(0)),y=evalConst(ce->getOperand(1)); switch(ce->getPredicate()){case CmpInst::ICMP_EQ:return x==y;case CmpInst::ICMP_NE:return x!=y;default:fatal("constexpr icmp");} }
      default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o); fatal("constant "+s);
}
static void initBytes(uint8_t*d,const Constant*c) {
  Type*t=c->getType();
  if (isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
  if (auto*s=dyn_cast<ConstantDataSequential>(c)) { unsigned es=s->getElementByteSize(); for (unsigned i=0;i<s->getNumElements();i++){ uint64_t v= s->getElementType()->isIntegerTy()? s->getElementAsInteger(i): s->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); memcpy(d+i*es,&v,es);} return; }
  if (auto*a=dyn_cast<ConstantArray>(c)) { uint64_t es=DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i=0;i<a->getNumOperands();i++) initBytes(d+i*es,a->getOperand(i)); return; }
  if (auto*s=dyn_cast<ConstantStruct>(c)) { auto*sl=DL->getStructLayout(s->getType()); for (unsigned i=0;i<s->getNumOperands();i++) initBytes(d+sl->getElementOffset(i),s->getOperand(i)); return; }
  uint64_t v=evalConst(c); memcpy(d,&v,DL->getTypeStoreSize(t));
}

enum BI { B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_BYTE, B_ASSUME, B_ASSERT, B_OBSERVE, B_CONC, B_ABORT, B_EXIT, B_ASSERTFAIL, B_ISSYM, B_STRLEN, B_STRCMP, B_REACH, B_DIE, B_PRINTS, B_FIRST };
static std::map<std::string,int> biNames={{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},
 {"sx_byte",B_BYTE},{"sx_assume",B_ASSUME},{"sx_assert",B_ASSERT},{"sx_observe",B_OBSERVE},{"sx_concretize",B_CONC},{"abort",B_ABORT},{"exit",B_EXIT},{"_exit",B_DIE},{"sx_done",B_DIE},{"__assert_fail",B_ASSERTFAIL},{"sx_is_symbolic",B_ISSYM},
 {"strlen",B_STRLEN},{"strcmp",B_STRCMP},{"sx_reach",B_REACH},{"sx_debug",B_PRINTS}};
static std::map<std::string,Fn*> fnByName;

struct Translator {
  Fn*F; std::map<const Value*,int> regs; std::map<uint64_t,int> cmap; std::map<const BasicBlock*,int> start; 
  int cidx(uint64_t v){ auto it=cmap.find(v); if(it!=cmap.end()) return it->second; int i=F->consts.size(); F->consts.push_back(cval(v)); return cmap[v]=~i; }
  int op(const Value*v){ if (auto*c=dyn_cast<Constant>(v)) { if (isAgg(c->getType())) fatal("agg const operand in "+F->name); return cidx(evalConst(c)); } auto it=regs.find(v); if (it==regs.end()) fatal("operand"); return it->second; }
  void aggConst(const Constant*c,std::vector<int>&o){ Type*t=c->getType(); if(!isAgg(t)){o.push_back(op(c));return;} unsigned n= t->isStructTy()? t->getStructNumElements(): t->getArrayNumElements(); for(unsigned i=0;i<n;i++) aggConst(c->getAggregateElement(i),o); }
  std::vector<int> ops(const Value*v){ std::vector<int> o; if (auto*c=dyn_cast<Constant>(v)) aggConst(c,o); else { int n=nslots(v->getType()); for(int i=0;i<n;i++) o.push_back(op(v)+i);} return o; }
  int slotOf(Type*t,ArrayRef<unsigned> idx){ int s=0; for(unsigned k:idx){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned i=0;i<k;i++) s+=nslots(st->getElementType(i)); t=st->getElementType(k);} else { auto*at=cast<ArrayType>(t); s+=k*nslots(at->getElementType()); t=at->getElementType(); } } return s; }
  void run() {
    Function&f=*F->f; int r=0;
    for (auto&a:f.args()) { regs[&a]=r++; if (a.hasByValAttr()) {} }
    F->nparams=r;
    for (auto&b:f) for (auto&i:b) { int n=nslots(i.getType()); if(n){ regs[&i]=r; r+=n; } }
    F->nregs=r;
    // layout
    std::vector<std::pair<int,const BasicBlock*>> dummy;
    for (auto&b:f) { start[&b]=F->code.size(); for (auto&i:b) { if (isa<PHINode>(i)) continue; emit(i);} }
    for (auto&e:F->edges) e.target=start[ebb[&e-&F->edges[0]]];
    F->translated=true;
  }
  std::vector<const BasicBlock*> ebb;
  int edge(const BasicBlock*from,const BasicBlock*to){ Edge e; e.target=-1; for (auto&i:*to){ auto*p=dyn_cast<PHINode>(&i); if(!p) break; auto s=ops(p->getIncomingValueForBlock(from)); for(size_t k=0;k<s.size();k++) if (s[k]!=regs[p]+(int)k) e.copies.push_back({regs[p]+(int)k,s[k]}); } F->edges.push_back(e); ebb.push_back(to); return F->edges.size()-1; }
  Inst&put(OpC op,int w=0){ Inst i; memset(&i,0,sizeof i); i.op=op;i.w=w;i.dst=-1;i.ext=-1; F->code.push_back(i); F->locs.push_back(0); return F->code.back(); }
  void emit(Instruction&I) {
    int dst = I.getType()->isVoidTy()?-1:regs[&I];
    if (auto*b=dyn_cast<BinaryOperator>(&I)) {
      if (b->getType()->isFloatingPointTy()) { Inst&i=put(O_FBIN,widthOf(b->getType())); i.sub=b->getOpcode(); i.dst=dst;i.a=op(b->getOperand(0));i.b=op(b->getOperand(1)); return; }
      Kind k; switch(b->getOpcode()){ case Instruction::Add:k=K_ADD;break;case Instruction::Sub:k=K_SUB;break;case Instruction::Mul:k=K_MUL;break;case Instruction::UDiv:k=K_UDIV;break;case Instruction::SDiv:k=K_SDIV;break;case Instruction::URem:k=K_UREM;break;case Instruction::SRem:k=K_SREM;break;case Instruction::And:k=K_AND;break;case Instruction::Or:k=K_OR;break;case Instruction::Xor:k=K_XOR;break;case Instruction::Shl:k=K_SHL;break;case Instruction::LShr:k=K_LSHR;break;case Instruction::AShr:k=K_ASHR;break;default:fatal("binop");}
      Inst&i=put(O_BIN,widthOf(b->getType())); i.sub=k;i.dst=dst;i.a=op(b->getOperand(0));i.b=op(b->getOperand(1)); return; }
    if (auto*c=dyn_cast<ICmpInst>(&I)) { int w=widthOf(c->getOperand(0)->getType()); Inst&i=put(O_CMP,w); i.dst=dst; i.a=op(c->getOperand(0)); i.b=op(c->getOperand(1)); i.sub=c->getPredicate(); return; }
    if (auto*c=dyn_cast<FCmpInst>(&I)) { Inst&i=put(O_FCMP,widthOf(c->getOperand(0)->getType())); i.dst=dst;i.a=op(c->getOperand(0));i.b=op(c->getOperand(1));i.sub=c->getPredicate(); return; }
    if (auto*s=dyn_cast<SelectInst>(&I)) { auto x=ops(s->getTrueValue()),y=ops(s->getFalseValue()); for(size_t k=0;k<x.size();k++){ Inst&i=put(O_SEL,isAgg(s->getType())?64:widthOf(s->getType())); i.dst=dst+k;i.a=op(s->getCondition());i.b=x[k];i.c=y[k]; } return; }
    if (auto*c=dyn_cast<CastInst>(&I)) { int w=widthOf(c->getDestTy()),wa=widthOf(c->getSrcTy()); OpC o; 
      switch(c->getOpcode()){ case Instruction::ZExt:o=O_ZEXT;break;case Instruction::SExt:o=O_SEXT;break;case Instruction::Trunc:o=O_TRUNC;break;
        case Instruction::PtrToInt:case Instruction::IntToPtr:case Instruction::BitCast:case Instruction::AddrSpaceCast: o= w<wa?O_TRUNC: w>wa?O_ZEXT:O_MOV; break;
        case Instruction::SIToFP:case Instruction::UIToFP:case Instruction::FPToSI:case Instruction::FPToUI:case Instruction::FPExt:case Instruction::FPTrunc:o=O_FCVT;break; default:fatal("cast");}
      Inst&i=put(o,w); i.wa=wa;i.dst=dst;i.a=op(c->getOperand(0)); i.sub=c->getOpcode(); return; }
    if (auto*l=dyn_cast<LoadInst>(&I)) { if(isAgg(l->getType())) fatal("agg load"); int w=widthOf(l->getType()); Inst&i=put(O_LOAD,w);i.dst=dst;i.a=op(l->getPointerOperand());i.n=DL->getTypeStoreSize(l->getType());return; }
    if (auto*s=dyn_cast<StoreInst>(&I)) { Type*t=s->getValueOperand()->getType(); if(isAgg(t)) fatal("agg store"); Inst&i=put(O_STORE,widthOf(t));i.a=op(s->getPointerOperand());i.b=op(s->getValueOperand());i.n=DL->getTypeStoreSize(t);return; }
    if (auto*g=dyn_cast<GetElementPtrInst>(&I)) { int64_t off=0; int ext=F->geps.size(),n=0; 
      for (auto it=gep_type_begin(g);it!=gep_type_end(g);++it) { Value*ix=it.getOperand(); if (StructType*st=it.getStructTypeOrNull()) off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { int64_t sc=DL->getTypeAllocSize(it.getIndexedType()); if (auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*sc; else { F->geps.push_back({op(ix),(uint8_t)widthOf(ix->getType()),sc}); n++; } } }
      Inst&i=put(O_GEP,64);i.dst=dst;i.a=op(g->getPointerOperand());i.imm=off;i.ext=ext;i.n=n;return; }
    if (auto*a=dyn_cast<AllocaInst>(&I)) { Inst&i=put(O_ALLOCA,64);i.dst=dst;i.imm=DL->getTypeAllocSize(a->getAllocatedType());i.a=op(a->getArraySize()); return; }
    if (auto*b=dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) { int e=edge(I.getParent(),b->getSuccessor(0)); put(O_BR).a=e; } else { int e=edge(I.getParent(),b->getSuccessor(0)),e2=edge(I.getParent(),b->getSuccessor(1)); int c=op(b->getCondition()); Inst&i=put(O_CBR,1);i.a=c;i.b=e;i.c=e2; } return; }
    if (auto*s=dyn_cast<SwitchInst>(&I)) { int c=op(s->getCondition()); int d=edge(I.getParent(),s->getDefaultDest()); int ext=F->cases.size(); int n=0; for(auto&k:s->cases()){ int e=edge(I.getParent(),k.getCaseSuccessor()); F->cases.push_back({k.getCaseValue()->getZExtValue(),e}); n++; } Inst&i=put(O_SWITCH,widthOf(s->getCondition()->getType()));i.a=c;i.b=d;i.ext=ext;i.n=n;return; }
    if (auto*r=dyn_cast<ReturnInst>(&I)) { int ext=F->args.size(),n=0; if (r->getReturnValue()) { auto o=ops(r->getReturnValue()); for(int x:o) F->args.push_back(x); n=o.size(); } Inst&i=put(O_RET);i.ext=ext;i.n=n;return; }
    if (isa<UnreachableInst>(I)) { put(O_UNREACH); return; }
    if (auto*f=dyn_cast<FreezeInst>(&I)) { auto o=ops(f->getOperand(0)); for(size_t k=0;k<o.size();k++){Inst&i=put(O_MOV,64);i.dst=dst+k;i.a=o[k];} return; }
    if (auto*e=dyn_cast<ExtractValueInst>(&I)) { auto o=ops(e->getAggregateOperand()); int s=slotOf(e->getAggregateOperand()->getType(),e->getIndices()); int n=nslots(e->getType()); for(int k=0;k<n;k++){Inst&i=put(O_MOV,64);i.dst=dst+k;i.a=o[s+k];} return; }
    if (auto*v=dyn_cast<InsertValueInst>(&I)) { auto o=ops(v->getAggregateOperand()); auto q=ops(v->getInsertedValueOperand()); int s=slotOf(v->getType(),v->getIndices()); for(size_t k=0;k<o.size();k++){Inst&i=put(O_MOV,64);i.dst=dst+k;i.a=(k>=(size_t)s&&k<s+q.size())?q[k-s]:o[k];} return; }
    if (auto*u=dyn_cast<UnaryOperator>(&I)) { Inst&i=put(O_FBIN,widthOf(u->getType())); i.sub=Instruction::FNeg;i.dst=dst;i.a=op(u->getOperand(0));i.b=i.a;return; }
    if (auto*c=dyn_cast<CallBase>(&I)) { call(*c,dst); return; }
    std::string s; raw_string_ostream o(s); I.print(o); fatal("unsupported instruction "+s);
  }
  void call(CallBase&c,int dst) {
    Function*f=c.getCalledFunction();
    if (f && f->isIntrinsic()) {
      auto A=[&](int k){return op(c.getArgOperand(k));};
      int w= c.getType()->isVoidTy()||isAgg(c.getType())?0:widthOf(c.getType());
      switch (f->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::vaend: case Intrinsic::stackrestore: return;
        case Intrinsic::stacksave: { Inst&i=put(O_MOV,64);i.dst=dst;i.a=cidx(0);return; }
        case Intrinsic::expect: { Inst&i=put(O_MOV,w);i.dst=dst;i.a=A(0);return; }
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { int x=A(0),y=A(1),z=A(2); Inst&i=put(O_MEMCPY);i.a=x;i.b=y;i.c=z;return; }
        case Intrinsic::memset: { int x=A(0),y=A(1),z=A(2); Inst&i=put(O_MEMSET);i.a=x;i.b=y;i.c=z;return; }
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { int x=A(0),y=A(1); Inst&i=put(O_MINMAX,w);i.dst=dst;i.a=x;i.b=y; i.sub= f->getIntrinsicID()==Intrinsic::umax?0: f->getIntrinsicID()==Intrinsic::umin?1: f->getIntrinsicID()==Intrinsic::smax?2:3; return; }
        case Intrinsic::abs: { int x=A(0); Inst&i=put(O_ABS,w);i.dst=dst;i.a=x;return; }
        case Intrinsic::bswap: { int x=A(0); Inst&i=put(O_BSWAP,w);i.dst=dst;i.a=x;return; }
        case Intrinsic::ctpop: { int x=A(0); Inst&i=put(O_CTPOP,w);i.dst=dst;i.a=x;return; }
        case Intrinsic::cttz: { int x=A(0); Inst&i=put(O_CTTZ,w);i.dst=dst;i.a=x;return; }
        case Intrinsic::ctlz: { int x=A(0); Inst&i=put(O_CTLZ,w);i.dst=dst;i.a=x;return; }
        case Intrinsic::fshl: case Intrinsic::fshr: { int x=A(0),y=A(1),z=A(2); Inst&i=put(O_FSH,w);i.dst=dst;i.a=x;i.b=y;i.c=z;i.sub=f->getIntrinsicID()==Intrinsic::fshr;return; }
        case Intrinsic::usub_sat: { int x=A(0),y=A(1); Inst&i=put(O_SATSUB,w);i.dst=dst;i.a=x;i.b=y;return; }
        case Intrinsic::vastart: { int x=A(0); put(O_VASTART).a=x; return; }
        case Intrinsic::vacopy: { int x=A(0),y=A(1); Inst&i=put(O_VACOPY); i.a=x;i.b=y; return; }
        case Intrinsic::is_constant: { Inst&i=put(O_MOV,1);i.dst=dst;i.a=cidx(0);return; }
        case Intrinsic::objectsize: { Inst&i=put(O_MOV,w);i.dst=dst;i.a=cidx(maskw(w));return; }
        case Intrinsic::trap: put(O_TRAP); return;
        case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
          int x=A(0),y=A(1); int ww=widthOf(c.getArgOperand(0)->getType()); Inst&i=put(O_OVF,ww);i.dst=dst;i.a=x;i.b=y; switch(f->getIntrinsicID()){case Intrinsic::uadd_with_overflow:i.sub=0;break;case Intrinsic::usub_with_overflow:i.sub=1;break;case Intrinsic::umul_with_overflow:i.sub=2;break;case Intrinsic::sadd_with_overflow:i.sub=3;break;case Intrinsic::ssub_with_overflow:i.sub=4;break;default:i.sub=5;} return; }
        default: fatal("intrinsic "+f->getName().str());
      }
    }
    if (c.isInlineAsm()) return;
    int ext=F->args.size(); std::vector<int> o; 
    for (unsigned k=0;k<c.arg_size();k++) { if (c.isByValArgument(k)) fatal("byval"); o.push_back(op(c.getArgOperand(k))); }
    for (int x:o) F->args.push_back(x);
    int callee=0; uint64_t imm=0;
    if (f) imm=(uint64_t)fnOf[f]; else { Value*cv=c.getCalledOperand(); callee=op(cv); }
    Inst&i=put(O_CALL,c.getType()->isVoidTy()||isAgg(c.getType())?0:widthOf(c.getType()));i.dst=dst;i.ext=ext;i.n=o.size();i.imm=imm;i.a=callee;i.c=nslots(c.getType());
  }
};

// ---------------------------------------------------------------- states
static const uint64_t STACKLIM=8u<<20; // default stack of a process; locals plus 128 bytes a call
struct Frame { Fn*fn; std::vector<Val> regs; int pc; std::vector<uint64_t> allocas; int dst,ndst; uint64_t va; bool isExit; uint64_t stk; };
struct State {
  std::vector<Frame> st; std::vector<ObjP> mem; 
  std::vector<Bits256> dom; std::vector<uint8_t> model; std::vector<std::string*> names; SymSet ent; 
  std::vector<const Expr*> cons; std::vector<Val> obs; uint64_t ninst=0; uint64_t depth=0; bool exiting=false; uint64_t stk=0;
};

struct Viol { std::string kind,msg,where; std::vector<std::pair<std::string,int>> model; };
struct Stats { uint64_t paths=0,assumed=0,errors=0,forks=0,insts=0,queries=0,qsat=0,qunsat=0,qunk=0,asserts=0,assertq=0,dom=0,cross=0; double qtime=0; bool timeout=false; uint64_t limit=0; uint64_t states=0; };
static Stats S; static std::vector<Viol> viols; static std::set<std::string> violKeys; 
struct Sample { std::vector<std::pair<std::string,int>> model; std::vector<uint64_t> obs; };
static std::vector<Sample> samples; static std::map<std::string,uint64_t> reached; static std::map<std::string,uint64_t> fnCalled;
static std::vector<State*> work; static uint64_t rng;

// ---------------------------------------------------------------- z3
static Z3_context zc; static Z3_solver zs; static Z3_sort zbv[65]; static Z3_ast zvar[NSYM];
static uint64_t evStamp=0;
static Z3_sort bvs(int w){ if(!zbv[w]) { zbv[w]=Z3_mk_bv_sort(zc,w); Z3_inc_ref(zc,Z3_sort_to_ast(zc,zbv[w])); } return zbv[w]; }
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(zc,a); return a; }
static Z3_ast zv(int v){ if(!zvar[v]) { char b[16]; snprintf(b,16,"b%d",v); zvar[v]=keep(Z3_mk_const(zc,Z3_mk_string_symbol(zc,b),bvs(8))); } return zvar[v]; }
static Z3_ast znum(uint64_t v,int w){ return keep(Z3_mk_unsigned_int64(zc,v,bvs(w))); }
// Boolean-valued (width 1) expressions translate to bitvectors of width 1; zbool gives a Bool.
static Z3_ast zexp(Val v,int w); static Z3_ast zboolE(const Expr*e);
static Z3_ast zbits(int var,const Bits256&b){ std::vector<Z3_ast> ors; int i=0; while(i<256){ if(!b.get(i)){i++;continue;} int j=i; while(j+1<256&&b.get(j+1)) j++; Z3_ast a; if(i==j) a=keep(Z3_mk_eq(zc,zv(var),znum(i,8))); else { Z3_ast lo=i==0?nullptr:keep(Z3_mk_bvuge(zc,zv(var),znum(i,8))); Z3_ast hi=j==255?nullptr:keep(Z3_mk_bvule(zc,zv(var),znum(j,8))); if(lo&&hi){Z3_ast t[2]={lo,hi};a=keep(Z3_mk_and(zc,2,t));} else a= lo?lo: hi?hi: keep(Z3_mk_true(zc)); } ors.push_back(a); i=j+1; } if(ors.empty()) return keep(Z3_mk_false(zc)); if(ors.size()==1) return ors[0]; return keep(Z3_mk_or(zc,ors.size(),ors.data())); }
static std::unordered_map<const Expr*,Z3_ast> zboolMemo;
static Z3_ast zof(const Expr*e) {
  if (e->z) return e->z; Z3_ast r; auto A=[&]{return zexp(e->a,e->wa);}; 
  switch(e->k) {
    case K_LUT: {
      if (e->w==1) { r=Z3_mk_ite(zc,zbits(e->var,e->bits),znum(1,1),znum(0,1)); break; }
      // segments: constant or linear with slope 1
      struct Seg{int lo,hi;uint64_t base;bool lin;}; std::vector<Seg> sg; int i=0; uint64_t m=maskw(e->w);
      while(i<256){ int j=i; while(j+1<256&&e->lut[j+1]==e->lut[i]) j++; int k=i; while(k+1<256&&e->lut[k+1]==((e->lut[k]+1)&m)) k++; if(k>j) { sg.push_back({i,k,(e->lut[i]-i)&m,true}); i=k+1; } else { sg.push_back({i,j,e->lut[i],false}); i=j+1; } }
      Z3_ast x=zv(e->var); Z3_ast xw = e->w>8? keep(Z3_mk_zero_ext(zc,e->w-8,x)): e->w<8? keep(Z3_mk_extract(zc,e->w-1,0,x)):x;
      r=nullptr; for(int q=(int)sg.size()-1;q>=0;q--){ Z3_ast val= sg[q].lin? (sg[q].base? keep(Z3_mk_bvadd(zc,xw,znum(sg[q].base,e->w))):xw): znum(sg[q].base,e->w); if(!r) r=val; else r=keep(Z3_mk_ite(zc,keep(Z3_mk_bvule(zc,x,znum(sg[q].hi,8))),val,r)); }
      break; }
    case K_ADD:r=Z3_mk_bvadd(zc,A(),zexp(e->b,e->w));break; case K_SUB:r=Z3_mk_bvsub(zc,A(),zexp(e->b,e->w));break; case K_MUL:r=Z3_mk_bvmul(zc,A(),zexp(e->b,e->w));break;
    case K_UDIV:r=Z3_mk_bvudiv(zc,A(),zexp(e->b,e->w));break; case K_SDIV:r=Z3_mk_bvsdiv(zc,A(),zexp(e->b,e->w));break; case K_UREM:r=Z3_mk_bvurem(zc,A(),zexp(e->b,e->w));break; case K_SREM:r=Z3_mk_bvsrem(zc,A(),zexp(e->b,e->w));break;
    case K_AND:r=Z3_mk_bvand(zc,A(),zexp(e->b,e->w));break; case K_OR:r=Z3_mk_bvor(zc,A(),zexp(e->b,e->w));break; case K_XOR:r=Z3_mk_bvxor(zc,A(),zexp(e->b,e->w));break;
    case K_SHL:r=Z3_mk_bvshl(zc,A(),zexp(e->b,e->w));break; case K_LSHR:r=Z3_mk_bvlshr(zc,A(),zexp(e->b,e->w));break; case K_ASHR:r=Z3_mk_bvashr(zc,A(),zexp(e->b,e->w));break;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r=Z3_mk_ite(zc,zboolE(e),znum(1,1),znum(0,1)); break;
    case K_ITE: r=Z3_mk_ite(zc,zboolE(e->a.e),zexp(e->b,e->w),zexp(e->c,e->w));break;
    case K_ZEXT:r=Z3_mk_zero_ext(zc,e->w-e->wa,A());break; case K_SEXT:r=Z3_mk_sign_ext(zc,e->w-e->wa,A());break;
    case K_EXTRACT:r=Z3_mk_extract(zc,e->aux+e->w-1,e->aux,A());break; case K_CONCAT:r=Z3_mk_concat(zc,A(),zexp(e->b,e->aux));break;
    default:abort();
  }
  return const_cast<Expr*>(e)->z=keep(r);
}
static Z3_ast zexp(Val v,int w){ return v.e?zof(v.e):znum(v.c,w); }
static Z3_ast zboolE(const Expr*e) { auto it=zboolMemo.find(e); if(it!=zboolMemo.end()) return it->second; Z3_ast r; auto A=[&]{return zexp(e->a,e->wa);}; auto B=[&]{return zexp(e->b,e->wa);};
  auto ZB=[&](Val v){ return v.e?zboolE(v.e): keep(v.c?Z3_mk_true(zc):Z3_mk_false(zc)); };
  switch(e->k){ case K_LUT: r=zbits(e->var,e->bits);break; case K_EQ:r=Z3_mk_eq(zc,A(),B());break;case K_ULT:r=Z3_mk_bvult(zc,A(),B());break;case K_ULE:r=Z3_mk_bvule(zc,A(),B());break;case K_SLT:r=Z3_mk_bvslt(zc,A(),B());break;case K_SLE:r=Z3_mk_bvsle(zc,A(),B());break;
    case K_AND:{Z3_ast t[2]={ZB(e->a),ZB(e->b)};r=Z3_mk_and(zc,2,t);break;} case K_OR:{Z3_ast t[2]={ZB(e->a),ZB(e->b)};r=Z3_mk_or(zc,2,t);break;} case K_XOR: if(!e->b.e) r=e->b.c?Z3_mk_not(zc,ZB(e->a)):ZB(e->a); else r=Z3_mk_xor(zc,ZB(e->a),ZB(e->b)); break;
    case K_ITE: r=Z3_mk_ite(zc,ZB(e->a),ZB(e->b),ZB(e->c)); break;
    default: r=Z3_mk_eq(zc,zof(e),znum(1,1)); }
  keep(r); zboolMemo[e]=r; return r; }

static uint64_t evalE(const Expr*e,const std::vector<uint8_t>&m) {
  if (e->k==K_LUT) return lutAt(e,m[e->var]);
  if (e->stamp==evStamp) return e->ev;
  uint64_t a=e->a.e?evalE(e->a.e,m):e->a.c, b=0,c=0;
  if (e->k==K_ITE) { if(a) b=e->b.e?evalE(e->b.e,m):e->b.c; else c=e->c.e?evalE(e->c.e,m):e->c.c; }
  else b=e->b.e?evalE(e->b.e,m):e->b.c;
  uint64_t r=evalOp(e->k,e->w,e->wa,a,b,c,e->aux);
  const_cast<Expr*>(e)->stamp=evStamp; const_cast<Expr*>(e)->ev=r; return r;
}
static uint64_t evalV(Val v,const std::vector<uint8_t>&m){ if(!v.e) return v.c; evStamp++; return evalE(v.e,m); }

// Is path-condition /\ cond satisfiable?  1 yes (model updated), 0 no, -1 unknown
static int zcheck(State&s,const Expr*cond,std::vector<uint8_t>&model) {
  S.queries++; double t=now();
  SymSet vs=cond->syms; std::vector<char> used(s.cons.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.cons.size();i++) if(!used[i]&&(s.cons[i]->syms&vs).any()){used[i]=1;vs|=s.cons[i]->syms;ch=true;} }
  Z3_solver_push(zc,zs);
  for(size_t i=0;i<s.cons.size();i++) if(used[i]) Z3_solver_assert(zc,zs,zboolE(s.cons[i]));
  for(size_t v=0;v<s.dom.size();v++) if(vs[v] && s.dom[v].count()!=256) Z3_solver_assert(zc,zs,zbits(v,s.dom[v]));
  Z3_solver_assert(zc,zs,zboolE(cond));
static bool dump=getenv("SX_DUMP"); double tt=now(); Z3_lbool r=Z3_solver_check(zc,zs); if(dump) { fprintf(stderr,"; %.4f\n",now()-tt); if(now()-tt>0.1) fprintf(stderr,"%s\n(check-sat)\n;;;;\n",Z3_solver_to_string(zc,zs)); } int res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
  if(res==1){ Z3_model m=Z3_solver_get_model(zc,zs); Z3_model_inc_ref(zc,m); for(size_t v=0;v<s.dom.size();v++) if(vs[v]) { Z3_ast o; uint64_t x=0; if(Z3_model_eval(zc,m,zv(v),true,&o)) { Z3_inc_ref(zc,o); Z3_get_numeral_uint64(zc,o,&x); Z3_dec_ref(zc,o);} model[v]=x; } Z3_model_dec_ref(zc,m); S.qsat++; } else if(res==0) S.qunsat++; else S.qunk++;
  Z3_solver_pop(zc,zs,1); S.qtime+=now()-t; if(t>deadline) S.timeout=true; return res;
}
// all further values of v (w bits) on this path, each with a model
static void zenum(State&s,Val v,int w,std::vector<uint64_t>&got,std::vector<std::pair<uint64_t,std::vector<uint8_t>>>&out){
  double t=now(); SymSet vs=v.e->syms; std::vector<char> used(s.cons.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.cons.size();i++) if(!used[i]&&(s.cons[i]->syms&vs).any()){used[i]=1;vs|=s.cons[i]->syms;ch=true;} }
  Z3_solver_push(zc,zs);
  for(size_t i=0;i<s.cons.size();i++) if(used[i]) Z3_solver_assert(zc,zs,zboolE(s.cons[i]));
  for(size_t q=0;q<s.dom.size();q++) if(vs[q] && s.dom[q].count()!=256) Z3_solver_assert(zc,zs,zbits(q,s.dom[q]));
  Z3_ast e=zexp(v,w);
  for(uint64_t g:got) Z3_solver_assert(zc,zs,keep(Z3_mk_not(zc,keep(Z3_mk_eq(zc,e,znum(g,w))))));
  while(1){ S.queries++; Z3_lbool r=Z3_solver_check(zc,zs); if(r==Z3_L_FALSE){S.qunsat++;break;} if(r!=Z3_L_TRUE){S.qunk++;break;} S.qsat++;
    std::vector<uint8_t> model=s.model; Z3_model m=Z3_solver_get_model(zc,zs); Z3_model_inc_ref(zc,m); for(size_t q=0;q<s.dom.size();q++) if(vs[q]) { Z3_ast o; uint64_t x=0; if(Z3_model_eval(zc,m,zv(q),true,&o)) { Z3_inc_ref(zc,o); Z3_get_numeral_uint64(zc,o,&x); Z3_dec_ref(zc,o);} model[q]=x; } Z3_model_dec_ref(zc,m);
    uint64_t y=evalV(v,model); out.push_back({y,model}); if(out.size()>20000) fatal("too many values"); Z3_solver_assert(zc,zs,keep(Z3_mk_not(zc,keep(Z3_mk_eq(zc,e,znum(y,w)))))); }
  Z3_solver_pop(zc,zs,1); S.qtime+=now()-t; if(t>deadline) S.timeout=true;
}
// Finite-domain decision for conditions on two bytes that are not linked to
// other bytes: complete over the product of the two remaining domains.
static int fdVars(State&s,const Expr*e,int*v){ if(e->syms.count()!=2) return 0; int n=0; for(size_t i=0;i<s.dom.size()&&n<2;i++) if(e->syms[i]) v[n++]=i; if(s.ent[v[0]]||s.ent[v[1]]) return 0; int p=s.dom[v[0]].count()*s.dom[v[1]].count(); return p<=1024; }
static int fdCheck(State&s,const Expr*e,std::vector<uint8_t>&model){ int v[2]; if(!fdVars(s,e,v)) return -1; std::vector<uint8_t> m=model; 
  for(int i=0;i<256;i++) if(s.dom[v[0]].get(i)) for(int j=0;j<256;j++) if(s.dom[v[1]].get(j)){ m[v[0]]=i;m[v[1]]=j; evStamp++; if(evalE(e,m)){ model=m; S.dom++; return 1; } } S.dom++; return 0; }
// If the condition holds exactly on a product of two sub-domains, record it as two one-byte constraints.
static bool fdSplit(State&s,const Expr*e){ int v[2]; if(!fdVars(s,e,v)) return false; std::vector<uint8_t> m=s.model; Bits256 row,first; row.clear(); bool have=false; 
  for(int i=0;i<256;i++) if(s.dom[v[0]].get(i)){ Bits256 c; c.clear(); for(int j=0;j<256;j++) if(s.dom[v[1]].get(j)){ m[v[0]]=i;m[v[1]]=j; evStamp++; if(evalE(e,m)) c.set(j); } if(c.empty()) continue; if(!have){first=c;have=true;} else if(!(c==first)) return false; row.set(i); }
  if(!have) return false; s.dom[v[0]]=row; s.dom[v[1]]=first; return true; }
// Finite-domain search for conditions on linked bytes: complete over the remaining domains of the bytes of the connected
// constraints; constraints on two bytes are looked up in a table that is filled on demand. -1: too large, ask z3.
struct Pair2 { Bits256 known[256], val[256]; Pair2(){ for(int i=0;i<256;i++){known[i].clear();val[i].clear();} } };
static std::unordered_map<const Expr*,Pair2*> pair2; static uint64_t pair2n;
static int fdN(State&s,const Expr*cond,std::vector<uint8_t>&model){
  SymSet vs=cond->syms; std::vector<char> used(s.cons.size(),0); bool ch=true; std::vector<const Expr*> cs{cond};
  while(ch){ ch=false; for(size_t i=0;i<s.cons.size();i++) if(!used[i]&&(s.cons[i]->syms&vs).any()){used[i]=1;vs|=s.cons[i]->syms;ch=true;cs.push_back(s.cons[i]);} }
  if(vs.count()>12) return -1;
  std::vector<int> ord; SymSet left=vs, in; 
  while(left.any()){ int best=-1,bs=1<<30; for(size_t i=0;i<s.dom.size();i++) if(left[i]){ int c=s.dom[i].count(), conn=0; if(c>64) return -1; for(auto*e:cs) if(e->syms[i]&&(e->syms&in).any()) conn=1; if(cond->syms[i]) conn=2; int sc=c-1000*conn; if(sc<bs){bs=sc;best=i;} } ord.push_back(best); in[best]=1; left[best]=0; }
  int n=ord.size(); std::vector<std::vector<const Expr*>> at(n); std::vector<int> posOf(s.dom.size(),-1); for(int i=0;i<n;i++) posOf[ord[i]]=i;
  for(auto*e:cs){ int m=0; for(int i=0;i<n;i++) if(e->syms[ord[i]]) m=i; at[m].push_back(e); }
  std::vector<uint8_t> m=model; long nodes=0; 
  std::vector<int> cur(n,-2); int d=0;   // -2: try the present model's value first, then 0..255
  while(d>=0){ int v=ord[d]; int x=cur[d]; bool ok=false;
    while(1){ if(x==-2) { x=-1; m[v]=s.model[v]; if(!s.dom[v].get(m[v])) continue; } else { x++; if(x>255) break; if(!s.dom[v].get(x)||x==s.model[v]) continue; m[v]=x; }
      if(++nodes>30000) return -1;
      ok=true; for(auto*e:at[d]){ bool r; 
          if(e->syms.count()==2){ int a=-1,b=-1; for(int i=0;i<=d&&b<0;i++) if(e->syms[ord[i]]){ if(a<0) a=ord[i]; else b=ord[i]; } if(a>b) std::swap(a,b);
            auto it=pair2.find(e); if(it==pair2.end()){ if(pair2n>3000){ evStamp++; r=evalE(e,m)&1; if(!r){ok=false;break;} continue; } pair2n++; it=pair2.emplace(e,new Pair2).first; } Pair2*t=it->second;
            if(!t->known[m[a]].get(m[b])){ evStamp++; if(evalE(e,m)&1) t->val[m[a]].set(m[b]); t->known[m[a]].set(m[b]); } r=t->val[m[a]].get(m[b]); }
          else { evStamp++; r=evalE(e,m)&1; }
          if(!r){ok=false;break;} }
      if(ok) break; }
    cur[d]=x; if(!ok){ cur[d]=-2; d--; continue; }
    if(d==n-1){ model=m; S.dom++; return 1; }
    d++; cur[d]=-2; }
  S.dom++; return 0; }
// every optCross-th (16th in the quick tier) "impossible" answer of the finite-domain procedure is put to z3 as well and must be confirmed
static void crossNo(State&s,const Expr*e){ static int k; if(optCross<=0||(++k>64 && k%optCross)) return; std::vector<uint8_t> m=s.model; int r=zcheck(s,e,m); if(r==1) fatal("finite-domain decision refuted by z3"); if(r==0) S.cross++; }
static int mayBe(State&s,Val c,std::vector<uint8_t>&model) {
  model=s.model;
  if(!c.e) return c.c&1;
  if(c.e->k==K_LUT) { int v=c.e->var; Bits256 d=band(s.dom[v],c.e->bits); if(d.empty()) {S.dom++;crossNo(s,c.e);return 0;} if(d.get(model[v])) {S.dom++;return 1;} if(!s.ent[v]) { S.dom++; model[v]=d.first(); return 1; } }
  else { evStamp++; if(evalE(c.e,model)) return 1; int r=fdCheck(s,c.e,model); if(r>=0) { if(!r) crossNo(s,c.e); return r; } }
  { int r=fdN(s,c.e,model); if(r>=0) { if(!r) crossNo(s,c.e); return r; } model=s.model; }
  return zcheck(s,c.e,model);
}
static void addCons(State&s,Val c,const std::vector<uint8_t>&model) {
  s.model=model; if(!c.e) return;
  if(c.e->k==K_LUT) { s.dom[c.e->var]=band(s.dom[c.e->var],c.e->bits); return; }
  if(c.e->k==K_AND && c.e->w==1) { addCons(s,c.e->a,model); addCons(s,c.e->b,model); return; }
  if(c.e->k==K_XOR && !c.e->b.e && c.e->b.c==1 && c.e->a.e && c.e->a.e->k==K_OR) { addCons(s,mkNot(c.e->a.e->a),model); addCons(s,mkNot(c.e->a.e->b),model); return; }
  for(auto*e:s.cons) if(e==c.e) return;
  if(fdSplit(s,c.e)) return;
  s.cons.push_back(c.e); s.ent|=c.e->syms;
}

// a function of one byte that has one value on the byte's remaining domain is that value
static inline Val fold1(State&s,Val v){ if(!v.e||v.e->k!=K_LUT) return v; const Bits256&d=s.dom[v.e->var];
  if(v.e->w==1){ if(band(d,v.e->bits).empty()) return cval(0); if(bandn(d,v.e->bits).empty()) return cval(1); return v; }
  bool have=false; uint64_t x=0; for(int k=0;k<4;k++) for(uint64_t w=d.w[k];w;w&=w-1){ uint64_t y=v.e->lut[k*64+__builtin_ctzll(w)]; if(!have){x=y;have=true;} else if(x!=y) return v; }
  return have?cval(x):v; }
// the conjuncts of an assertion that do not hold on the whole remaining domain of their byte
static void conjuncts(State&s,Val c,std::vector<Val>&out){ 
  if(!c.e){ if(!(c.c&1)) out.push_back(c); return; }
  if(c.e->k==K_LUT && bandn(s.dom[c.e->var],c.e->bits).empty()) return;
  if(c.e->k==K_AND && c.e->w==1) { conjuncts(s,c.e->a,out); conjuncts(s,c.e->b,out); return; }
  if(c.e->k==K_XOR && !c.e->b.e && c.e->b.c==1 && c.e->a.e && c.e->a.e->k==K_OR) { conjuncts(s,mkNot(c.e->a.e->a),out); conjuncts(s,mkNot(c.e->a.e->b),out); return; }
  out.push_back(c); }

// ---------------------------------------------------------------- executor
static std::string where(State&s){ std::string r; for(int i=(int)s.st.size()-1;i>=0&&i>=(int)s.st.size()-6;i--){ if(!r.empty()) r+=" < "; r+=s.st[i].fn->name; } return r; }
static std::vector<std::pair<std::string,int>> modelOf(State&s,const std::vector<uint8_t>&m){ std::vector<std::pair<std::string,int>> r; for(size_t i=0;i<s.names.size();i++) r.push_back({*s.names[i],m[i]}); return r; }
static void violation(State&s,const char*kind,const std::string&msg,const std::vector<uint8_t>&model){ S.errors++; std::string w=where(s); std::string key=std::string(kind)+"|"+msg+"|"+(s.st.empty()?"":s.st.back().fn->name); if(violKeys.count(key)) return; if((int)viols.size()>=optMaxViol) return; violKeys.insert(key); viols.push_back({kind,msg,w,modelOf(s,model)}); }
static bool wantStop(){ return (int)viols.size()>=optMaxViol; }

static Obj* rd(State&s,uint64_t id){ if(id<R0) return id?roTab[id]:nullptr; id-=R0; if(id>=s.mem.size()) return nullptr; return s.mem[id].p; }
static Obj* wr(State&s,uint64_t id){ if(id<R0) return nullptr; id-=R0; if(id>=s.mem.size()) return nullptr; ObjP&p=s.mem[id]; if(!p.p) return nullptr; if(p.p->rc>1) p=ObjP(cloneObj(p.p)); return p.p; }
static uint64_t allocObj(State&s,uint64_t size,bool heap,uint8_t fill){ if(size>=(1u<<OSH)) return 0; Obj*o=newObj(size,fill); o->heap=heap; uint64_t id=R0+s.mem.size(); s.mem.push_back(ObjP(o)); return id<<OSH; }
static Val loadAt(Obj*o,uint64_t off,int n){ 
  if(o->s){ bool sym=false; for(int i=0;i<n;i++) if(o->s[off+i]) {sym=true;break;}
    if(sym){ Val r; for(int i=0;i<n;i++){ Val b= o->s[off+i]? Val{0,o->s[off+i]}:cval(o->d[off+i]); if(i==0) r=b; else r=mkConcat(8*(i+1),8*i,b,r);} return r; } }
  uint64_t v=0; memcpy(&v,o->d+off,n); return cval(v); }
static void storeAt(Obj*o,uint64_t off,int n,int w,Val v){ if(!v.e){ memcpy(o->d+off,&v.c,n); if(o->s) for(int i=0;i<n;i++) o->s[off+i]=nullptr; return; }
  if(!o->s) o->s=(const Expr**)calloc(o->size,sizeof(Expr*));
  if(w<8*n) v=mkZext(8*n,w,v);
  for(int i=0;i<n;i++){ Val b=mkExtract(8,8*n,8*i,v); o->s[off+i]=b.e; if(!b.e) o->d[off+i]=b.c; } }
struct Exec {
  State*s; bool dead; // current
  enum {OK, AGAIN, DEAD};
  State* dup(){ static bool dbg=getenv("SX_FORKS")!=nullptr; if(dbg) fprintf(stderr,"FORK %s pc=%d\n",where(*s).c_str(),s->st.empty()?0:(int)s->st.back().pc); State*n=new State(*s); S.forks++; return n; }
  void push(State*n){ n->depth++; work.push_back(n); S.states++; }
  // make v concrete; the other values are explored by re-executing this instruction
  int concretize(Val v,uint64_t&out,int w){
    if(!v.e){out=v.c;return OK;}
    uint64_t x=evalV(v,s->model); Val eq=mkCmp(K_EQ,w,v,cval(x));
    if(!eq.e){ out=x; return OK; }
    std::vector<std::pair<uint64_t,std::vector<uint8_t>>> vals;
    if(v.e->k==K_LUT && !s->ent[v.e->var]){ // all values of one unconstrained-with-others byte
      std::set<uint64_t> seen; seen.insert(x); Bits256&d=s->dom[v.e->var];
      for(int i=0;i<256;i++) if(d.get(i)){ uint64_t y=lutAt(v.e,i); if(seen.insert(y).second){ auto m=s->model; m[v.e->var]=i; vals.push_back({y,m}); } }
      S.dom++;
    } else { // enumerate with one incremental solver session
      std::vector<uint8_t> m=s->model; std::vector<uint64_t> got{x};
      zenum(*s,v,w,got,vals);
    }
    for(auto&p:vals){ State*n=dup(); addCons(*n,mkCmp(K_EQ,w,v,cval(p.first)),p.second); push(n); }
    addCons(*s,eq,s->model); out=x; return OK; }
  void err(const char*kind,const std::string&msg){ violation(*s,kind,msg,s->model); dead=true; }
  // Resolve address for an n-byte access; returns false if path died. On return addr concrete & valid.
  bool validAt(uint64_t a,int n,bool write,std::string*why){ uint64_t id=a>>OSH; Obj*o=a<FNBASE?rd(*s,id):nullptr; if(!o){ if(why){ char b[64]; snprintf(b,64,a<4096?"null pointer access":"access to invalid or freed memory"); *why=b;} return false;} uint64_t off=a&((1u<<OSH)-1); if(off+n>o->size){ if(why) *why=std::string("out of bounds ")+(write?"write":"read")+(o->name?" ("+*o->name+")":""); return false;} if(write&&o->ro){ if(why)*why="write to constant"; return false;} return true; }
  bool addrC(uint64_t a,int n,bool write){ std::string w; if(validAt(a,n,write,&w)) return true; err("memory",w); return false; }
  Val muxTab(Obj*o,uint64_t stride,int n,Val idx,int bits,uint64_t lo,uint64_t cnt){ // value of entry idx in [lo,lo+2^bits)
    if(lo>=cnt) return cval(0xDEADDEAD); 
    if(bits==0){ uint64_t v=0; memcpy(&v,o->d+lo*stride,n); return cval(v); }
    uint64_t h=1ull<<(bits-1); Val L=muxTab(o,stride,n,idx,bits-1,lo,cnt); if(lo+h>=cnt) return L; Val Rr=muxTab(o,stride,n,idx,bits-1,lo+h,cnt);
    Val bit=mkExtract(1,64,bits-1,idx); return mkIte(n*8,bit,Rr,L); }
  Val load(Val addr,int n,int w){
    Val r;
    if(!addr.e){ if(!addrC(addr.c,n,false)) return cval(0); r=loadAt(rd(*s,addr.c>>OSH),addr.c&((1u<<OSH)-1),n); }
    else if(addr.e->k==K_LUT){
      const Expr*e=addr.e; Bits256 d=s->dom[e->var]; Bits256 bad; bad.clear(); bool allc=true; std::map<uint64_t,Val> vals; 
      for(int i=0;i<256;i++) if(d.get(i)){ uint64_t a=e->lut[i]; auto it=vals.find(a); if(it!=vals.end()) { continue; } if(!validAt(a,n,false,nullptr)) { bad.set(i); continue; } Val x=loadAt(rd(*s,a>>OSH),a&((1u<<OSH)-1),n); if(x.e) allc=false; vals[a]=x; }
      for(int i=0;i<256;i++) if(d.get(i)&&!vals.count(e->lut[i])) bad.set(i);
      if(!bad.empty()){ Expr t; uint64_t v[256]; for(int i=0;i<256;i++) v[i]=bad.get(i); Val c=mkLUT(e->var,1,v); 
        if(c.e){ std::vector<uint8_t> m; if(mayBe(*s,c,m)){ std::string why; validAt(evalV(addr,m),n,false,&why); violation(*s,"memory",why,m); } std::vector<uint8_t> m2; if(!mayBe(*s,mkNot(c),m2)){dead=true;return cval(0);} addCons(*s,mkNot(c),m2); }
        else { std::string why; validAt(evalV(addr,s->model),n,false,&why); err("memory",why); return cval(0);} }
      if(allc){ uint64_t v[256]; uint64_t any=vals.empty()?0:vals.begin()->second.c; for(int i=0;i<256;i++){ auto it=vals.find(e->lut[i]); v[i]= (d.get(i)&&it!=vals.end())?it->second.c:any; } r=mkLUT(e->var,n*8,v); }
      else { bool first=true; for(auto&p:vals){ if(first){r=p.second;first=false;} else r=mkIte(n*8,mkCmp(K_EQ,64,addr,cval(p.first)),p.second,r);} }
    } else {
      uint64_t a=evalV(addr,s->model); Obj*o=a<FNBASE?rd(*s,a>>OSH):nullptr; 
      if(o && !o->s && o->ro && o->size<=optMux && n<=8){ uint64_t base=a>>OSH<<OSH; Val off=mkBin(K_SUB,64,addr,cval(base)); Val inb=mkCmp(K_ULE,64,off,cval(o->size-n)); 
        std::vector<uint8_t> m; if(inb.e){ int q=mayBe(*s,mkNot(inb),m); if(q){ State*nn=dup(); addCons(*nn,mkNot(inb),m); push(nn);} std::vector<uint8_t> m2; if(!mayBe(*s,inb,m2)) { dead=true; return cval(0);} addCons(*s,inb,m2); }
        uint64_t stride=1; // find a stride: is off always a multiple of n ?
        if(n>1){ Val mis=mkCmp(K_EQ,64,mkBin(K_AND,64,off,cval(n-1)),cval(0)); std::vector<uint8_t> m3; if(!mis.e? !mis.c : mayBe(*s,mkNot(mis),m3)!=0) { goto enumerate; } stride=n; }
        uint64_t cnt=o->size/stride; int bits=0; while((1ull<<bits)<cnt) bits++; Val idx= stride>1? mkBin(K_LSHR,64,off,cval(__builtin_ctz(stride))):off; r=muxTab(o,stride,n,idx,bits,0,cnt);
      } else { enumerate: uint64_t x; concretize(addr,x,64); if(!addrC(x,n,false)) return cval(0); r=loadAt(rd(*s,x>>OSH),x&((1u<<OSH)-1),n); }
    }
    if(w<8*n) r=mkExtract(w,8*n,0,r);
    return simp(r);
  }
  Val simp(Val r){ if(r.e&&r.e->k==K_LUT){ Bits256&d=s->dom[r.e->var]; if(d.count()==1) return cval(lutAt(r.e,d.first())); } return r; }
  void store(Val addr,int n,int w,Val v){ uint64_t a; if(addr.e) concretize(addr,a,64); else a=addr.c; if(!addrC(a,n,true)) return; storeAt(wr(*s,a>>OSH),a&((1u<<OSH)-1),n,w,v); }
  std::string cstr(Val p){ std::string r; if(p.e) return "?"; Obj*o=rd(*s,p.c>>OSH); uint64_t off=p.c&((1u<<OSH)-1); while(o&&off<o->size&&o->d[off]&&r.size()<300) { r+= (o->s&&o->s[off])?'?':(char)o->d[off]; off++; } return r; }
  void finish(){ S.paths++; if((int)samples.size()<optSamples || (rng=rng*6364136223846793005ull+1442695040888963407ull, (rng>>33)%S.paths<(uint64_t)optSamples)) { Sample sm; sm.model=modelOf(*s,s->model); for(auto&o:s->obs) sm.obs.push_back(evalV(o,s->model)); if((int)samples.size()<optSamples) samples.push_back(sm); else samples[(rng>>13)%optSamples]=sm; } dead=true; }
  void enter(Fn*f,const std::vector<Val>&args,int dst,int ndst,bool isExit){ if(!f->translated){ Translator t; t.F=f; t.run(); } fnCalled[f->name]++; s->stk+=128; if(s->stk>STACKLIM||s->st.size()>60000){ err("memory","stack overflow"); return; }
    s->st.emplace_back(); Frame&n=s->st.back(); n.fn=f;n.pc=0;n.regs.resize(f->nregs,cval(0));n.dst=dst;n.ndst=ndst;n.va=0;n.stk=128;n.isExit=isExit; int np=f->nparams; for(int i=0;i<np&&i<(int)args.size();i++) n.regs[i]=args[i];
    if(f->vararg){ size_t nv=args.size()>(size_t)np?args.size()-np:0; uint64_t a=allocObj(*s,8*nv+8,false,0); Obj*o=wr(*s,a>>OSH); for(size_t i=0;i<nv;i++) { storeAt(o,8*i,8,64,args[np+i]); } n.va=a; n.allocas.push_back(a); } }
  void freeObj(uint64_t a){ uint64_t id=a>>OSH; if(id>=R0&&id-R0<s->mem.size()) s->mem[id-R0].drop(); }
  void doExit(Val code){ if(onExit&&!s->exiting){ s->exiting=true; std::vector<Val> a{code}; enter(onExit,a,-1,0,true); } else finish(); }
  void memcpyC(uint64_t d,uint64_t q,uint64_t n){ if(!n) return; if(!addrC(q,n,false)||!addrC(d,n,true)) return; Obj*to=wr(*s,d>>OSH); Obj*from=rd(*s,q>>OSH); uint64_t od=d&((1u<<OSH)-1),oq=q&((1u<<OSH)-1); memmove(to->d+od,from->d+oq,n); if(from->s){ if(!to->s) to->s=(const Expr**)calloc(to->size,sizeof(Expr*)); memmove(to->s+od,from->s+oq,n*sizeof(Expr*)); } else if(to->s) memset(to->s+od,0,n*sizeof(Expr*)); }
  void run(State*st0);
  int builtin(Fn*f,const std::vector<Val>&a,Val&ret); // OK: done, AGAIN: body should be executed, DEAD
};
int Exec::builtin(Fn*f,const std::vector<Val>&a,Val&ret){
  ret=cval(0); uint64_t x,y;
  switch(f->builtin){
    case B_MALLOC: concretize(a[0],x,64); ret=cval(allocObj(*s,x,true,optFill)); return OK;
    case B_CALLOC: concretize(a[0],x,64); concretize(a[1],y,64); ret=cval(allocObj(*s,x*y,true,0)); return OK;
    case B_REALLOC: { concretize(a[0],x,64); concretize(a[1],y,64); uint64_t n=allocObj(*s,y,true,optFill); if(x){ Obj*o=rd(*s,x>>OSH); if(!o||(x&((1u<<OSH)-1))||!o->heap){err("memory","realloc of invalid pointer");return DEAD;} uint64_t sz=o->size<y?o->size:y; if(sz) memcpyC(n,x,sz); freeObj(x);} ret=cval(n); return OK; }
    case B_FREE: { concretize(a[0],x,64); if(!x) return OK; Obj*o=x<FNBASE?rd(*s,x>>OSH):nullptr; if(!o||!o->heap||(x&((1u<<OSH)-1))) { err("memory","free of invalid or already freed pointer"); return DEAD; } freeObj(x); return OK; }
    case B_MEMCPY: { uint64_t z; concretize(a[0],x,64); concretize(a[1],y,64); concretize(a[2],z,64); memcpyC(x,y,z); ret=cval(x); return dead?DEAD:OK; }
    case B_MEMSET: { uint64_t z; concretize(a[0],x,64); concretize(a[2],z,64); if(z){ if(!addrC(x,z,true)) return DEAD; Obj*o=wr(*s,x>>OSH); Val b=mkExtract(8,32,0,a[1]); for(uint64_t i=0;i<z;i++) storeAt(o,(x&((1u<<OSH)-1))+i,1,8,b);} ret=cval(x); return OK; }
    case B_BYTE: { int v=s->dom.size(); if(v>=NSYM) fatal("too many symbolic bytes"); Bits256 d; d.fill(); s->dom.push_back(d); s->model.push_back(0); s->names.push_back(new std::string(cstr(a[0]))); uint64_t l[256]; for(int i=0;i<256;i++) l[i]=i; ret=mkLUT(v,8,l); ret=mkZext(32,8,ret); return OK; }
    case B_ASSUME: { Val c=mkNot(mkCmp(K_EQ,32,a[0],cval(0))); std::vector<uint8_t> m; if(!mayBe(*s,c,m)){ S.assumed++; dead=true; return DEAD; } addCons(*s,c,m); return OK; }
    case B_ASSERT: { S.asserts++; Val c=mkNot(mkCmp(K_EQ,32,a[0],cval(0))); if(!c.e){ if(!c.c){ err("assert",cstr(a[1])); return DEAD; } return OK; }
      S.assertq++; std::vector<uint8_t> m=s->model; Val nc=mkNot(c); { std::vector<Val> cj; conjuncts(*s,c,cj); if(cj.empty()){ S.dom++; crossNo(*s,nc.e); return OK; } Val k=cj[0]; bool sym=k.e; for(size_t i=1;i<cj.size();i++){ sym=sym&&cj[i].e; k=mkBin(K_AND,1,k,cj[i]); } if(sym&&k.e) nc=mkNot(k); } int r=zcheck(*s,nc.e,m); if(r==1) violation(*s,"assert",cstr(a[1]),m); std::vector<uint8_t> m2; if(r!=0){ if(!mayBe(*s,c,m2)){dead=true;return DEAD;} addCons(*s,c,m2);} return OK; }
    case B_OBSERVE: s->obs.push_back(a[0]); return OK;
    case B_CONC: { concretize(a[0],x,32); ret=cval(x); return OK; }
    case B_ABORT: err("abort","abort() called"); return DEAD;
    case B_ASSERTFAIL: err("abort","assertion in the code failed: "+cstr(a[0])); return DEAD;
    case B_DIE: finish(); return DEAD;
    case B_ISSYM: ret=cval(a[0].e!=nullptr); return OK;
    case B_REACH: reached[cstr(a[0])]++; return OK;
    case B_PRINTS: fprintf(stderr,"[sx] %s %s\n",cstr(a[0]).c_str(),a.size()>1? (a[1].e?"sym":std::to_string(a[1].c).c_str()):""); return OK;
    case B_STRLEN: { if(a[0].e) return AGAIN; uint64_t p=a[0].c; Obj*o=p<FNBASE?rd(*s,p>>OSH):nullptr; if(!o) return AGAIN; uint64_t off=p&((1u<<OSH)-1); uint64_t i=off; for(;i<o->size;i++){ if(o->s&&o->s[i]) return AGAIN; if(!o->d[i]) { ret=cval(i-off); return OK; } } return AGAIN; }
    case B_STRCMP: { if(a[0].e||a[1].e) return AGAIN; Obj*o=a[0].c<FNBASE?rd(*s,a[0].c>>OSH):nullptr,*q=a[1].c<FNBASE?rd(*s,a[1].c>>OSH):nullptr; if(!o||!q) return AGAIN; uint64_t i=a[0].c&((1u<<OSH)-1),j=a[1].c&((1u<<OSH)-1); for(;i<o->size&&j<q->size;i++,j++){ if((o->s&&o->s[i])||(q->s&&q->s[j])) return AGAIN; if(o->d[i]!=q->d[j]||!o->d[i]) { ret=cval((uint64_t)(o->d[i]-q->d[j])&0xffffffff); return OK; } } return AGAIN; }
  }
  fatal("builtin");
}
static double asD(uint64_t v,int w){ if(w==32){float f; uint32_t u=v; memcpy(&f,&u,4); return f;} double d; memcpy(&d,&v,8); return d; }
static uint64_t fromD(double d,int w){ if(w==32){float f=d; uint32_t u; memcpy(&u,&f,4); return u;} uint64_t v; memcpy(&v,&d,8); return v; }
void Exec::run(State*st0){
  s=st0; dead=false; uint64_t tick=0;
  while(!dead){
    Frame*F=&s->st.back(); Fn*fn=F->fn; const Inst&I=fn->code[F->pc]; 
    S.insts++; if(++s->ninst>optMaxInst){ S.limit++; violation(*s,"hang","instruction limit exceeded (non-termination?)",s->model); break; }
    if(S.timeout || ((++tick&0xfff)==0 && now()>deadline)){ S.timeout=true; break; }
    #define V(x) ((x)>=0?F->regs[x]:fn->consts[~(x)])
    #define SET(v) F->regs[I.dst]=(v)
    switch(I.op){
      case O_BIN: { Val a=V(I.a),b=V(I.b); 
        if(I.sub>=K_UDIV&&I.sub<=K_SREM){ if(!b.e){ if(!b.c){ err("arith","division by zero"); continue; } } else { Val z=mkCmp(K_EQ,I.w,b,cval(0)); std::vector<uint8_t> m; if(mayBe(*s,z,m)) { violation(*s,"arith","division by zero",m); if(!mayBe(*s,mkNot(z),m)) {dead=true;continue;} addCons(*s,mkNot(z),m);} } }
        if(!a.e&&!b.e) SET(cval(evalOp((Kind)I.sub,I.w,I.w,a.c,b.c,0,0))); else SET(fold1(*s,mkBin((Kind)I.sub,I.w,a,b))); F->pc++; break; }
      case O_CMP: { Val a=V(I.a),b=V(I.b); Val r; if(!a.e&&!b.e){ uint64_t x=a.c,y=b.c; bool q; switch(I.sub){case CmpInst::ICMP_EQ:q=x==y;break;case CmpInst::ICMP_NE:q=x!=y;break;case CmpInst::ICMP_ULT:q=x<y;break;case CmpInst::ICMP_ULE:q=x<=y;break;case CmpInst::ICMP_UGT:q=x>y;break;case CmpInst::ICMP_UGE:q=x>=y;break;case CmpInst::ICMP_SLT:q=sextw(x,I.w)<sextw(y,I.w);break;case CmpInst::ICMP_SLE:q=sextw(x,I.w)<=sextw(y,I.w);break;case CmpInst::ICMP_SGT:q=sextw(x,I.w)>sextw(y,I.w);break;default:q=sextw(x,I.w)>=sextw(y,I.w);} r=cval(q); }
        else switch(I.sub){case CmpInst::ICMP_EQ:r=mkCmp(K_EQ,I.w,a,b);break;case CmpInst::ICMP_NE:r=mkNot(mkCmp(K_EQ,I.w,a,b));break;case CmpInst::ICMP_ULT:r=mkCmp(K_ULT,I.w,a,b);break;case CmpInst::ICMP_ULE:r=mkCmp(K_ULE,I.w,a,b);break;case CmpInst::ICMP_UGT:r=mkCmp(K_ULT,I.w,b,a);break;case CmpInst::ICMP_UGE:r=mkCmp(K_ULE,I.w,b,a);break;case CmpInst::ICMP_SLT:r=mkCmp(K_SLT,I.w,a,b);break;case CmpInst::ICMP_SLE:r=mkCmp(K_SLE,I.w,a,b);break;case CmpInst::ICMP_SGT:r=mkCmp(K_SLT,I.w,b,a);break;default:r=mkCmp(K_SLE,I.w,b,a);}
        SET(fold1(*s,r)); F->pc++; break; }
      case O_SEL: { Val c=V(I.a); if(!c.e) SET(c.c?V(I.b):V(I.c)); else { if(c.e->k==K_LUT){ Bits256&d=s->dom[c.e->var]; if(band(d,c.e->bits).empty()) {SET(V(I.c));F->pc++;break;} if(bandn(d,c.e->bits).empty()){SET(V(I.b));F->pc++;break;} } SET(mkIte(I.w,c,V(I.b),V(I.c))); } F->pc++; break; }
      case O_ZEXT: { Val a=V(I.a); SET(a.e?mkZext(I.w,I.wa,a):a); F->pc++; break; }
      case O_SEXT: { Val a=V(I.a); SET(a.e?mkSext(I.w,I.wa,a):cval((uint64_t)sextw(a.c,I.wa)&maskw(I.w))); F->pc++; break; }
      case O_TRUNC: { Val a=V(I.a); SET(a.e?mkExtract(I.w,I.wa,0,a):cval(a.c&maskw(I.w))); F->pc++; break; }
      case O_MOV: { Val a=V(I.a); SET(a); F->pc++; break; }
      case O_LOAD: { Val a=V(I.a); Val r=load(a,I.n,I.w); if(dead) continue; F->regs[I.dst]=r; F->pc++; break; }
      case O_STORE: { Val a=V(I.a),v=V(I.b); store(a,I.n,I.w,v); if(dead) continue; F->pc++; break; }
      case O_GEP: { Val a=V(I.a); Val r= a.e? (I.imm?mkBin(K_ADD,64,a,cval(I.imm)):a): cval(a.c+I.imm); for(int k=0;k<I.n;k++){ const GepT&g=fn->geps[I.ext+k]; Val x=V(g.idx); if(!x.e&&!r.e) r=cval(r.c+(uint64_t)(sextw(x.c,g.w)*g.scale)); else { Val xx=mkSext(64,g.w,x); if(!xx.e) xx=cval((uint64_t)sextw(x.c,g.w)); Val sc= g.scale==1?xx:mkBin(K_MUL,64,xx,cval((uint64_t)g.scale)); r=mkBin(K_ADD,64,r,sc);} } SET(r); F->pc++; break; }
      case O_ALLOCA: { uint64_t n; concretize(V(I.a),n,32); F=&s->st.back(); F->stk+=I.imm*n; s->stk+=I.imm*n; if(s->stk>STACKLIM){ err("memory","stack overflow"); continue; } uint64_t a=allocObj(*s,I.imm*n,false,optFill); F->allocas.push_back(a); F->regs[I.dst]=cval(a); F->pc++; break; }
      case O_BR: case O_CBR: case O_SWITCH: {
        int e=-1;
        if(I.op==O_BR) e=I.a;
        else if(I.op==O_CBR){ Val c=V(I.a); if(!c.e) e=c.c?I.b:I.c; else { std::vector<uint8_t> m1,m0; Val nc=mkNot(c); int r1,r0; 
            // the current model satisfies one side
            bool cur=evalV(c,s->model)&1; if(cur){ r1=1; m1=s->model; r0=mayBe(*s,nc,m0);} else { r0=1;m0=s->model; r1=mayBe(*s,c,m1);} 
            if(r1&&r0){ State*n=dup(); Frame&nf=n->st.back(); addCons(*n,nc,m0); 
              // take false edge in n
              const Edge&E=fn->edges[I.c]; std::vector<Val> t; for(auto&p:E.copies) t.push_back(p.second>=0?nf.regs[p.second]:fn->consts[~p.second]); for(size_t k=0;k<t.size();k++) nf.regs[E.copies[k].first]=t[k]; nf.pc=E.target; push(n);
              addCons(*s,c,m1); e=I.b; }
            else if(r1){ e=I.b; } else e=I.c; } }
        else { Val c=V(I.a); if(!c.e){ e=I.b; for(int k=0;k<I.n;k++) if(fn->cases[I.ext+k].v==c.c){e=fn->cases[I.ext+k].edge;break;} }
          else { // group by edge
            std::map<int,Val> grp; Val none=cval(1); 
            for(int k=0;k<I.n;k++){ const SwCase&sc=fn->cases[I.ext+k]; Val q=mkCmp(K_EQ,I.w,c,cval(sc.v)); int tgt=sc.edge; 
              // merge cases going to the same block with identical phi copies
              for(auto&g:grp) if(fn->edges[g.first].target==fn->edges[tgt].target&&fn->edges[g.first].copies==fn->edges[tgt].copies){tgt=g.first;break;}
              auto it=grp.find(tgt); if(it==grp.end()) grp[tgt]=q; else it->second=mkBin(K_OR,1,it->second,q); none=mkBin(K_AND,1,none,mkNot(q)); }
            { int tgt=I.b; for(auto&g:grp) if(fn->edges[g.first].target==fn->edges[tgt].target&&fn->edges[g.first].copies==fn->edges[tgt].copies){tgt=g.first;break;} auto it=grp.find(tgt); if(it==grp.end()) grp[tgt]=none; else it->second=mkBin(K_OR,1,it->second,none); }
            std::vector<std::tuple<int,Val,std::vector<uint8_t>>> fe; for(auto&g:grp){ std::vector<uint8_t> m; if(mayBe(*s,g.second,m)) fe.emplace_back(g.first,g.second,m); }
            if(fe.empty()){dead=true;continue;}
            for(size_t k=1;k<fe.size();k++){ State*n=dup(); Frame&nf=n->st.back(); addCons(*n,std::get<1>(fe[k]),std::get<2>(fe[k])); const Edge&E=fn->edges[std::get<0>(fe[k])]; std::vector<Val> t; for(auto&p:E.copies) t.push_back(p.second>=0?nf.regs[p.second]:fn->consts[~p.second]); for(size_t q=0;q<t.size();q++) nf.regs[E.copies[q].first]=t[q]; nf.pc=E.target; push(n); }
            addCons(*s,std::get<1>(fe[0]),std::get<2>(fe[0])); e=std::get<0>(fe[0]); } }
        const Edge&E=fn->edges[e]; size_t nc=E.copies.size(); if(nc==1){ F->regs[E.copies[0].first]=V(E.copies[0].second);} else if(nc){ Val t[64]; std::vector<Val> big; Val*tp=t; if(nc>64){big.resize(nc);tp=big.data();} for(size_t k=0;k<nc;k++) tp[k]=V(E.copies[k].second); for(size_t k=0;k<nc;k++) F->regs[E.copies[k].first]=tp[k]; }
        F->pc=E.target; break; }
      case O_RET: { std::vector<Val> rv; for(int k=0;k<I.n;k++) rv.push_back(V(fn->args[I.ext+k])); int dst=F->dst,nd=F->ndst; bool ex=F->isExit; for(uint64_t a:F->allocas) freeObj(a); s->stk-=F->stk; s->st.pop_back(); if(ex){ finish(); continue; } if(s->st.empty()){ s->st.emplace_back(); Frame&d=s->st.back(); d.fn=fn; d.pc=0; doExit(rv.empty()?cval(0):rv[0]); continue; } Frame&G=s->st.back(); for(int k=0;k<nd&&k<(int)rv.size();k++) G.regs[dst+k]=rv[k]; break; }
      case O_CALL: { Fn*f; if(I.imm) f=(Fn*)I.imm; else { uint64_t x; concretize(V(I.a),x,64); if(x<FNBASE||(x-FNBASE)/16>=fns.size()){ err("memory","call through invalid function pointer"); continue;} f=fns[(x-FNBASE)/16]; }
        F=&s->st.back(); std::vector<Val> a; a.reserve(I.n); for(int k=0;k<I.n;k++) a.push_back(V(fn->args[I.ext+k]));
        if(f->builtin>=0){ if(f->builtin==B_EXIT){ doExit(a[0]); continue; } if((f->builtin==B_ABORT||f->builtin==B_ASSERTFAIL)&&onAbort&&!s->exiting){ s->exiting=true; std::vector<Val> q; enter(onAbort,q,-1,0,true); continue; }
          Val r; int k=builtin(f,a,r); if(dead||k==DEAD) { dead=true; continue; } if(k==OK){ F=&s->st.back(); if(I.dst>=0) F->regs[I.dst]= I.w&&I.w<64? (r.e? r: cval(r.c&maskw(I.w))):r; F->pc++; break; } }
        if(f->f->isDeclaration()){ static std::set<std::string> seen; if(seen.insert(f->name).second) fprintf(stderr,"sx: unsupported external function %s called from %s: path abandoned, result incomplete\n",f->name.c_str(),where(*s).c_str()); S.qunk++; dead=true; continue; }
        F->pc++; enter(f,a,I.dst,I.c,false); break; }
      case O_UNREACH: err("abort","unreachable executed"); continue;
      case O_TRAP: err("abort","trap"); continue;
      case O_ABS: { Val a=V(I.a); Val neg=mkCmp(K_SLT,I.w,a,cval(0)); SET(mkIte(I.w,neg,mkBin(K_SUB,I.w,cval(0),a),a)); F->pc++; break; }
      case O_MINMAX: { Val a=V(I.a),b=V(I.b); Val c=mkCmp(I.sub<2?K_ULT:K_SLT,I.w,a,b); SET((I.sub&1)?mkIte(I.w,c,a,b):mkIte(I.w,c,b,a)); F->pc++; break; }
      case O_MEMCPY: { uint64_t d,q,n; concretize(V(I.a),d,64); F=&s->st.back(); concretize(V(I.b),q,64); concretize(V(I.c),n,64); memcpyC(d,q,n); if(dead) continue; s->st.back().pc++; break; }
      case O_MEMSET: { uint64_t d,n; concretize(V(I.a),d,64); concretize(V(I.c),n,64); Val b=V(I.b); if(n){ if(!addrC(d,n,true)) continue; Obj*o=wr(*s,d>>OSH); uint64_t off=d&((1u<<OSH)-1); if(!b.e){ memset(o->d+off,b.c,n); if(o->s) memset(o->s+off,0,n*sizeof(Expr*)); } else for(uint64_t k=0;k<n;k++) storeAt(o,off+k,1,8,b);} F->pc++; break; }
      case O_VASTART: { uint64_t p; concretize(V(I.a),p,64); if(!addrC(p,24,true)) continue; Obj*o=wr(*s,p>>OSH); uint64_t off=p&((1u<<OSH)-1); storeAt(o,off,4,32,cval(48)); storeAt(o,off+4,4,32,cval(304)); storeAt(o,off+8,8,64,cval(F->va)); storeAt(o,off+16,8,64,cval(0)); F->pc++; break; }
      case O_VACOPY: { uint64_t d,q; concretize(V(I.a),d,64); concretize(V(I.b),q,64); memcpyC(d,q,24); if(dead) continue; F->pc++; break; }
      case O_FBIN: { uint64_t x,y; concretize(V(I.a),x,64); concretize(V(I.b),y,64); double p=asD(x,I.w),q=asD(y,I.w),r; switch(I.sub){case Instruction::FAdd:r=p+q;break;case Instruction::FSub:r=p-q;break;case Instruction::FMul:r=p*q;break;case Instruction::FDiv:r=p/q;break;case Instruction::FNeg:r=-p;break;default:r=fmod(p,q);} SET(cval(fromD(r,I.w))); F->pc++; break; }
      case O_FCMP: { uint64_t x,y; concretize(V(I.a),x,64); concretize(V(I.b),y,64); double p=asD(x,I.w),q=asD(y,I.w); bool r; switch(I.sub){case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:r=p==q;break;case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:r=p<q;break;case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:r=p<=q;break;case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:r=p>q;break;case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:r=p>=q;break;case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:r=p!=q;break;default:fatal("fcmp");} SET(cval(r)); F->pc++; break; }
      case O_FCVT: { uint64_t x; concretize(V(I.a),x,64); uint64_t r; switch(I.sub){case Instruction::SIToFP:r=fromD((double)sextw(x,I.wa),I.w);break;case Instruction::UIToFP:r=fromD((double)x,I.w);break;case Instruction::FPToSI:r=(uint64_t)(int64_t)asD(x,I.wa)&maskw(I.w);break;case Instruction::FPToUI:r=(uint64_t)asD(x,I.wa)&maskw(I.w);break;default:r=fromD(asD(x,I.wa),I.w);} SET(cval(r)); F->pc++; break; }
      case O_BSWAP: { Val a=V(I.a); int n=I.w/8; Val r=mkExtract(8,I.w,I.w-8,a); for(int k=1;k<n;k++) r=mkConcat(8*(k+1),8*k,mkExtract(8,I.w,I.w-8-8*k,a),r); SET(r); F->pc++; break; }
      case O_CTPOP: case O_CTTZ: case O_CTLZ: { Val a=V(I.a); if(a.e&&a.e->k==K_LUT){ uint64_t v[256]; for(int i=0;i<256;i++){ uint64_t x=lutAt(a.e,i); v[i]= I.op==O_CTPOP?__builtin_popcountll(x): I.op==O_CTTZ? (x?__builtin_ctzll(x):I.w): (x?__builtin_clzll(x)-(64-I.w):I.w);} SET(mkLUT(a.e->var,I.w,v)); F->pc++; break; } uint64_t x; concretize(a,x,I.w); SET(cval(I.op==O_CTPOP?__builtin_popcountll(x): I.op==O_CTTZ? (x?__builtin_ctzll(x):I.w): (x?__builtin_clzll(x)-(64-I.w):I.w))); F->pc++; break; }
      case O_FSH: { uint64_t z; concretize(V(I.c),z,I.w); z%=I.w; Val a=V(I.a),b=V(I.b),r; if(I.sub==0) r= z==0?a: mkBin(K_OR,I.w,mkBin(K_SHL,I.w,a,cval(z)),mkBin(K_LSHR,I.w,b,cval(I.w-z))); else r= z==0?b: mkBin(K_OR,I.w,mkBin(K_SHL,I.w,a,cval(I.w-z)),mkBin(K_LSHR,I.w,b,cval(z))); SET(r); F->pc++; break; }
      case O_SATSUB: { Val a=V(I.a),b=V(I.b); SET(mkIte(I.w,mkCmp(K_ULT,I.w,a,b),cval(0),mkBin(K_SUB,I.w,a,b))); F->pc++; break; }
      case O_OVF: { uint64_t x,y; concretize(V(I.a),x,I.w); concretize(V(I.b),y,I.w); uint64_t r; bool o; int64_t sx=sextw(x,I.w),sy=sextw(y,I.w); __int128 R; switch(I.sub){case 0:R=(__int128)x+y;break;case 1:R=(__int128)x-(__int128)y;break;case 2:R=(__int128)((unsigned __int128)x*y);break;case 3:R=(__int128)sx+sy;break;case 4:R=(__int128)sx-sy;break;default:R=(__int128)sx*sy;} r=(uint64_t)R&maskw(I.w); o= I.sub<3? (R<0||(unsigned __int128)R>maskw(I.w)): ((__int128)sextw(r,I.w)!=R); F->regs[I.dst]=cval(r);F->regs[I.dst+1]=cval(o);F->pc++;break; }
      case O_NOP: case O_MOVN: F->pc++; break;
    }
  }
  delete s; s=nullptr;
}

// ---------------------------------------------------------------- output
static std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;} else r+=c;} return r; }
static void writeRaw(FILE*f){ // simple line format for merging
  fprintf(f,"S %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %d %lu %f %lu\n",S.paths,S.assumed,S.errors,S.forks,S.insts,S.queries,S.qsat,S.qunsat,S.qunk,S.asserts,S.assertq,S.dom,(int)S.timeout,S.limit,S.qtime,S.cross);
  for(auto&v:viols){ fprintf(f,"V %s\t%s\t%s\t",v.kind.c_str(),v.msg.c_str(),v.where.c_str()); for(auto&p:v.model) fprintf(f,"%s=%d ",p.first.c_str(),p.second); fprintf(f,"\n"); }
  for(auto&m:samples){ fprintf(f,"M "); for(auto&p:m.model) fprintf(f,"%s=%d ",p.first.c_str(),p.second); fprintf(f,"|"); for(auto o:m.obs) fprintf(f," %lu",o); fprintf(f,"\n"); }
  for(auto&r:reached) fprintf(f,"R %s\t%lu\n",r.first.c_str(),r.second);
  for(auto&r:fnCalled) fprintf(f,"F %s\t%lu\n",r.first.c_str(),r.second);
  fprintf(f,"END\n");
}
static void z3init(){ Z3_config c=Z3_mk_config(); Z3_set_param_value(c,"model","true"); Z3_set_param_value(c,"timeout","20000"); zc=Z3_mk_context_rc(c); Z3_del_config(c); Z3_set_error_handler(zc,[](Z3_context c,Z3_error_code e){ fatal(std::string("z3 ")+Z3_get_error_msg(c,e)); }); zs=getenv("SX_SIMPLE")?Z3_mk_simple_solver(zc):Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,"QF_BV")); Z3_solver_inc_ref(zc,zs); }

int main(int argc,char**argv){
  T0=now(); std::string file;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ if(i+1>=argc) fatal("arg"); return std::string(argv[++i]); };
    if(a=="--keep-going") optKeep=true; else if(a=="--jobs") optJobs=atoi(nx().c_str()); else if(a=="--time") optTime=atof(nx().c_str()); else if(a=="--out") optOut=nx(); else if(a=="--max-inst") optMaxInst=strtoull(nx().c_str(),0,10); else if(a=="--max-viol") optMaxViol=atoi(nx().c_str()); else if(a=="--fill") optFill=strtol(nx().c_str(),0,0); else if(a=="--samples") optSamples=atoi(nx().c_str()); else if(a=="--seed") optSeed=atoi(nx().c_str()); else if(a=="--cross") optCross=atoi(nx().c_str()); else if(a=="--mux") optMux=atoi(nx().c_str()); else if(a=="--target") optTarget=atoi(nx().c_str()); else file=a; }
  rng=optSeed*7919+12345; deadline=T0+optTime;
  LLVMContext ctx; SMDiagnostic d; auto mod=parseIRFile(file,d,ctx); if(!mod){ d.print("sx",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout();
  for(auto&f:*M){ if(f.isIntrinsic()) continue; Fn*x=new Fn; x->f=&f; x->name=f.getName().str(); x->addr=FNBASE+fns.size()*16; x->vararg=f.isVarArg(); fns.push_back(x); fnOf[&f]=x; fnByName[x->name]=x; auto it=biNames.find(x->name); if(it!=biNames.end()) x->builtin=it->second; }
  if(fnByName.count("sx_on_exit")&&!fnByName["sx_on_exit"]->f->isDeclaration()) onExit=fnByName["sx_on_exit"];
  if(fnByName.count("sx_on_abort")&&!fnByName["sx_on_abort"]->f->isDeclaration()) onAbort=fnByName["sx_on_abort"];
  std::vector<std::pair<GlobalVariable*,Obj*>> gl;
  auto mk=[&](GlobalVariable&g)->Obj*{ uint64_t sz=DL->getTypeAllocSize(g.getValueType()); if(sz>=(1u<<OSH)) fatal("huge global"); Obj*o=newObj(sz,0); o->name=new std::string(g.getName().str()); return o; };
  for(auto&g:M->globals()) if(g.isConstant()&&g.hasInitializer()){ Obj*o=mk(g); o->ro=true; o->rc=1; gvAddr[&g]=(uint64_t)roTab.size()<<OSH; roTab.push_back(o); gl.push_back({&g,o}); }
  R0=roTab.size();
  for(auto&g:M->globals()) if(!(g.isConstant()&&g.hasInitializer())){ if(!g.hasInitializer()) { fprintf(stderr,"sx: undefined global %s\n",g.getName().str().c_str()); } Obj*o=mk(g); gvAddr[&g]=(R0+initMem.size())<<OSH; initMem.push_back(ObjP(o)); gl.push_back({&g,o}); }
  for(auto&p:gl) if(p.first->hasInitializer()) initBytes(p.second->d,p.first->getInitializer());
  z3init();
  Fn*mainf=fnByName.count("sx_main")?fnByName["sx_main"]:nullptr; if(!mainf) fatal("no sx_main");
  State*s0=new State; s0->mem=initMem; Exec ex; ex.s=s0; ex.dead=false; std::vector<Val> args{cval(0),cval(0)}; ex.enter(mainf,args,-1,0,false); work.push_back(s0); S.states=1;
  // breadth-first until there is enough to share out
  std::deque<State*> dq; size_t target= optJobs>1? optTarget: 1u<<30; 
  double bfsEnd=now()+20; 
  while(!work.empty()){ dq.insert(dq.end(),work.begin(),work.end()); work.clear(); if(dq.empty()) break; if(optJobs>1&&dq.size()>=target) break; if(optJobs>1 && dq.size()>=(size_t)optJobs && now()>bfsEnd) break; State*q; if(optJobs>1){ q=dq.front(); dq.pop_front(); } else { q=dq.back(); dq.pop_back(); }
    // keep remaining ones
    std::deque<State*> hold; hold.swap(dq); ex.run(q); dq.swap(hold); if(wantStop()||S.timeout){ break; } if(work.empty()&&!dq.empty()){ work.push_back(dq.front()); dq.pop_front(); } }
  bool stopped=wantStop()||S.timeout;
  std::vector<std::string> parts; std::vector<State*> tasks(dq.begin(),dq.end()); size_t pend=tasks.size(); bool crashed=false;
  char dir[]="/tmp/sxXXXXXX"; if(!mkdtemp(dir)) fatal("mkdtemp");
  std::string d0=dir; { FILE*f=fopen((d0+"/p0").c_str(),"w"); writeRaw(f); fclose(f); parts.push_back(d0+"/p0"); }
  // shared by all worker processes: a worker with several open states hands half of them to a new process when a slot is free
  struct Shared { std::atomic<int> running,procs,nextId,stop,feeding; }; Shared*sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(sh==MAP_FAILED) fatal("mmap");
  new(sh) Shared{{0},{0},{1},{0},{1}};
  if(!stopped && pend){
    prctl(PR_SET_CHILD_SUBREAPER,1);
    auto worker=[&](int id){
      for(;;){ S=Stats(); viols.clear(); samples.clear(); reached.clear(); fnCalled.clear(); rng=optSeed*7919+id; optSamples=2; Exec e2; bool child=false;
        while(!work.empty()){ State*q=work.back(); work.pop_back(); e2.run(q); if(wantStop()||S.timeout) break; if(sh->stop){ if(!work.empty()) S.timeout=true; break; }
          if(work.size()>=2&&!sh->feeding&&sh->running<optJobs){ if(sh->running.fetch_add(1)<optJobs){ int nid=sh->nextId++; sh->procs++; size_t half=work.size()/2; pid_t p=fork(); if(p<0){ sh->running--; sh->procs--; sh->nextId--; continue; }
              if(p==0){ work.resize(half); id=nid; child=true; break; } work.erase(work.begin(),work.begin()+half); } else sh->running--; } }
        if(child) continue;
        FILE*f=fopen((d0+"/p"+std::to_string(id)).c_str(),"w"); writeRaw(f); fclose(f); if(!viols.empty()&&!optKeep) sh->stop=1; sh->running--; _exit(0); } };
    size_t next=0;
    while((next<pend&&!sh->stop)||sh->procs>0){
      if(next<pend&&!sh->stop&&sh->running<optJobs){ int id=sh->nextId++; sh->running++; sh->procs++; State*t=tasks[next++]; if(next>=pend) sh->feeding=0; fflush(stdout); pid_t p=fork(); if(p==0){ work.clear(); work.push_back(t); worker(id); } if(p<0) fatal("fork"); continue; }
      int st; pid_t p= next<pend&&!sh->stop? waitpid(-1,&st,WNOHANG): waitpid(-1,&st,0); if(p==0){ usleep(500); continue; } if(p<0){ if(errno==EINTR) continue; break; } sh->procs--; if(!WIFEXITED(st)||WEXITSTATUS(st)) { crashed=true; sh->running--; fprintf(stderr,"sx: worker failed (status %x)\n",st); } if(now()>deadline) sh->stop=1; if(crashed) sh->stop=1;
    }
    if(next<pend) stopped=true;
    for(int i=1;i<sh->nextId;i++) parts.push_back(d0+"/p"+std::to_string(i));
  }
  // merge
  Stats T; std::vector<std::string> vl,ml; std::map<std::string,uint64_t> rr,ff; bool to=false;
  for(auto&p:parts){ FILE*f=fopen(p.c_str(),"r"); if(!f){crashed=true;continue;} char*line=nullptr; size_t cap=0; ssize_t n; bool end=false; while((n=getline(&line,&cap,f))>0){ if(line[n-1]=='\n') line[n-1]=0; if(line[0]=='S'){ Stats q; int t; sscanf(line+2,"%lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %d %lu %lf %lu",&q.paths,&q.assumed,&q.errors,&q.forks,&q.insts,&q.queries,&q.qsat,&q.qunsat,&q.qunk,&q.asserts,&q.assertq,&q.dom,&t,&q.limit,&q.qtime,&q.cross); T.paths+=q.paths;T.assumed+=q.assumed;T.errors+=q.errors;T.forks+=q.forks;T.insts+=q.insts;T.queries+=q.queries;T.qsat+=q.qsat;T.qunsat+=q.qunsat;T.qunk+=q.qunk;T.asserts+=q.asserts;T.assertq+=q.assertq;T.dom+=q.dom;T.cross+=q.cross;T.limit+=q.limit;T.qtime+=q.qtime; if(t) to=true; } else if(line[0]=='V') vl.push_back(line+2); else if(line[0]=='M') ml.push_back(line+2); else if(line[0]=='R'||line[0]=='F'){ char*t=strchr(line,'\t'); *t=0; (line[0]=='R'?rr:ff)[line+2]+=strtoull(t+1,0,10);} else if(!strcmp(line,"END")) end=true; } if(!end) crashed=true; free(line); fclose(f); unlink(p.c_str()); }
  for(int k=0;k<sh->nextId;k++) unlink((d0+"/p"+std::to_string(k)).c_str());
  rmdir(dir);
  FILE*o=fopen(optOut.c_str(),"w"); if(!o) fatal("out");
  auto jm=[&](const std::string&s){ std::string r="["; size_t p=0; bool first=true; while(p<s.size()){ size_t e=s.find(' ',p); if(e==std::string::npos) e=s.size(); std::string t=s.substr(p,e-p); p=e+1; if(t.empty()) continue; size_t q=t.rfind('='); if(q==std::string::npos) continue; if(!first) r+=","; first=false; r+="[\""+jesc(t.substr(0,q))+"\","+t.substr(q+1)+"]"; } return r+"]"; };
  bool complete=!stopped&&!crashed&&!to&&!T.qunk;
  fprintf(o,"{\"complete\":%s,\"crashed\":%s,\"timeout\":%s,\"paths\":%lu,\"assumed_out\":%lu,\"errors\":%lu,\"forks\":%lu,\"insts\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"asserts\":%lu,\"assert_queries\":%lu,\"domain_decisions\":%lu,\"domain_confirmed_by_z3\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\n\"violations\":[",complete?"true":"false",crashed?"true":"false",to?"true":"false",T.paths,T.assumed,T.errors,T.forks,T.insts,T.queries,T.qsat,T.qunsat,T.qunk,T.asserts,T.assertq,T.dom,T.cross,T.qtime,now()-T0);
  for(size_t i=0;i<vl.size();i++){ std::vector<std::string> f; std::string t; for(char c:vl[i]) if(c=='\t'){f.push_back(t);t.clear();} else t+=c; f.push_back(t); while(f.size()<4) f.push_back(""); fprintf(o,"%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"model\":%s}",i?",\n":"",jesc(f[0]).c_str(),jesc(f[1]).c_str(),jesc(f[2]).c_str(),jm(f[3]).c_str()); }
  fprintf(o,"],\n\"samples\":["); for(size_t i=0;i<ml.size();i++){ size_t b=ml[i].find('|'); std::string m=ml[i].substr(0,b),ob=ml[i].substr(b+1); std::string oj; for(size_t p=0;p<ob.size();){ size_t e=ob.find(' ',p); if(e==std::string::npos)e=ob.size(); std::string t=ob.substr(p,e-p); p=e+1; if(t.empty()) continue; if(!oj.empty()) oj+=","; oj+=t; } fprintf(o,"%s{\"model\":%s,\"obs\":[%s]}",i?",\n":"",jm(m).c_str(),oj.c_str()); }
  fprintf(o,"],\n\"reached\":{"); bool first=true; for(auto&r:rr){ fprintf(o,"%s\"%s\":%lu",first?"":",",jesc(r.first).c_str(),r.second); first=false; } fprintf(o,"},\n\"functions\":{"); first=true; for(auto&r:ff){ fprintf(o,"%s\"%s\":%lu",first?"":",",jesc(r.first).c_str(),r.second); first=false; } fprintf(o,"}}\n"); fclose(o);
  fprintf(stderr,"sx: paths=%lu assumed=%lu errors=%lu forks=%lu insts=%lu queries=%lu (%.1fs) unk=%lu asserts=%lu wall=%.1fs %s\n",T.paths,T.assumed,T.errors,T.forks,T.insts,T.queries,T.qtime,T.qunk,T.asserts,now()-T0,complete?"complete":"INCOMPLETE");
  return 0;
}
