// Bit-vector expressions over symbolic input bytes.  Every expression that
// depends on exactly one input byte is kept in a canonical form (a lookup
// table over the 256 values of that byte); anything else is a hash-consed DAG
// that is handed to z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <bitset>
#include <unordered_map>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

static const int NSYM = 256;
typedef std::bitset<NSYM> SymSet;

struct Bits256 {
  uint64_t w[4];
  void clear() { w[0]=w[1]=w[2]=w[3]=0; }
  void fill() { w[0]=w[1]=w[2]=w[3]=~0ull; }
  bool get(int i) const { return (w[i>>6]>>(i&63))&1; }
  void set(int i) { w[i>>6] |= 1ull<<(i&63); }
  bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
  int count() const { return __builtin_popcountll(w[0])+__builtin_popcountll(w[1])+__builtin_popcountll(w[2])+__builtin_popcountll(w[3]); }
  int first() const { for (int i=0;i<4;i++) if (w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
  bool operator==(const Bits256&o) const { return !memcmp(w,o.w,sizeof w); }
};
static inline Bits256 band(const Bits256&a,const Bits256&b){Bits256 r;for(int i=0;i<4;i++)r.w[i]=a.w[i]&b.w[i];return r;}
static inline Bits256 bandn(const Bits256&a,const Bits256&b){Bits256 r;for(int i=0;i<4;i++)r.w[i]=a.w[i]&~b.w[i];return r;}

enum Kind : uint8_t { K_LUT, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT };

struct Expr;
struct Val { uint64_t c; const Expr *e; };
static inline Val cval(uint64_t c) { return Val{c,nullptr}; }

struct Expr {
  Kind k; uint8_t w; int32_t var;      // var: K_LUT only
  uint64_t aux;                        // EXTRACT: low bit
  Val a, b, c;                         // operands (c.e==0 => constant)
  uint8_t wa;                          // width of a
  std::vector<uint64_t> lut;           // K_LUT
  Bits256 bits;                        // K_LUT of width 1
  SymSet syms;
  uint64_t h;
  Z3_ast z; uint64_t stamp; uint64_t ev;
};

static inline uint64_t maskw(int w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline int64_t sextw(uint64_t v,int w) { if (w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }

static inline uint64_t evalOp(Kind k,int w,int wa,uint64_t a,uint64_t b,uint64_t c,uint64_t aux) {
  uint64_t m = maskw(w);
  switch (k) {
    case K_ADD: return (a+b)&m;
    case K_SUB: return (a-b)&m;
    case K_MUL: return (a*b)&m;
    case K_UDIV: return b? (a/b)&m : m;
    case K_UREM: return b? (a%b)&m : a;
    case K_SDIV: { int64_t x=sextw(a,w),y=sextw(b,w); if(!y) return x<0?1:m; if (y==-1) return (uint64_t)(0-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
    case K_SREM: { int64_t x=sextw(a,w),y=sextw(b,w); if(!y) return a; if (y==-1) return 0; return (uint64_t)(x%y)&m; }
    case K_AND: return a&b; case K_OR: return a|b; case K_XOR: return a^b;
    case K_SHL: return b>=(uint64_t)w?0:(a<<b)&m;
    case K_LSHR: return b>=(uint64_t)w?0:(a>>b);
    case K_ASHR: return (uint64_t)(sextw(a,w)>>(b>=(uint64_t)w?(w-1):b))&m;
    case K_EQ: return a==b; case K_ULT: return a<b; case K_ULE: return a<=b;
    case K_SLT: return sextw(a,wa)<sextw(b,wa); case K_SLE: return sextw(a,wa)<=sextw(b,wa);
    case K_ITE: return a?b:c;
    case K_ZEXT: return a; case K_SEXT: return (uint64_t)sextw(a,wa)&m;
    case K_EXTRACT: return (a>>aux)&m;
    case K_CONCAT: return ((a<<aux)|b)&m;   // aux = width of b
    default: abort();
  }
}

struct ExprPool {
  std::unordered_multimap<uint64_t,Expr*> tab;
  size_t n=0;
  static uint64_t mix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }
  const Expr* intern(Expr &t) {
    uint64_t h = mix(t.k,t.w); h=mix(h,t.var); h=mix(h,t.aux); h=mix(h,t.wa);
    h=mix(h,t.a.c); h=mix(h,(uint64_t)t.a.e); h=mix(h,t.b.c); h=mix(h,(uint64_t)t.b.e); h=mix(h,t.c.c); h=mix(h,(uint64_t)t.c.e);
    if (t.k==K_LUT) { if (t.w==1) for(int i=0;i<4;i++) h=mix(h,t.bits.w[i]); else for (auto v:t.lut) h=mix(h,v); }
    auto r=tab.equal_range(h);
    for (auto i=r.first;i!=r.second;++i) { Expr*x=i->second;
      if (x->k==t.k&&x->w==t.w&&x->var==t.var&&x->aux==t.aux&&x->wa==t.wa&&x->a.c==t.a.c&&x->a.e==t.a.e&&x->b.c==t.b.c&&x->b.e==t.b.e&&x->c.c==t.c.c&&x->c.e==t.c.e&&
          (t.k!=K_LUT || (t.w==1? x->bits==t.bits : x->lut==t.lut))) return x; }
    Expr*x=new Expr(t); x->h=h; x->z=nullptr; x->stamp=0; x->ev=0;
    x->syms.reset();
    if (x->k==K_LUT) x->syms.set(x->var);
    else { if(x->a.e)x->syms|=x->a.e->syms; if(x->b.e)x->syms|=x->b.e->syms; if(x->c.e)x->syms|=x->c.e->syms; }
    tab.emplace(h,x); n++; return x;
  }
};
extern ExprPool pool;

static inline uint64_t lutAt(const Expr*e,int i){ return e->w==1 ? (uint64_t)e->bits.get(i) : e->lut[i]; }

static inline Val mkLUT(int var,int w,const uint64_t*vals) {
  bool same=true; for (int i=1;i<256;i++) if (vals[i]!=vals[0]) {same=false;break;}
  if (same) return cval(vals[0]);
  Expr t; t.k=K_LUT; t.w=w; t.var=var; t.aux=0; t.wa=0; t.a=t.b=t.c=cval(0); t.bits.clear();
  if (w==1) { for (int i=0;i<256;i++) if (vals[i]&1) t.bits.set(i); }
  else t.lut.assign(vals,vals+256);
  return Val{0,pool.intern(t)};
}

static Val mkNode1(Kind k,int w,int wa,Val a,Val b,Val c,uint64_t aux);
// memo for the (pure) node constructor
struct MkMemo { uint64_t key,ac,bc,cc,aux; const Expr*a,*b,*c; Val r; };
static std::vector<MkMemo> mkMemo;
static inline Val mkNode(Kind k,int w,int wa,Val a,Val b,Val c,uint64_t aux) {
  // all concrete
  if (!a.e && !b.e && !c.e) return cval(evalOp(k,w,wa,a.c,b.c,c.c,aux));
  if (mkMemo.empty()) mkMemo.resize(1<<16);
  uint64_t key=1ull<<60|(uint64_t)k<<40|(uint64_t)w<<20|(uint64_t)wa;
  uint64_t h=(key^(uint64_t)a.e*0x9e3779b97f4a7c15ull^((uint64_t)b.e+b.c*31)*0xff51afd7ed558ccdull^((uint64_t)c.e+c.c*131+aux)*0xc4ceb9fe1a85ec53ull^a.c*0x2545f4914f6cdd1dull); h^=h>>29; h*=0xbf58476d1ce4e5b9ull; h>>=48;
  MkMemo&m=mkMemo[h];
  if (m.key==key&&m.a==a.e&&m.b==b.e&&m.c==c.e&&m.ac==a.c&&m.bc==b.c&&m.cc==c.c&&m.aux==aux) return m.r;
  Val r=mkNode1(k,w,wa,a,b,c,aux);
  MkMemo&q=mkMemo[h]; q.key=key;q.a=a.e;q.b=b.e;q.c=c.e;q.ac=a.c;q.bc=b.c;q.cc=c.c;q.aux=aux;q.r=r;
  return r;
}
static Val mkNode1(Kind k,int w,int wa,Val a,Val b,Val c,uint64_t aux) {
  // single-byte: pointwise
  int var=-1; bool one=true;
  for (const Expr*e : {a.e,b.e,c.e}) if (e) { if (e->k!=K_LUT || (var>=0 && e->var!=var)) {one=false;break;} var=e->var; }
  if (one) {
    uint64_t v[256];
    for (int i=0;i<256;i++) v[i]=evalOp(k,w,wa,a.e?lutAt(a.e,i):a.c,b.e?lutAt(b.e,i):b.c,c.e?lutAt(c.e,i):c.c,aux);
    return mkLUT(var,w,v);
  }
  uint64_t m=maskw(w);
  // commutative: constant to the right
  if (!a.e && b.e && (k==K_ADD||k==K_MUL||k==K_AND||k==K_OR||k==K_XOR||k==K_EQ)) std::swap(a,b);
  switch (k) {
    case K_ADD: if (!b.e&&b.c==0) return a;
      if (!b.e && a.e->k==K_ADD && !a.e->b.e) return mkNode(K_ADD,w,wa,a.e->a,cval((a.e->b.c+b.c)&m),cval(0),0);
      break;
    case K_SUB: if (!b.e) return mkNode(K_ADD,w,wa,a,cval((0-b.c)&m),cval(0),0); if (a.e==b.e&&a.e) return cval(0); break;
    case K_OR: if (!b.e&&b.c==0) return a; if (!b.e&&b.c==m) return cval(m); if (a.e==b.e) return a; break;
    case K_XOR: if (!b.e&&b.c==0) return a; if (a.e==b.e&&a.e) return cval(0);
      if (!b.e && a.e->k==K_XOR && !a.e->b.e) return mkNode(K_XOR,w,wa,a.e->a,cval(a.e->b.c^b.c),cval(0),0);
      break;
    case K_AND: if (!b.e&&b.c==m) return a; if (!b.e&&b.c==0) return cval(0); if (a.e==b.e) return a; break;
    case K_MUL: if (!b.e&&b.c==1) return a; if (!b.e&&b.c==0) return cval(0); break;
    case K_SHL: case K_LSHR: case K_ASHR: if (!b.e&&b.c==0) return a;
      if (!b.e && k==K_SHL && b.c>=(uint64_t)w) return cval(0);
      if (!b.e && k==K_LSHR && b.c>=(uint64_t)w) return cval(0);
      break;
    case K_UDIV: case K_SDIV: if (!b.e&&b.c==1) return a; break;
    case K_EQ: if (a.e==b.e&&a.e) return cval(1);
      if (wa==1 && !b.e) { if (b.c) return a; return mkNode(K_XOR,1,1,a,cval(1),cval(0),0); }
      if (!b.e && a.e->k==K_ZEXT) { if (b.c>>a.e->wa) return cval(0); return mkNode(K_EQ,1,a.e->wa,a.e->a,b,cval(0),0); }
      if (!b.e && a.e->k==K_ADD && !a.e->b.e) return mkNode(K_EQ,1,wa,a.e->a,cval((b.c-a.e->b.c)&maskw(wa)),cval(0),0);
      break;
    case K_ULT: if (a.e==b.e&&a.e) return cval(0); if(!b.e&&b.c==0) return cval(0);
      if (!b.e&&a.e&&a.e->k==K_ZEXT) { if (b.c>maskw(a.e->wa)) return cval(1); return mkNode(K_ULT,1,a.e->wa,a.e->a,b,cval(0),0); } break;
    case K_ULE: if (a.e==b.e&&a.e) return cval(1); break;
    case K_SLT: if (a.e==b.e&&a.e) return cval(0); break;
    case K_SLE: if (a.e==b.e&&a.e) return cval(1); break;
    case K_ITE: if (!a.e) return a.c?b:c; if (b.e==c.e && b.c==c.c) return b;
      if (w==1&&!b.e&&!c.e) return b.c? a : mkNode(K_XOR,1,1,a,cval(1),cval(0),0);
      if (a.e->k==K_XOR && !a.e->b.e && a.e->w==1) return mkNode(K_ITE,w,1,a.e->a,c,b,0);
      break;
    case K_ZEXT: if (w==wa) return a; if (a.e->k==K_ZEXT) return mkNode(K_ZEXT,w,a.e->wa,a.e->a,cval(0),cval(0),0); break;
    case K_SEXT: if (w==wa) return a; if (a.e->k==K_SEXT) return mkNode(K_SEXT,w,a.e->wa,a.e->a,cval(0),cval(0),0);
      if (a.e->k==K_ZEXT) return mkNode(K_ZEXT,w,a.e->wa,a.e->a,cval(0),cval(0),0); break;
    case K_EXTRACT:
      if (aux==0 && w==wa) return a;
      if (a.e->k==K_EXTRACT) return mkNode(K_EXTRACT,w,a.e->wa,a.e->a,cval(0),cval(0),aux+a.e->aux);
      if (a.e->k==K_CONCAT) { unsigned lw=a.e->aux; if (aux>=lw) return mkNode(K_EXTRACT,w,wa-lw,a.e->a,cval(0),cval(0),aux-lw); if (aux+w<=lw) return mkNode(K_EXTRACT,w,lw,a.e->b,cval(0),cval(0),aux); }
      if (a.e->k==K_ZEXT) { if (aux>=a.e->wa) return cval(0); if (aux+w<=a.e->wa) return mkNode(K_EXTRACT,w,a.e->wa,a.e->a,cval(0),cval(0),aux); if (aux==0) return mkNode(K_ZEXT,w,a.e->wa,a.e->a,cval(0),cval(0),0);
        return mkNode(K_ZEXT,w,a.e->wa-aux,mkNode(K_EXTRACT,a.e->wa-aux,a.e->wa,a.e->a,cval(0),cval(0),aux),cval(0),cval(0),0); }
      if (a.e->k==K_SEXT && aux==0) { if (w==a.e->wa) return a.e->a; if (w<a.e->wa) return mkNode(K_EXTRACT,w,a.e->wa,a.e->a,cval(0),cval(0),0); return mkNode(K_SEXT,w,a.e->wa,a.e->a,cval(0),cval(0),0); }
      if (a.e->k==K_ITE) { Val x=a.e->b,y=a.e->c; if (!x.e||!y.e||(x.e->k==K_LUT&&y.e->k==K_LUT)) return mkNode(K_ITE,w,1,a.e->a,mkNode(K_EXTRACT,w,wa,x,cval(0),cval(0),aux),mkNode(K_EXTRACT,w,wa,y,cval(0),cval(0),aux),0); }
      if ((a.e->k==K_AND||a.e->k==K_OR||a.e->k==K_XOR)) { return mkNode(a.e->k,w,w,mkNode(K_EXTRACT,w,wa,a.e->a,cval(0),cval(0),aux),mkNode(K_EXTRACT,w,wa,a.e->b,cval(0),cval(0),aux),cval(0),0); }
      break;
    case K_CONCAT: { unsigned lw=aux; 
      if (a.e&&b.e) {
        // adjacent extracts of the same thing
        const Expr*x=a.e,*y=b.e;
        const Expr*xs = x->k==K_EXTRACT? x->a.e:nullptr; const Expr*ys = y->k==K_EXTRACT? y->a.e:nullptr;
        if (xs && ys && xs==ys && x->aux==y->aux+lw) return mkNode(K_EXTRACT,w,x->wa,x->a,cval(0),cval(0),y->aux);
        if (x->k==K_ITE && y->k==K_ITE && x->a.e==y->a.e) return mkNode(K_ITE,w,1,x->a,mkNode(K_CONCAT,w,w-lw,x->b,y->b,cval(0),lw),mkNode(K_CONCAT,w,w-lw,x->c,y->c,cval(0),lw),0);
      }
      if (!a.e && a.c==0) return mkNode(K_ZEXT,w,lw,b,cval(0),cval(0),0);
      if (!b.e && a.e && a.e->k==K_ITE && !a.e->b.e && !a.e->c.e) return mkNode(K_ITE,w,1,a.e->a,cval((a.e->b.c<<lw)|b.c),cval((a.e->c.c<<lw)|b.c),0);
      if (!a.e && b.e && b.e->k==K_ITE && !b.e->b.e && !b.e->c.e) return mkNode(K_ITE,w,1,b.e->a,cval((a.c<<lw)|b.e->b.c),cval((a.c<<lw)|b.e->c.c),0);
      break; }
    default: break;
  }
  // comparisons / arithmetic of ite(c,const,const) with const
  if (a.e && !b.e && a.e->k==K_ITE && !a.e->b.e && !a.e->c.e && (k==K_EQ||k==K_ULT||k==K_ULE||k==K_SLT||k==K_SLE||k==K_ADD||k==K_AND||k==K_OR||k==K_XOR||k==K_ZEXT||k==K_SEXT||k==K_MUL||k==K_SHL||k==K_LSHR||k==K_ASHR))
    return mkNode(K_ITE,w,1,a.e->a,cval(evalOp(k,w,wa,a.e->b.c,b.c,0,aux)),cval(evalOp(k,w,wa,a.e->c.c,b.c,0,aux)),0);
  Expr t; t.k=k; t.w=w; t.var=-1; t.aux=aux; t.wa=wa; t.a=a; t.b=b; t.c=c; t.bits.clear();
  return Val{0,pool.intern(t)};
}

static inline Val mkBin(Kind k,int w,Val a,Val b) { return mkNode(k,w,w,a,b,cval(0),0); }
static inline Val mkCmp(Kind k,int wa,Val a,Val b) { return mkNode(k,1,wa,a,b,cval(0),0); }
static inline Val mkNot(Val a) { return mkNode(K_XOR,1,1,a,cval(1),cval(0),0); }
static inline Val mkIte(int w,Val c,Val a,Val b) { return mkNode(K_ITE,w,1,c,a,b,0); }
static inline Val mkZext(int w,int wa,Val a){ if(w==wa) return a; return mkNode(K_ZEXT,w,wa,a,cval(0),cval(0),0); }
static inline Val mkSext(int w,int wa,Val a){ if(w==wa) return a; return mkNode(K_SEXT,w,wa,a,cval(0),cval(0),0); }
static inline Val mkExtract(int w,int wa,int lo,Val a){ if(w==wa) return a; if(!a.e) return cval((a.c>>lo)&maskw(w)); return mkNode(K_EXTRACT,w,wa,a,cval(0),cval(0),lo); }
static inline Val mkConcat(int w,int lw,Val hi,Val lo){ return mkNode(K_CONCAT,w,w-lw,hi,lo,cval(0),lw); }
