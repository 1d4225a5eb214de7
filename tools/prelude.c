#ifdef VF_COVERRUN
#define VF_ASSERT(c,l) ((void)0)
#define VF_COVER(c,l) __CPROVER_assert(c,l)
#else
#define VF_ASSERT(c,l) __CPROVER_assert(c,l)
#define VF_COVER(c,l) ((void)0)
#endif
#ifndef VF_CASE
#define VF_CASE 0
#define VF_NCASES 1
#endif
/* prelude of every extracted program: machine types, bit intrinsics, libc models */
typedef unsigned char uint8_t; typedef signed char int8_t;
typedef unsigned short uint16_t; typedef short int16_t;
typedef unsigned int uint32_t; typedef int int32_t;
typedef unsigned long uint64_t; typedef long int64_t;
typedef unsigned __int128 u128; typedef __int128 s128;
typedef unsigned char *ptr;
void *malloc(__CPROVER_size_t); void free(void*); 
void *memcpy(void*,const void*,__CPROVER_size_t); void *memmove(void*,const void*,__CPROVER_size_t); void *memset(void*,int,__CPROVER_size_t);
static inline uint64_t vf_bits_f64(double x){ union { double f; uint64_t u; } c; c.f = x; return c.u; }
static inline double vf_f64_bits(uint64_t x){ union { double f; uint64_t u; } c; c.u = x; return c.f; }
static inline uint32_t vf_bits_f32(float x){ union { float f; uint32_t u; } c; c.f = x; return c.u; }
static inline float vf_f32_bits(uint32_t x){ union { float f; uint32_t u; } c; c.u = x; return c.f; }
static inline uint64_t vf_ctlz64(uint64_t x){ uint64_t n=0; if(x==0) return 64;
 if(!(x>>32)){n+=32;x<<=32;} if(!(x>>48)){n+=16;x<<=16;} if(!(x>>56)){n+=8;x<<=8;} if(!(x>>60)){n+=4;x<<=4;} if(!(x>>62)){n+=2;x<<=2;} if(!(x>>63)) n+=1; return n; }
static inline uint32_t vf_ctlz32(uint32_t x){ uint32_t n=0; if(x==0) return 32;
 if(!(x>>16)){n+=16;x<<=16;} if(!(x>>24)){n+=8;x<<=8;} if(!(x>>28)){n+=4;x<<=4;} if(!(x>>30)){n+=2;x<<=2;} if(!(x>>31)) n+=1; return n; }
static inline uint64_t vf_cttz64(uint64_t x){ uint64_t n=0; if(x==0) return 64;
 if(!(x&0xffffffffUL)){n+=32;x>>=32;} if(!(x&0xffff)){n+=16;x>>=16;} if(!(x&0xff)){n+=8;x>>=8;} if(!(x&0xf)){n+=4;x>>=4;} if(!(x&3)){n+=2;x>>=2;} if(!(x&1)) n+=1; return n; }
static inline uint32_t vf_cttz32(uint32_t x){ uint32_t n=0; if(x==0) return 32;
 if(!(x&0xffff)){n+=16;x>>=16;} if(!(x&0xff)){n+=8;x>>=8;} if(!(x&0xf)){n+=4;x>>=4;} if(!(x&3)){n+=2;x>>=2;} if(!(x&1)) n+=1; return n; }
static inline uint64_t vf_ctpop64(uint64_t x){ x=x-((x>>1)&0x5555555555555555UL); x=(x&0x3333333333333333UL)+((x>>2)&0x3333333333333333UL); x=(x+(x>>4))&0x0f0f0f0f0f0f0f0fUL; x+=x>>8; x+=x>>16; x+=x>>32; return x&0x7f; }
static inline uint32_t vf_ctpop32(uint32_t x){ return (uint32_t)vf_ctpop64(x); }
static inline uint16_t vf_bswap16(uint16_t x){ return (uint16_t)((x<<8)|(x>>8)); }
static inline uint32_t vf_bswap32(uint32_t x){ return (x<<24)|((x&0xff00)<<8)|((x>>8)&0xff00)|(x>>24); }
static inline uint64_t vf_bswap64(uint64_t x){ return ((uint64_t)vf_bswap32((uint32_t)x)<<32)|vf_bswap32((uint32_t)(x>>32)); }
static inline uint32_t vf_fshl32(uint32_t a,uint32_t b,uint32_t c){ c&=31; return c?(a<<c)|(b>>(32-c)):a; }
static inline uint64_t vf_fshl64(uint64_t a,uint64_t b,uint64_t c){ c&=63; return c?(a<<c)|(b>>(64-c)):a; }
static inline uint32_t vf_fshr32(uint32_t a,uint32_t b,uint32_t c){ c&=31; return c?(a<<(32-c))|(b>>c):b; }
static inline uint64_t vf_fshr64(uint64_t a,uint64_t b,uint64_t c){ c&=63; return c?(a<<(64-c))|(b>>c):b; }
static inline double vf_fabs_f64(double x){ return vf_f64_bits(vf_bits_f64(x)&0x7fffffffffffffffUL); }
static inline float vf_fabs_f32(float x){ return vf_f32_bits(vf_bits_f32(x)&0x7fffffffU); }
/* input hook: one logged 64-bit input */
uint64_t nondet_vf_u64(void);
static inline uint64_t vf_in(void){ uint64_t vf_input=nondet_vf_u64(); __CPROVER_input("vf_input",vf_input); return vf_input; }
/* libc models */
static inline ptr vf_malloc(uint64_t n){ return (ptr)malloc(n); }
static inline void vf_abort(void){ VF_ASSERT(0,"[ub] abort() reached"); __CPROVER_assume(0); }
#ifndef VF_COPYCAP
#define VF_COPYCAP 0
#endif
#ifndef VF_INLINE_COPY
#define VF_INLINE_COPY 16
#endif
#ifdef VF_TRACKING
/* arrays of unbounded size of which one arbitrary element (k) is followed: the bytes of the others
   are not kept (a read yields an arbitrary value), accesses are range-checked */
#ifndef VF_NTR
#define VF_NTR 4
#endif
#define VF_EACH(M) M(0) M(1) M(2) M(3)
/* len bytes; the es bytes at a are kept in *st; the first hn bytes are kept in *hst.  Where the
   object is: at offset base of its address space, which realloc changes (so that pointers to the
   old place are out of range) */
typedef struct { uint64_t len, es, a; ptr st; uint64_t hn; ptr hst; uint64_t base; _Bool live, kin; } vf_trk_t;
vf_trk_t vf_tk[VF_NTR]; int vf_ntr; _Bool vf_twr; uint8_t vf_d0[1], vf_d1[1], vf_d2[1], vf_d3[1];
#define VF_TOBJ(i) ((i)==0?(ptr)vf_d0:(i)==1?(ptr)vf_d1:(i)==2?(ptr)vf_d2:(ptr)vf_d3)
static inline ptr vf_track2(uint64_t len,uint64_t es,uint64_t a,ptr st,uint64_t hn,ptr hst)
{ int i=vf_ntr++; VF_ASSERT(i<VF_NTR,"[limit] tracked objects"); vf_tk[i].len=len; vf_tk[i].es=es; vf_tk[i].a=a; vf_tk[i].st=st; vf_tk[i].hn=hn; vf_tk[i].hst=hst; vf_tk[i].base=0; vf_tk[i].live=1; vf_tk[i].kin=a+es<=len; return VF_TOBJ(i); }
static inline ptr vf_track(uint64_t len,uint64_t es,uint64_t k,ptr st){ return vf_track2(len,es,k*es,st,0,0); }
/* memory that exists but is to be reached through contracts only */
static inline ptr vf_opaque(void){ return vf_track(1,0,0,0); }
typedef struct { uint64_t a,b,c,d; } vf_T32; typedef struct { uint64_t a,b; } vf_T16;
#define VF_IS(i,p) (__CPROVER_POINTER_OBJECT(p)==__CPROVER_POINTER_OBJECT(VF_TOBJ(i)))
#define VF_AT(i,p) (vf_ntr>i && VF_IS(i,p))
#define VF_M(i) if(VF_AT(i,p)) return i;
static inline int vf_tix(ptr p){ VF_EACH(VF_M) return -1; }
#undef VF_M
/* one access of n bytes: the offset inside the followed element, or -1 */
#define VF_OFF(i,p) (__CPROVER_POINTER_OFFSET(p)-vf_tk[i].base)
static inline int64_t vf_tat(int j,ptr p,uint64_t n)
{
  if(vf_tk[j].es==0) { VF_ASSERT(0,"[general] memory that is reached through contracts only"); __CPROVER_assume(0); }
  uint64_t off=VF_OFF(j,p), a=vf_tk[j].a, es=vf_tk[j].es;
  uint64_t d=off-a;
  if(d<es && n<=es-d) { VF_ASSERT(vf_tk[j].live && vf_tk[j].kin,"[mem] access inside the object"); VF_ASSERT((d&(n-1))==0,"[limit] unaligned access to the followed element"); return (int64_t)d; }
  VF_ASSERT(vf_tk[j].live && off<=vf_tk[j].len && n<=vf_tk[j].len-off,"[mem] access inside the object");
  VF_ASSERT(off+n<=a || off>=a+es,"[limit] access straddles the followed element");
  return -1;
}
#define VF_TL(T,o) if(x==(o) && (o)+(int)sizeof(T)<=(int)vf_tk[j].es) return *(T*)(vf_tk[j].st+(o))
#define VF_TS(T,o) if(x==(o) && (o)+(int)sizeof(T)<=(int)vf_tk[j].es) { *(T*)(vf_tk[j].st+(o))=v; return; }
#define VF_TPRE(j,p,n) (vf_tk[j].hn && VF_OFF(j,p)<vf_tk[j].hn)
static inline ptr vf_tpre(int j,ptr p,uint64_t n){ uint64_t off=VF_OFF(j,p); VF_ASSERT(vf_tk[j].live && off<=vf_tk[j].len && n<=vf_tk[j].len-off,"[mem] access inside the object"); VF_ASSERT(off+n<=vf_tk[j].hn,"[limit] access straddles the prefix"); return vf_tk[j].hst+off; }
#define VF_TACC(T,F,L8) \
static inline T vf_ldj_##F(int j,ptr p){ if(VF_TPRE(j,p,sizeof(T))) return *(T*)vf_tpre(j,p,sizeof(T)); int64_t x=vf_tat(j,p,sizeof(T)); VF_TL(T,0); L8(VF_TL,T) T any; return any; } \
static inline void vf_stj_##F(int j,ptr p,T v){ vf_twr=1; if(VF_TPRE(j,p,sizeof(T))) { *(T*)vf_tpre(j,p,sizeof(T))=v; return; } int64_t x=vf_tat(j,p,sizeof(T)); VF_TS(T,0) L8(VF_TS,T) } \
static inline T vf_ld_##F(ptr p){ if(VF_AT(0,p)) return vf_ldj_##F(0,p); if(VF_AT(1,p)) return vf_ldj_##F(1,p); if(VF_AT(2,p)) return vf_ldj_##F(2,p); if(VF_AT(3,p)) return vf_ldj_##F(3,p); return *(T*)p; } \
static inline void vf_st_##F(ptr p,T v){ if(VF_AT(0,p)) { vf_stj_##F(0,p,v); return; } if(VF_AT(1,p)) { vf_stj_##F(1,p,v); return; } if(VF_AT(2,p)) { vf_stj_##F(2,p,v); return; } if(VF_AT(3,p)) { vf_stj_##F(3,p,v); return; } *(T*)p=v; }
#define VF_O8(M,T) M(T,8); M(T,16); M(T,24);
#define VF_O4(M,T) M(T,4); M(T,8); M(T,12); M(T,16); M(T,20); M(T,24); M(T,28);
#define VF_O0(M,T) VF_ASSERT(x<=0,"[limit] access size within the followed element");
VF_TACC(uint64_t,uint64_t,VF_O8) VF_TACC(ptr,ptr,VF_O8) VF_TACC(uint32_t,uint32_t,VF_O4) VF_TACC(uint16_t,uint16_t,VF_O0) VF_TACC(uint8_t,uint8_t,VF_O0) VF_TACC(double,double,VF_O8) VF_TACC(float,float,VF_O4)
static inline void vf_trange(int j,ptr s,uint64_t n){ if(vf_tk[j].es==0) { VF_ASSERT(0,"[general] memory that is reached through contracts only"); __CPROVER_assume(0); } uint64_t so=VF_OFF(j,s); VF_ASSERT(vf_tk[j].live && so<=vf_tk[j].len && n<=vf_tk[j].len-so,"[mem] copy or fill inside the object"); }
/* whole elements read from s (ordinary or followed) at byte offset o */
#define VF_TGET(T) T x; if(j<0) { x=*(T*)(s+o); } else { uint64_t off=VF_OFF(j,s)+o, a=vf_tk[j].a; \
  if(off==a && vf_tk[j].es==sizeof(T)) x=*(T*)vf_tk[j].st; else { T any; x=any; VF_ASSERT(off+sizeof(T)<=a || off>=a+vf_tk[j].es,"[limit] part of the followed element copied"); } }
static inline vf_T16 vf_tget16(int j,ptr s,uint64_t o){ VF_TGET(vf_T16) return x; }
static inline vf_T32 vf_tget32(int j,ptr s,uint64_t o){ VF_TGET(vf_T32) return x; }
static inline uint8_t vf_tget1(int j,ptr s,uint64_t o)
{ uint8_t x; if(j<0) return s[o]; uint64_t d=VF_OFF(j,s)+o-vf_tk[j].a; if(d<vf_tk[j].es) return vf_tk[j].st[d]; uint64_t f=VF_OFF(j,s)+o; if(f<vf_tk[j].hn) return vf_tk[j].hst[f]; return x; }
/* copy into the followed object i (j: the source's, or -1) */
static inline void vf_tcopy(int i,int j,ptr d,ptr s,uint64_t n)
{
  uint64_t off=VF_OFF(i,d), es=vf_tk[i].es, a=vf_tk[i].a;
  vf_twr=1; vf_trange(i,d,n); if(j>=0) vf_trange(j,s,n); else VF_ASSERT(__CPROVER_r_ok(s,n),"[mem] memcpy source readable");
  if(vf_tk[i].hn && off<vf_tk[i].hn) { VF_ASSERT(n<=32,"[limit] copy to the prefix"); for(int q=0;q<32;q++) if(q<n) { uint8_t b=vf_tget1(j,s,q); if(off+q<vf_tk[i].hn) vf_tk[i].hst[off+q]=b; else if(off+q-vf_tk[i].a<es) vf_tk[i].st[off+q-vf_tk[i].a]=b; } return; }
  if(off>=a+es || off+n<=a) return;
  VF_ASSERT(off<=a && es<=n-(a-off) && (es==1||es==16||es==32),"[limit] part of the followed element copied");
  if(es==16) *(vf_T16*)vf_tk[i].st=vf_tget16(j,s,a-off); else if(es==32) *(vf_T32*)vf_tk[i].st=vf_tget32(j,s,a-off); else *(uint8_t*)vf_tk[i].st=vf_tget1(j,s,a-off);
}
static inline void vf_tfill(int i,ptr d,uint8_t c,uint64_t n)
{
  uint64_t off=VF_OFF(i,d), es=vf_tk[i].es, a=vf_tk[i].a; vf_T32 z;
  vf_twr=1; vf_trange(i,d,n);
  if(off>=a+es || off+n<=a) return;
  VF_ASSERT(off<=a && es<=n-(a-off) && (es==1||es==4||es==16||es==32),"[limit] part of the followed element filled");
  z.a=z.b=z.c=z.d=c*0x0101010101010101ULL;
  if(es==4) *(uint32_t*)vf_tk[i].st=c*0x01010101u; else if(es==16) *(vf_T16*)vf_tk[i].st=*(vf_T16*)&z; else if(es==32) *(vf_T32*)vf_tk[i].st=z; else *(uint8_t*)vf_tk[i].st=c;
}
/* copy from a followed object to an ordinary one */
static inline void vf_tout(int j,ptr d,ptr s,uint64_t n)
{
  vf_trange(j,s,n); VF_ASSERT(__CPROVER_w_ok(d,n),"[mem] memcpy destination writable");
  if(vf_tk[j].hn && VF_OFF(j,s)<vf_tk[j].hn) { VF_ASSERT(n<=32,"[limit] copy from the prefix"); for(int q=0;q<32;q++) if(q<n) d[q]=vf_tget1(j,s,q); return; }
  if(vf_tk[j].es==1) {     /* bytes, at most 64 */
    VF_ASSERT(n<=64,"[limit] copy from a followed object");
    uint64_t at=vf_tk[j].a-VF_OFF(j,s);
    uint8_t t[64]; for(int i=0;i<64;i++) { uint8_t any; t[i]=at==i?*(uint8_t*)vf_tk[j].st:any; }
    if(n) memcpy(d,t,n);
  } else if(n==16) *(vf_T16*)d=vf_tget16(j,s,0); else if(n==32) *(vf_T32*)d=vf_tget32(j,s,0); else VF_ASSERT(0,"[limit] copy from a followed object");
}
static inline _Bool vf_tmemcpy(ptr d,ptr s,uint64_t n)
{
  int i=vf_tix(d), j=vf_tix(s);
#define VF_M(x) if(i==x) { vf_tcopy(x,j,d,s,n); return 1; }
  VF_EACH(VF_M)
#undef VF_M
#define VF_M(x) if(j==x) { vf_tout(x,d,s,n); return 1; }
  VF_EACH(VF_M)
#undef VF_M
  return 0;
}
/* length of the live tracked object that starts at p, or 0 */
static inline uint64_t vf_tlen(ptr p)
{
  #define VF_M(x) if(VF_AT(x,p)) return vf_tk[x].live && VF_OFF(x,p)==0?vf_tk[x].len:0;
  VF_EACH(VF_M)
#undef VF_M
  return 0;
}
#define VF_M(x) if(i==x) vf_tk[x].live=0;
static inline void vf_tkill(ptr p){ int i=vf_tix(p); VF_EACH(VF_M) }
#undef VF_M
/* make the tracked object p live again (the same content at another place) */
#define VF_M(x) if(i==x) vf_tk[x].live=1;
static inline void vf_tmove(ptr p){ int i=vf_tix(p); VF_EACH(VF_M) }
#undef VF_M
#endif
static inline void vf_free(ptr p)
{
#ifdef VF_TRACKING
  if(vf_tix(p)>=0) { VF_ASSERT(vf_tlen(p)!=0,"[mem] free of a live allocation"); vf_tkill(p); return; }
#endif
  free(p);
}
static inline void vf_free2(ptr p,uint64_t n){ vf_free(p); }
/* realloc that succeeds: the content moves to another place, the old place is dead */
#define VF_MOVE (1ULL<<50)
static inline ptr vf_realloc(ptr p,uint64_t n)
{
#ifdef VF_TRACKING
  int i=vf_tix(p);
  if(i>=0) {
    VF_ASSERT(vf_tlen(p)!=0,"[mem] realloc of a live allocation");
#define VF_M(x) if(i==x) { vf_trk_t *t=vf_tk+x; VF_ASSERT(!(t->kin && t->a+t->es>n) && t->hn<=n,"[limit] realloc cuts the followed element off"); \
      t->base+=VF_MOVE; t->len=n; t->kin=t->a+t->es<=n; return VF_TOBJ(x)+t->base; }
    VF_EACH(VF_M)
#undef VF_M
  }
#endif
  if(p==0) return (ptr)malloc(n);
  VF_ASSERT(__CPROVER_POINTER_OFFSET(p)==0 && __CPROVER_r_ok(p,1),"[mem] realloc of a live allocation");
  uint64_t o=__CPROVER_OBJECT_SIZE(p); ptr q=(ptr)malloc(n); if(o>n) o=n;
  memcpy(q,p,o);
  free(p); return q;
}
/* memcpy/memset: range checks always; short copies are expanded byte by byte,
   anything longer goes through CBMC's array primitive */
static inline void vf_memcpy(ptr d,ptr s,uint64_t n)
{
  if (n==0) return;
#ifdef VF_TRACKING
  if(vf_tmemcpy(d,s,n)) return;
#endif
  VF_ASSERT(__CPROVER_r_ok(s,n),"[mem] memcpy source readable");
  VF_ASSERT(__CPROVER_w_ok(d,n),"[mem] memcpy destination writable");
#ifdef VF_SMALLCOPY
  VF_ASSERT(n<=VF_SMALLCOPY,"[limit] copy length within the extraction's expansion width");
  uint8_t t[VF_SMALLCOPY];
  for (uint64_t i=0;i<VF_SMALLCOPY;i++) if (i<n) t[i]=s[i];
  for (uint64_t i=0;i<VF_SMALLCOPY;i++) if (i<n) d[i]=t[i];
#else
  memcpy(d,s,n);
#endif
}
static inline void vf_memmove(ptr d,ptr s,uint64_t n)
{
  if (n==0) return;
#ifdef VF_TRACKING
  if(vf_tmemcpy(d,s,n)) return;
#endif
  VF_ASSERT(__CPROVER_r_ok(s,n),"[mem] memmove source readable");
  VF_ASSERT(__CPROVER_w_ok(d,n),"[mem] memmove destination writable");
#ifdef VF_SMALLCOPY
  VF_ASSERT(n<=VF_SMALLCOPY,"[limit] copy length within the extraction's expansion width");
  uint8_t t[VF_SMALLCOPY];
  for (uint64_t i=0;i<VF_SMALLCOPY;i++) if (i<n) t[i]=s[i];
  for (uint64_t i=0;i<VF_SMALLCOPY;i++) if (i<n) d[i]=t[i];
#else
  memmove(d,s,n);
#endif
}
static inline void vf_memset(ptr d,uint8_t c,uint64_t n)
{
  if (n==0) return;
#ifdef VF_TRACKING
  { int i=vf_tix(d);
#define VF_M(x) if(i==x) { vf_tfill(x,d,c,n); return; }
  VF_EACH(VF_M) }
#undef VF_M
#endif
  VF_ASSERT(__CPROVER_w_ok(d,n),"[mem] memset destination writable");
#ifdef VF_SMALLSET
  VF_ASSERT(n<=VF_SMALLSET,"[limit] memset length within the extraction's expansion width");
  for (uint64_t i=0;i<VF_SMALLSET;i++) if (i<n) d[i]=c;
#else
  memset(d,c,n);
#endif
}
static inline ptr vf_memcpy_(ptr d,ptr s,uint64_t n){ vf_memcpy(d,s,n); return d; }
static inline ptr vf_memmove_(ptr d,ptr s,uint64_t n){ vf_memmove(d,s,n); return d; }
static inline ptr vf_memset_(ptr d,uint32_t c,uint64_t n){ vf_memset(d,(uint8_t)c,n); return d; }
static inline uint64_t vf_strlen(ptr s){ uint64_t n=0; while(s[n]) n++; return n; }
#ifdef VF_TRACKING
static inline uint32_t vf_memcmp(ptr a,ptr b,uint64_t n){ for(uint64_t i=0;i<n;i++){ uint8_t x=vf_ld_uint8_t(a+i), y=vf_ld_uint8_t(b+i); if(x!=y) return (uint32_t)((int)x-(int)y); } return 0; }
#else
static inline uint32_t vf_memcmp(ptr a,ptr b,uint64_t n){ for(uint64_t i=0;i<n;i++){ if(a[i]!=b[i]) return (uint32_t)((int)a[i]-(int)b[i]); } return 0; }
#endif
static inline uint32_t vf_strcmp(ptr a,ptr b){ uint64_t i=0; while(a[i]&&a[i]==b[i]) i++; return (uint32_t)((int)a[i]-(int)b[i]); }
static inline uint32_t vf_isdigit(uint32_t c){ return c>=48&&c<=57; }
static inline uint32_t vf_fprintf(ptr f,ptr s,...){ return 0; }
static inline uint32_t vf_printf(ptr s,...){ return 0; }
static inline uint64_t vf_fwrite(ptr p,uint64_t a,uint64_t b,ptr f){ return b; }
uint64_t nondet_vf_stub(void);
static inline uint64_t nd_u64(void){ return nondet_vf_stub(); }
static inline uint64_t vf_log(uint64_t v){ uint64_t vf_input=v; __CPROVER_input("vf_input",vf_input); return vf_input; }

/* loop invariants: while an arbitrary pass through a cut loop is executed, every store must go to
   something that was made arbitrary at the loop head (or to a local younger than that) */
#define VF_CUTMAX 3
#ifdef VF_WIDE
#define VF_ALLOWMAX 26
#define VF_WCLEAR a[18]=a[19]=a[20]=a[21]=a[22]=a[23]=a[24]=a[25]=0
#define VF_WSAME ||VF_SAME(18)||VF_SAME(19)||VF_SAME(20)||VF_SAME(21)||VF_SAME(22)||VF_SAME(23)||VF_SAME(24)||VF_SAME(25)
#else
#define VF_ALLOWMAX 18
#define VF_WCLEAR (void)0
#define VF_WSAME
#endif
#define VF_LOCMAX 12
int F_vf_hook; int vf_depth; ptr vf_allow[VF_CUTMAX][VF_ALLOWMAX]; int vf_nallow[VF_CUTMAX]; int vf_loc0[VF_CUTMAX]; ptr vf_loc[VF_LOCMAX]; int vf_nloc;
static inline void vf_cut_enter(void){ VF_ASSERT(vf_depth<VF_CUTMAX,"[cut] nesting"); vf_nallow[vf_depth]=0; vf_loc0[vf_depth]=vf_nloc; vf_depth++; }
static inline void vf_cut_leave(void){ vf_depth--; ptr *a=vf_allow[vf_depth]; a[0]=a[1]=a[2]=a[3]=a[4]=a[5]=a[6]=a[7]=a[8]=a[9]=a[10]=a[11]=a[12]=a[13]=a[14]=a[15]=a[16]=a[17]=0; VF_WCLEAR; }
static inline void vf_cut_allow(ptr p){ int d=vf_depth-1; if(d<0) return; VF_ASSERT(vf_nallow[d]<VF_ALLOWMAX,"[cut] too many modified objects"); vf_allow[d][vf_nallow[d]++]=p; }
static inline void vf_cut_local_at(ptr p){ vf_cut_allow(p); }
static inline void vf_cut_local(ptr p){ if(vf_depth){ VF_ASSERT(vf_nloc<VF_LOCMAX,"[cut] too many locals"); vf_loc[vf_nloc++]=p; } }
#define VF_SAME(i) (vf_allow[d][i]!=0 && __CPROVER_POINTER_OBJECT(p)==__CPROVER_POINTER_OBJECT(vf_allow[d][i]))
#define VF_SAML(i) (i>=vf_loc0[d] && i<vf_nloc && __CPROVER_POINTER_OBJECT(p)==__CPROVER_POINTER_OBJECT(vf_loc[i]))
static inline void vf_cut_store1(ptr p,int d)
{
  VF_ASSERT(VF_SAME(0)||VF_SAME(1)||VF_SAME(2)||VF_SAME(3)||VF_SAME(4)||VF_SAME(5)||VF_SAME(6)||VF_SAME(7)||VF_SAME(8)||VF_SAME(9)||VF_SAME(10)||VF_SAME(11)||VF_SAME(12)||VF_SAME(13)||VF_SAME(14)||VF_SAME(15)||VF_SAME(16)||VF_SAME(17) VF_WSAME
   ||VF_SAML(0)||VF_SAML(1)||VF_SAML(2)||VF_SAML(3)||VF_SAML(4)||VF_SAML(5)||VF_SAML(6)||VF_SAML(7)||VF_SAML(8)||VF_SAML(9)||VF_SAML(10)||VF_SAML(11),"[cut] the loop stores only to what its invariant covers");
}
static inline void vf_cut_store(ptr p)
{
  if(vf_depth>0) vf_cut_store1(p,0);
  if(vf_depth>1) vf_cut_store1(p,1);
  if(vf_depth>2) vf_cut_store1(p,2);
}
#define VF_STORE(p) do { if(vf_depth && !F_vf_hook) vf_cut_store(p); } while(0)
/* A product of two unknown 64-bit numbers.  With VF_UMUL it is an arbitrary commutative function:
 * what is proved with it holds for multiplication in particular. */
#ifndef VF_UMUL
#define VF_MUL64(a,b) ((uint64_t)((a) * (b)))
#else
static uint64_t vf_ma[VF_UMUL], vf_mb[VF_UMUL], vf_mr[VF_UMUL]; static int vf_mn;
static uint64_t vf_mul64(uint64_t a, uint64_t b)
{
    for (int k = 0; k < VF_UMUL; k++) if (k < vf_mn && ((vf_ma[k] == a && vf_mb[k] == b) || (vf_ma[k] == b && vf_mb[k] == a))) return vf_mr[k];
    VF_ASSERT(vf_mn < VF_UMUL, "[limit] products"); __CPROVER_assume(vf_mn < VF_UMUL);
    uint64_t r = nd_u64(); if (a == 0 || b == 0) r = 0; if (a == 1) r = b; if (b == 1) r = a;
    for (int k = 0; k < VF_UMUL; k++) if (k == vf_mn) { vf_ma[k] = a; vf_mb[k] = b; vf_mr[k] = r; }
    vf_mn++; return r;
}
#define VF_MUL64(a,b) vf_mul64(a, b)
#endif
