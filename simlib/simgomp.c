/* simgomp: a deterministic, single-OS-thread OpenMP runtime.
 *
 * pixell's own C and Fortran kernels are compiled with -fopenmp -fsanitize=thread
 * and linked against this library instead of libgomp and libtsan. Every OpenMP
 * thread becomes a coroutine, and every memory access, atomic and OpenMP construct
 * becomes a point at which the seeded scheduler below may hand control to another
 * coroutine. Nothing here is real concurrency: one seed is one execution.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/time.h>

typedef unsigned long long ull;
#define MAXT 64
#define STACKSZ (1<<20)
#define EXPORT __attribute__((visibility("default")))

/* ---------- rng (splitmix / xorshift) ---------- */
static uint64_t rs;
static inline uint64_t rnd(void){ uint64_t z=(rs+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static uint64_t cs_;
static inline uint64_t crnd(void){ uint64_t z=(cs_+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static inline uint32_t rndn(uint32_t n){ return (uint32_t)(rnd()%n); }

/* ---------- context switch ---------- */
typedef struct { void *sp; } ctx_t;
void sg_swap(ctx_t *from, ctx_t *to);
__asm__(
".text\n.globl sg_swap\n.hidden sg_swap\n.type sg_swap,@function\nsg_swap:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" subq $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
" movq %rsp,(%rdi)\n movq (%rsi),%rsp\n"
" ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
".size sg_swap,.-sg_swap\n");

/* ---------- work sharing ---------- */
enum { WS_STATIC=1, WS_DYNAMIC=2, WS_GUIDED=3 };
typedef struct ws {
	int kind; int is_ull;
	long next, end, incr, chunk; int up;
	ull unext, uend, uincr;
	int left;                 /* threads that have finished this construct */
	int single_taken; void *copyptr; int copy_ready;
	int sec_next, sec_n;
	long ordered_next;        /* unused unless ordered */
	void *mem;
	int inited;
} ws_t;
#define MAXWS 4096

typedef struct thr {
	int id; ctx_t ctx; char *stack; int state; /* 0 runnable 1 blocked 2 done */
	int waitkind; void *waitobj; long waitval;
	long nev;           /* own events in this region */
	int ws_idx;         /* index of next work-sharing construct */
	ws_t *ws; 
	int prio;
	long st_trip;
	long ord_cur;
} thr_t;

static struct {
	int on;                  /* sim mode */
	int max_threads;         /* what omp_get_max_threads says */
	int deliver_less;        /* fault: runtime delivers fewer threads than requested */
	int policy; double p; uint32_t pthr; int npct; long pct_horizon;
	int junk;                /* dirty allocation fault */
	int dynsched;            /* treat runtime/static chunking faults */
	int replay;
	long maxev;
	/* clock */
	int64_t clock_us; int clock_mode;
	/* stats */
	long regions, events, switches, barriers, chunks, less_delivered, races, criticals, clock_reads, clock_jumps, mallocs, maxteam;
	uint64_t hash;
	int failed; /* 1 deadlock 2 livelock 3 team too large */
} S;

static thr_t T[MAXT]; static int nT; static thr_t *cur; static ctx_t mainctx;
static void (*reg_fn)(void*); static void *reg_data;
static ws_t WS[MAXWS]; static int barrier_cnt; static long barrier_gen;
static int in_par, nest; static int set_nt=0; static int region_idx;
static jmp_buf abort_jb;
static long nalive;
static uint64_t epoch;
static long pct_points[64];
static long region_ev;
/* serial "thread" when not in parallel */
static thr_t serialT;

/* switch log: region, thread, own event, target */
typedef struct { int reg, tid; long ev; int to; } sw_t;
static sw_t *swlog; static long nsw, capsw;
static sw_t *rep; static long nrep; /* replay: sorted by (reg) lookups via hash */
static long *rephash; static long rephcap;
static int *rep_team; static int nrep_team;
static int *team_log; static long nteam, capteam;

static inline void hmix(uint64_t v){ S.hash=(S.hash^v)*0x100000001B3ull; S.hash^=S.hash>>29; }

/* racy pcs: exact set, insertion order decides membership when full (deterministic under ASLR) */
#define PCN 4096
static uintptr_t pcs[PCN]; static int npc;
static inline uint32_t pc_h(uintptr_t pc){ return (uint32_t)((pc*0x9E3779B97F4A7C15ull)>>52); }
static int pc_has(uintptr_t pc){ for(uint32_t h=pc_h(pc);;h=(h+1)%PCN){ uintptr_t v=pcs[h]; if(v==pc) return 1; if(!v) return 0;} }
static void pc_add(uintptr_t pc){ if(npc>=PCN/2) return; for(uint32_t h=pc_h(pc);;h=(h+1)%PCN){ uintptr_t *v=&pcs[h]; if(*v==pc) return; if(!*v){*v=pc; npc++; return;} } }
/* shadow memory of the current region: exact open-addressing table keyed by 4-byte word */
#define SHB 19
#define SHN (1<<SHB)
typedef struct { uintptr_t addr; uint64_t epoch; uintptr_t wpc, rpc; int16_t w, r; } sh_t;
static sh_t *SH; static long shcount; static uint64_t shepoch;
static sh_t *sh_get(uintptr_t a, int add){
	if(shepoch!=epoch){ shepoch=epoch; shcount=0; }
	for(uint32_t h=(uint32_t)((a*0x9E3779B97F4A7C15ull)>>(64-SHB));;h=(h+1)%SHN){
		sh_t *s=&SH[h];
		if(s->epoch!=epoch){
			if(!add || shcount>=SHN*3/4) return NULL;
			shcount++; s->addr=a; s->epoch=epoch; s->w=-1; s->r=-1; s->wpc=s->rpc=0; return s;
		}
		if(s->addr==a) return s;
	}
}
static inline void shadow(uintptr_t a, int wr, uintptr_t pc){
	a >>= 2;
	sh_t *s=sh_get(a,1); if(!s) return;
	int me=cur->id;
	if(wr){
		if(s->w>=0 && s->w!=me){ S.races++; pc_add(s->wpc); pc_add(pc); }
		if(s->r>=0 && s->r!=me){ S.races++; pc_add(s->rpc); pc_add(pc); }
		s->w=me; s->wpc=pc;
	} else {
		if(s->w>=0 && s->w!=me){ S.races++; pc_add(s->wpc); pc_add(pc); }
		s->r=me; s->rpc=pc;
	}
}
/* memory handed out again by the allocator is not shared with its previous owner */
static void sh_forget(void*p,size_t n){ if(!in_par||!p||S.replay) return; uintptr_t a=(uintptr_t)p>>2, e=((uintptr_t)p+n+3)>>2; for(;a<e;a++){ sh_t*s=sh_get(a,0); if(s){ s->w=s->r=-1; } } }

static void logsw(int to){
	if(nsw==capsw){ capsw=capsw?capsw*2:1024; swlog=realloc(swlog,capsw*sizeof(sw_t)); }
	swlog[nsw].reg=region_idx; swlog[nsw].tid=cur?cur->id:-1; swlog[nsw].ev=cur?cur->nev:0; swlog[nsw].to=to; nsw++;
	hmix(((uint64_t)region_idx<<48)^((uint64_t)(cur?cur->id:99)<<40)^((uint64_t)(cur?cur->nev:0)<<8)^to);
}

static int rep_lookup(int reg,int tid,long ev){
	if(!nrep) return -1;
	uint64_t h=((uint64_t)reg*1000003u+tid)*0x9E3779B97F4A7C15ull ^ (uint64_t)ev*0xC2B2AE3D27D4EB4Full;
	h^=h>>31;
	for(long i=h%rephcap;;i=(i+1)%rephcap){ long j=rephash[i]; if(j<0) return -1; if(rep[j].reg==reg&&rep[j].tid==tid&&rep[j].ev==ev) return rep[j].to; }
}

static int pick_runnable_default(void){
	for(int i=0;i<nT;i++) if(T[i].state==0) return i;
	return -1;
}
static int pick(int exclude){
	int c[MAXT],n=0;
	for(int i=0;i<nT;i++) if(T[i].state==0 && i!=exclude) c[n++]=i;
	if(!n) return (exclude>=0&&T[exclude].state==0)?exclude:-1;
	if(S.policy==2){ int b=c[0]; for(int i=1;i<n;i++) if(T[c[i]].prio>T[b].prio) b=c[i]; 
		if(exclude>=0 && T[exclude].state==0 && T[exclude].prio>T[b].prio) return exclude; return b; }
	if(S.policy==0) return c[0];
	if(S.policy==4){ return c[n-1]; }
	return c[rndn(n)];
}

static void go(int to){
	thr_t *me=cur; cur=&T[to]; S.switches++;
	sg_swap(me?&me->ctx:&mainctx,&cur->ctx);
}
static void fail(int code){ S.failed=code; in_par=0; cur=&serialT; longjmp(abort_jb,1); }

/* block current thread until someone makes it runnable */
static void block_switch(void){
	int to; cur->nev++;
	if(S.replay){ to=rep_lookup(region_idx,cur->id,cur->nev); if(to<0||to>=nT||T[to].state!=0) to=pick_runnable_default(); }
	else to=pick(-1);
	if(to<0) fail(1);
	logsw(to);
	if(&T[to]!=cur) go(to);
}
/* a schedule point. racy: this access is at a known racy pc */
static inline void point(int racy){
	if(!in_par) return;
	thr_t *me=cur; me->nev++; region_ev++; S.events++;
	if(region_ev>S.maxev) fail(2);
	int to=-1;
	if(S.replay){
		to=rep_lookup(region_idx,me->id,me->nev);
		if(to<0||to>=nT||to==me->id||T[to].state!=0) return;
	} else {
		if(nalive<2) return;
		switch(S.policy){
		case 0: case 4: return;
		case 1: if((uint32_t)rnd()>=S.pthr) return; to=pick(me->id); break;
		case 2: { int hit=0; for(int i=0;i<S.npct;i++) if(pct_points[i]==region_ev){ me->prio=-1-i; hit=1; }
			if(!hit) return; to=pick(me->id); break; }
		case 3: if(racy){ if(rnd()&1) return; } else if((uint32_t)rnd()>=S.pthr) return;
			to=pick(me->id); break;
		case 5: /* one event at a time, round robin */ to=-1; for(int i=1;i<=nT;i++){ int k=(me->id+i)%nT; if(T[k].state==0){ to=k; break; } } break;
		}
		if(to<0||to==me->id) return;
	}
	logsw(to); go(to);
}
static inline void access_(void *a,int n,int wr,uintptr_t pc){
	if(!in_par) return;
	int racy=0;
	if(!S.replay){ shadow((uintptr_t)a,wr,pc); if(n>4) shadow((uintptr_t)a+4,wr,pc); racy= S.policy==3 && pc_has(pc); }
	point(racy);
}

/* ---------- tsan interface ---------- */
#define PC ((uintptr_t)__builtin_return_address(0))
EXPORT void __tsan_init(void){}
EXPORT void __tsan_func_entry(void *p){(void)p;}
EXPORT void __tsan_func_exit(void){}
#define RW(n) EXPORT void __tsan_read##n(void*a){access_(a,n,0,PC);} EXPORT void __tsan_write##n(void*a){access_(a,n,1,PC);} \
 EXPORT void __tsan_unaligned_read##n(void*a){access_(a,n,0,PC);} EXPORT void __tsan_unaligned_write##n(void*a){access_(a,n,1,PC);} \
 EXPORT void __tsan_volatile_read##n(void*a){access_(a,n,0,PC);} EXPORT void __tsan_volatile_write##n(void*a){access_(a,n,1,PC);} \
 EXPORT void __tsan_unaligned_volatile_read##n(void*a){access_(a,n,0,PC);} EXPORT void __tsan_unaligned_volatile_write##n(void*a){access_(a,n,1,PC);} \
 EXPORT void __tsan_read##n##_pc(void*a,void*pc){access_(a,n,0,(uintptr_t)pc);} EXPORT void __tsan_write##n##_pc(void*a,void*pc){access_(a,n,1,(uintptr_t)pc);}
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void*a,long n){ (void)n; access_(a,8,0,PC);} 
EXPORT void __tsan_write_range(void*a,long n){ (void)n; access_(a,8,1,PC);} 
EXPORT void __tsan_vptr_update(void**a,void*b){(void)b;access_(a,8,1,PC);} 
EXPORT void __tsan_vptr_read(void**a){access_(a,8,0,PC);} 
#define AT(bits,ty) \
EXPORT ty __tsan_atomic##bits##_load(const volatile ty*a,int m){(void)m;point(1);return *a;} \
EXPORT void __tsan_atomic##bits##_store(volatile ty*a,ty v,int m){(void)m;point(1);*a=v;} \
EXPORT ty __tsan_atomic##bits##_exchange(volatile ty*a,ty v,int m){(void)m;point(1);ty o=*a;*a=v;return o;} \
EXPORT ty __tsan_atomic##bits##_fetch_add(volatile ty*a,ty v,int m){(void)m;point(1);ty o=*a;*a=o+v;return o;} \
EXPORT ty __tsan_atomic##bits##_fetch_sub(volatile ty*a,ty v,int m){(void)m;point(1);ty o=*a;*a=o-v;return o;} \
EXPORT ty __tsan_atomic##bits##_fetch_and(volatile ty*a,ty v,int m){(void)m;point(1);ty o=*a;*a=o&v;return o;} \
EXPORT ty __tsan_atomic##bits##_fetch_or(volatile ty*a,ty v,int m){(void)m;point(1);ty o=*a;*a=o|v;return o;} \
EXPORT ty __tsan_atomic##bits##_fetch_xor(volatile ty*a,ty v,int m){(void)m;point(1);ty o=*a;*a=o^v;return o;} \
EXPORT ty __tsan_atomic##bits##_fetch_nand(volatile ty*a,ty v,int m){(void)m;point(1);ty o=*a;*a=~(o&v);return o;} \
EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile ty*a,ty*c,ty v,int m,int f){(void)m;(void)f;point(1);if(*a==*c){*a=v;return 1;}*c=*a;return 0;} \
EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile ty*a,ty*c,ty v,int m,int f){(void)m;(void)f;point(1);if(*a==*c){*a=v;return 1;}*c=*a;return 0;} \
EXPORT ty __tsan_atomic##bits##_compare_exchange_val(volatile ty*a,ty c,ty v,int m,int f){(void)m;(void)f;point(1);ty o=*a;if(o==c)*a=v;return o;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
typedef unsigned __int128 u128;
AT(128,u128)
EXPORT void __tsan_atomic_thread_fence(int m){(void)m;point(0);} 
EXPORT void __tsan_atomic_signal_fence(int m){(void)m;}

/* ---------- allocation and clock seams (core objects are objcopy-redirected here) ---------- */
static void junkfill(void *p,size_t n){ if(p && S.junk){ uint32_t v= S.junk==1?0x7fc12345u: S.junk==2?0x4b1e9a77u:0x00000003u; unsigned char*c=p; size_t i=0; for(;i+4<=n;i+=4) memcpy(c+i,&v,4); for(;i<n;i++) c[i]=0x5a; } }
EXPORT void *simg_malloc(size_t n){ void*p=malloc(n); S.mallocs++; sh_forget(p,n); junkfill(p,n); point(0); return p; }
EXPORT void *simg_calloc(size_t a,size_t b){ S.mallocs++; void*p=calloc(a,b); sh_forget(p,a*b); point(0); return p; }
#include <malloc.h>
EXPORT void *simg_realloc(void*q,size_t n){ size_t old=q?malloc_usable_size(q):0; void*p=realloc(q,n); S.mallocs++; if(p!=q) sh_forget(p,n); if(p&&n>old) junkfill((char*)p+old,n-old); point(0); return p; }
EXPORT void simg_free(void*p){ if(p && S.junk){ size_t n=malloc_usable_size(p); junkfill(p,n); } free(p); point(0); }
static int64_t simclock(void){
	S.clock_reads++;
	switch(S.clock_mode){
	case 0: S.clock_us+=1000; break;
	case 1: S.clock_us+= (int64_t)(crnd()%2000000); break;
	case 2: if(crnd()%3==0){ S.clock_us -= (int64_t)(crnd()%100000000000ull); S.clock_jumps++; } else S.clock_us+=crnd()%1000000; break; /* backwards */
	case 3: break; /* frozen */
	case 4: S.clock_us += (int64_t)(crnd()%1000000000000ull); S.clock_jumps++; break;
	}
	return S.clock_us;
}
EXPORT int simg_gettimeofday(struct timeval*tv,void*tz){ (void)tz; int64_t t=simclock(); tv->tv_sec=t/1000000; tv->tv_usec=t%1000000; return 0; }
#include <time.h>
EXPORT int simg_clock_gettime(clockid_t c,struct timespec*ts){ (void)c; int64_t t=simclock(); ts->tv_sec=t/1000000; ts->tv_nsec=(t%1000000)*1000; return 0; }
EXPORT time_t simg_time(time_t*o){ time_t t=simclock()/1000000; if(o)*o=t; return t; }
EXPORT void *simg_memcpy(void*d,const void*s,size_t n){ /* a copy is not atomic: preemptible in the middle */
	if(!in_par) return memcpy(d,s,n);
	size_t h=n/2; h-=h%8; access_((void*)s,8,0,PC); access_(d,8,1,PC); memcpy(d,s,h); if(n>8){ access_((char*)d+h,8,1,PC);} memcpy((char*)d+h,(const char*)s+h,n-h); return d; }
EXPORT void *simg_memmove(void*d,const void*s,size_t n){ if(in_par){ access_((void*)s,8,0,PC); access_(d,8,1,PC);} return memmove(d,s,n); }
EXPORT void *simg_memset(void*d,int c,size_t n){ if(!in_par) return memset(d,c,n); size_t h=n/2; access_(d,8,1,PC); memset(d,c,h); access_((char*)d+h,8,1,PC); memset((char*)d+h,c,n-h); return d; }

/* ---------- parallel regions ---------- */
static void co_main(void){
	reg_fn(reg_data);
	cur->state=2; nalive--; cur->nev++;
	/* a finished thread counts as arrived at the implicit barrier */
	for(;;){
		int to;
		if(nalive==0){ logsw(-1); S.switches++; thr_t*me=cur; sg_swap(&me->ctx,&mainctx); }
		if(S.replay){ to=rep_lookup(region_idx,cur->id,cur->nev); if(to<0||to>=nT||T[to].state!=0) to=pick_runnable_default(); }
		else to=pick(-1);
		if(to<0) fail(1);
		logsw(to); go(to);
	}
}
static void mkctx(thr_t *t){
	if(!t->stack){ t->stack=mmap(0,STACKSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
	if(S.junk) junkfill(t->stack+STACKSZ-32768,32768-256);
	uintptr_t sp=(uintptr_t)(t->stack+STACKSZ); sp&=~(uintptr_t)63;
	uint64_t *p=(uint64_t*)sp;
	*--p=0;                    /* fake return address */
	*--p=(uint64_t)co_main;    /* ret target; at entry rsp%16==8 */
	for(int i=0;i<6;i++) *--p=0;
	--p; { uint32_t mx; uint16_t fc; __asm__ volatile("stmxcsr %0":"=m"(mx)); __asm__ volatile("fnstcw %0":"=m"(fc)); ((uint32_t*)p)[0]=mx; ((uint32_t*)p)[1]=fc; }
	t->ctx.sp=p;
}
static void team_start(void(*fn)(void*),void*data,unsigned nt,int wskind,long st,long en,long inc,long chunk){
	int n = nt? (int)nt : (set_nt?set_nt:S.max_threads);
	if(!S.on || in_par || nest || n<1) n=1;
	if(n>MAXT) n=MAXT;
	if(S.on && !in_par && !nest){
		if(S.replay){ if(nteam<nrep_team) { int m=rep_team[nteam]; if(m<n) S.less_delivered++; n=m<n?m:n; if(n<1)n=1; } }
		else if(S.deliver_less && n>1 && rndn(3)==0){ n=1+rndn(n-1); S.less_delivered++; }
		if(nteam==capteam){ capteam=capteam?capteam*2:256; team_log=realloc(team_log,capteam*sizeof(int)); }
		team_log[nteam++]=n;
	}
	if(in_par || nest || !S.on){ /* nested, or simulation off: a team of one, run inline without schedule points */
		thr_t t, *oc=cur; int oin=in_par; ws_t w;
		memset(&t,0,sizeof t); memset(&w,0,sizeof w);
		t.ws=&w;
		if(wskind){ w.kind=wskind; w.next=st; w.end=en; w.incr=inc; w.chunk=chunk; w.inited=1; }
		cur=&t; in_par=0; nest++;
		fn(data);
		cur=oc; in_par=oin; nest--;
		return;
	}
	S.regions++; region_idx++; if(n>S.maxteam) S.maxteam=n;
	reg_fn=fn; reg_data=data; nT=n; nalive=n; epoch++; region_ev=0; barrier_cnt=0;
	memset(WS,0,sizeof(ws_t)*8);
	for(int i=8;i<MAXWS && WS[i].inited;i++) memset(&WS[i],0,sizeof(ws_t));
	for(int i=0;i<n;i++){ thr_t*t=&T[i]; char*s=t->stack; memset(t,0,sizeof *t); t->stack=s; t->id=i; mkctx(t); }
	if(!S.replay){
		int perm[MAXT]; for(int i=0;i<n;i++) perm[i]=i; for(int i=n-1;i>0;i--){ int j=rndn(i+1); int x=perm[i];perm[i]=perm[j];perm[j]=x; }
		for(int i=0;i<n;i++) T[i].prio=1+perm[i];
		for(int i=0;i<S.npct;i++) pct_points[i]=1+(long)(rnd()%(uint64_t)S.pct_horizon);
	}
	if(wskind){ ws_t*w=&WS[0]; w->kind=wskind; w->next=st; w->end=en; w->incr=inc; w->chunk=chunk; w->inited=1; for(int i=0;i<n;i++){ T[i].ws=w; T[i].ws_idx=1; } }
	int to; cur=NULL;
	if(S.replay){ to=rep_lookup(region_idx,-1,0); if(to<0||to>=nT) to=0; } else to=pick(-1);
	if(setjmp(abort_jb)==0){ logsw(to); in_par=1; go(to); }
	in_par=0; cur=&serialT; nT=0;
}
EXPORT void GOMP_parallel(void(*fn)(void*),void*data,unsigned nt,unsigned flags){ (void)flags; team_start(fn,data,nt,0,0,0,0,0); }
EXPORT unsigned GOMP_parallel_reductions(void(*fn)(void*),void*data,unsigned nt,unsigned flags){ (void)flags; team_start(fn,data,nt,0,0,0,0,0); return nt?nt:S.max_threads; }
EXPORT void GOMP_parallel_start(void(*fn)(void*),void*data,unsigned nt){ (void)nt;(void)fn;(void)data; }
EXPORT void GOMP_parallel_end(void){}
static int teamsize(void){ return in_par ? nT : 1; }

/* barrier */
static void barrier(void){
	point(1);
	if(teamsize()==1) return;
	S.barriers++;
	barrier_cnt++;
	if(barrier_cnt==nT){ barrier_cnt=0; barrier_gen++; epoch++; for(int i=0;i<nT;i++) if(T[i].state==1&&T[i].waitkind==1) T[i].state=0; point(1); return; }
	cur->state=1; cur->waitkind=1; block_switch();
}
EXPORT void GOMP_barrier(void){ barrier(); }
EXPORT bool GOMP_barrier_cancel(void){ barrier(); return false; }

/* worksharing */
static ws_t *ws_enter(int *first){
	static ws_t nestws;
	if(!in_par){ if(!cur->ws){ cur->ws=&nestws; } memset(cur->ws,0,sizeof(ws_t)); *first=1; cur->ws->inited=1; return cur->ws; }
	int i=cur->ws_idx++; if(i>=MAXWS) i=MAXWS-1;
	ws_t*w=&WS[i]; *first=!w->inited; if(*first){ memset(w,0,sizeof *w); w->inited=1; } cur->ws=w; return w;
}
static bool ws_next(ws_t*w,long*is,long*ie){
	point(1); S.chunks++;
	long left = w->incr>0 ? (w->end-w->next+w->incr-1)/w->incr : (w->next-w->end - w->incr -1)/(-w->incr);
	if((w->incr>0&&w->next>=w->end)||(w->incr<0&&w->next<=w->end)||left<=0) return false;
	long n;
	if(w->kind==WS_GUIDED){ n=left/teamsize(); if(n<w->chunk) n=w->chunk; } else n=w->chunk;
	if(n<1) n=1; if(n>left) n=left;
	*is=w->next; w->next+=n*w->incr; *ie=w->next; 
	if((w->incr>0&&*ie>w->end)||(w->incr<0&&*ie<w->end)) *ie=w->end;
	return true;
}
static bool static_next(long*is,long*ie){
	ws_t*w=cur->ws; int nt=teamsize(); long total= w->incr>0?(w->end-w->next+w->incr-1)/w->incr:(w->next-w->end-w->incr-1)/(-w->incr);
	if((w->incr>0&&w->next>=w->end)||(w->incr<0&&w->next<=w->end)) total=0;
	point(0);
	if(w->chunk<=0){ if(cur->ord_cur>0||total<=0) return false; long q=total/nt,r=total%nt; long s,n; int id=cur->id; if(id<r){ n=q+1; s=id*n; } else { n=q; s=q*id+r; } cur->ord_cur=1; if(n<=0) return false; *is=w->next+s*w->incr; *ie=w->next+(s+n)*w->incr; return true; }
	long k=cur->ord_cur*nt+cur->id; long s=k*w->chunk; if(s>=total) return false; long e=s+w->chunk; if(e>total) e=total; cur->ord_cur++; *is=w->next+s*w->incr; *ie=w->next+e*w->incr; return true;
}
static bool loop_start(int kind,long st,long en,long inc,long chunk,long*is,long*ie){
	int first; ws_t*w=ws_enter(&first); if(first){ w->kind=kind; w->next=st; w->end=en; w->incr=inc; w->chunk=chunk; }
	cur->ord_cur=0;
	return kind==WS_STATIC? static_next(is,ie): ws_next(w,is,ie);
}
static bool loop_next(long*is,long*ie){ return cur->ws->kind==WS_STATIC? static_next(is,ie): ws_next(cur->ws,is,ie); }
#define LOOP(name,kind,usechunk) \
EXPORT bool GOMP_loop_##name##_start(long st,long en,long inc,long ch,long*is,long*ie){ return loop_start(kind,st,en,inc,ch,is,ie); } \
EXPORT bool GOMP_loop_##name##_next(long*is,long*ie){ return loop_next(is,ie); } \
EXPORT void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned nt,long st,long en,long inc,long ch,unsigned fl){ (void)fl; team_start(fn,d,nt,kind,st,en,inc,ch); }
LOOP(static,WS_STATIC,1) LOOP(dynamic,WS_DYNAMIC,1) LOOP(guided,WS_GUIDED,1) LOOP(nonmonotonic_dynamic,WS_DYNAMIC,1) LOOP(nonmonotonic_guided,WS_GUIDED,1)
#define LOOPR(name) \
EXPORT bool GOMP_loop_##name##_start(long st,long en,long inc,long*is,long*ie){ return loop_start(WS_DYNAMIC,st,en,inc,1,is,ie); } \
EXPORT bool GOMP_loop_##name##_next(long*is,long*ie){ return loop_next(is,ie); } \
EXPORT void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned nt,long st,long en,long inc,unsigned fl){ (void)fl; team_start(fn,d,nt,WS_DYNAMIC,st,en,inc,1); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
/* unsigned long long variants */
static bool uws_next(ws_t*w,ull*is,ull*ie){ point(1); S.chunks++; if(w->unext>=w->uend) return false; ull left=(w->uend-w->unext+w->uincr-1)/w->uincr; ull n= w->kind==WS_GUIDED? left/teamsize(): (ull)w->chunk; if(n<(ull)w->chunk) n=w->chunk; if(n<1)n=1; if(n>left)n=left; *is=w->unext; w->unext+=n*w->uincr; *ie=w->unext>w->uend?w->uend:w->unext; return true; }
#define ULOOP(name,KIND) \
EXPORT bool GOMP_loop_ull_##name##_start(bool up,ull st,ull en,ull inc,ull ch,ull*is,ull*ie){ (void)up; int first; ws_t*w=ws_enter(&first); if(first){ w->kind=KIND; w->unext=st; w->uend=en; w->uincr=inc; w->chunk=ch?ch:1; } return uws_next(w,is,ie); } \
EXPORT bool GOMP_loop_ull_##name##_next(ull*is,ull*ie){ return uws_next(cur->ws,is,ie); }
ULOOP(static,WS_DYNAMIC) ULOOP(dynamic,WS_DYNAMIC) ULOOP(guided,WS_GUIDED) ULOOP(nonmonotonic_dynamic,WS_DYNAMIC) ULOOP(nonmonotonic_guided,WS_GUIDED)
#define ULOOPR(name) \
EXPORT bool GOMP_loop_ull_##name##_start(bool up,ull st,ull en,ull inc,ull*is,ull*ie){ return GOMP_loop_ull_dynamic_start(up,st,en,inc,1,is,ie); } \
EXPORT bool GOMP_loop_ull_##name##_next(ull*is,ull*ie){ return uws_next(cur->ws,is,ie); }
ULOOPR(runtime) ULOOPR(nonmonotonic_runtime) ULOOPR(maybe_nonmonotonic_runtime)
static int schedkind(long s){ s&=0xffff; s&=~0x8000; return s==1?WS_STATIC: s==3?WS_GUIDED: WS_DYNAMIC; }
EXPORT bool GOMP_loop_start(long st,long en,long inc,long sched,long ch,long*is,long*ie,uintptr_t*red,void**mem){
	(void)red; int k=schedkind(sched); if(k==WS_DYNAMIC&&ch<1) ch=1; 
	int first; ws_t*w=ws_enter(&first); if(first){ w->kind=k; w->next=st; w->end=en; w->incr=inc; w->chunk=ch; if(mem){ long sz=*(long*)mem; w->mem=calloc(1,sz>0?sz:8); } }
	if(mem) *mem=w->mem; cur->ord_cur=0; if(!is) return true; 
	return k==WS_STATIC? static_next(is,ie): ws_next(w,is,ie); }
EXPORT void GOMP_loop_end(void){ barrier(); }
EXPORT bool GOMP_loop_end_cancel(void){ barrier(); return false; }
EXPORT void GOMP_loop_end_nowait(void){ point(0); }

/* ordered: executed in thread-arrival order is wrong; run under a ticket on iteration not available -> serialise */
EXPORT void GOMP_ordered_start(void){ point(0); }
EXPORT void GOMP_ordered_end(void){ point(0); }

/* single / sections */
EXPORT bool GOMP_single_start(void){ point(1); int first; ws_t*w=ws_enter(&first); if(!w->single_taken){ w->single_taken=1; return true; } return false; }
EXPORT void *GOMP_single_copy_start(void){ point(1); int first; ws_t*w=ws_enter(&first); if(!w->single_taken){ w->single_taken=1; return NULL; } 
	while(!w->copy_ready){ if(in_par) point(1); if(S.failed) break; if(!w->copy_ready && in_par){ /* yield hard */ int to=pick(cur->id); if(to>=0&&to!=cur->id&&!S.replay){ logsw(to); go(to);} else if(S.replay){ int t2=-1; for(int i=0;i<nT;i++) if(T[i].state==0&&i!=cur->id){t2=i;break;} if(t2<0) fail(1); go(t2);} else fail(1);} }
	return w->copyptr; }
EXPORT void GOMP_single_copy_end(void*p){ cur->ws->copyptr=p; cur->ws->copy_ready=1; point(1); }
EXPORT unsigned GOMP_sections_next(void){ point(1); ws_t*w=cur->ws; if(w->sec_next>w->sec_n) return 0; return w->sec_next++; }
EXPORT unsigned GOMP_sections_start(unsigned n){ int first; ws_t*w=ws_enter(&first); if(first){ w->sec_next=1; w->sec_n=n; } return GOMP_sections_next(); }
EXPORT void GOMP_sections_end(void){ barrier(); }
EXPORT bool GOMP_sections_end_cancel(void){ barrier(); return false; }
EXPORT void GOMP_sections_end_nowait(void){ point(0); }
EXPORT void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned nt,unsigned c,unsigned fl){ (void)fl; (void)c; team_start(fn,d,nt,0,0,0,0,0); }
EXPORT void GOMP_scope_start(uintptr_t*r){(void)r;}

/* locks */
typedef struct { int held; int owner; int depth; } lk_t;
static void lk_acquire(int*held,void*obj){ point(1); while(*held){ if(!in_par) return; cur->state=1; cur->waitkind=2; cur->waitobj=obj; block_switch(); } *held=1; }
static void lk_release(int*held,void*obj){ *held=0; if(in_par) for(int i=0;i<nT;i++) if(T[i].state==1&&T[i].waitkind==2&&T[i].waitobj==obj) T[i].state=0; point(1); }
static int crit_held, atom_held;
EXPORT void GOMP_critical_start(void){ S.criticals++; lk_acquire(&crit_held,&crit_held); }
EXPORT void GOMP_critical_end(void){ lk_release(&crit_held,&crit_held); }
EXPORT void GOMP_critical_name_start(void**p){ S.criticals++; lk_acquire((int*)p,p); }
EXPORT void GOMP_critical_name_end(void**p){ lk_release((int*)p,p); }
EXPORT void GOMP_atomic_start(void){ lk_acquire(&atom_held,&atom_held); }
EXPORT void GOMP_atomic_end(void){ lk_release(&atom_held,&atom_held); }
#define LK(sfx) \
EXPORT void omp_init_lock##sfx(int*l){*l=0;} EXPORT void omp_destroy_lock##sfx(int*l){*l=0;} \
EXPORT void omp_set_lock##sfx(int*l){lk_acquire(l,l);} EXPORT void omp_unset_lock##sfx(int*l){lk_release(l,l);} \
EXPORT int omp_test_lock##sfx(int*l){point(1); if(*l) return 0; *l=1; return 1;} 
LK() LK(_)
typedef struct { int owner, count; } nl_t; /* fits omp_nest_lock_t storage */
EXPORT void omp_init_nest_lock(nl_t*l){l->owner=0;l->count=0;} EXPORT void omp_destroy_nest_lock(nl_t*l){(void)l;}
EXPORT void omp_set_nest_lock(nl_t*l){ point(1); int me=cur->id+1; while(l->count&&l->owner!=me){ cur->state=1; cur->waitkind=2; cur->waitobj=l; block_switch(); } l->owner=me; l->count++; }
EXPORT void omp_unset_nest_lock(nl_t*l){ if(--l->count==0){ int z=1; l->owner=0; lk_release(&z,l);} }

/* tasks: executed immediately (a legal schedule) */
EXPORT void GOMP_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long asz,long al,bool ifc,unsigned fl,void**dep,int prio){ (void)ifc;(void)fl;(void)dep;(void)prio; point(0);
	if(cpy){ char*b=malloc(asz+al); char*a=(char*)(((uintptr_t)b+al-1)&~(uintptr_t)(al-1)); cpy(a,data); fn(a); free(b);} else fn(data); point(0); }
EXPORT void GOMP_taskwait(void){point(0);} EXPORT void GOMP_taskyield(void){point(1);} EXPORT void GOMP_taskgroup_start(void){} EXPORT void GOMP_taskgroup_end(void){point(0);} EXPORT void GOMP_taskwait_depend(void**d){(void)d;point(0);}
EXPORT bool GOMP_cancel(int a,bool b){(void)a;(void)b;return false;} EXPORT bool GOMP_cancellation_point(int a){(void)a;return false;}

/* API */
#define API(sfx) \
EXPORT int omp_get_num_threads##sfx(void){ return teamsize(); } \
EXPORT int omp_get_thread_num##sfx(void){ return in_par? cur->id:0; } \
EXPORT int omp_get_max_threads##sfx(void){ return !S.on||in_par||nest?1:(set_nt?set_nt:S.max_threads); } \
EXPORT int omp_get_num_procs##sfx(void){ return S.on?S.max_threads:1; } \
EXPORT int omp_in_parallel##sfx(void){ return in_par&&nT>1; } \
EXPORT int omp_get_level##sfx(void){ return in_par?1:0; } \
EXPORT int omp_get_active_level##sfx(void){ return in_par&&nT>1; } \
EXPORT int omp_get_dynamic##sfx(void){ return S.deliver_less; } \
EXPORT int omp_get_nested##sfx(void){ return 0; } \
EXPORT int omp_get_thread_limit##sfx(void){ return MAXT; } \
EXPORT int omp_get_max_active_levels##sfx(void){ return 1; } \
EXPORT double omp_get_wtime##sfx(void){ return simclock()*1e-6; } \
EXPORT double omp_get_wtick##sfx(void){ return 1e-6; }
API() API(_)
EXPORT void omp_set_num_threads(int n){ set_nt=n; } EXPORT void omp_set_num_threads_(int*n){ set_nt=*n; }
EXPORT void omp_set_dynamic(int n){(void)n;} EXPORT void omp_set_nested(int n){(void)n;} EXPORT void omp_set_max_active_levels(int n){(void)n;}

/* ---------- control ---------- */
EXPORT void sg_reset_pcs(void){ memset(pcs,0,sizeof pcs); npc=0; }
EXPORT void sg_begin(uint64_t seed,int nthreads,int policy,double p,int npct,long horizon,int deliver_less,int junk,int clock_mode,long maxev){
	if(!SH) SH=mmap(0,sizeof(sh_t)*SHN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	memset(&S,0,sizeof S); rs=seed; cs_=seed^0x5bd1e995u; S.on=1; nest=0; S.max_threads=nthreads>MAXT?MAXT:nthreads; S.policy=policy; S.p=p; S.pthr=(uint32_t)(p>=1?4294967295.0:p*4294967296.0);
	S.npct=npct>64?64:npct; S.pct_horizon=horizon<1?1:horizon; S.deliver_less=deliver_less; S.junk=junk; S.clock_mode=clock_mode; S.maxev=maxev; S.clock_us=1700000000000000ll;
	S.hash=0xcbf29ce484222325ull; nsw=0; nteam=0; region_idx=0; set_nt=0; crit_held=atom_held=0; cur=&serialT; serialT.st_trip=0; in_par=0; nT=0; rep=NULL; nrep=0; nrep_team=0;
}
EXPORT void sg_replay(long n,const int*reg,const int*tid,const long*ev,const int*to,int nteams,const int*teams){
	S.replay=1; free(rephash); static sw_t*buf; static int*tb; buf=realloc(buf,(n+1)*sizeof(sw_t)); tb=realloc(tb,(nteams+1)*sizeof(int)); memcpy(tb,teams,nteams*sizeof(int)); rep_team=tb; nrep_team=nteams;
	rephcap=n*3+7; rephash=malloc(rephcap*sizeof(long)); for(long i=0;i<rephcap;i++) rephash[i]=-1;
	rep=buf; nrep=n;
	for(long j=0;j<n;j++){ buf[j].reg=reg[j]; buf[j].tid=tid[j]; buf[j].ev=ev[j]; buf[j].to=to[j];
		uint64_t h=((uint64_t)reg[j]*1000003u+tid[j])*0x9E3779B97F4A7C15ull ^ (uint64_t)ev[j]*0xC2B2AE3D27D4EB4Full; h^=h>>31; long i=h%rephcap; while(rephash[i]>=0) i=(i+1)%rephcap; rephash[i]=j; }
}
EXPORT void sg_end(long *out){
	S.on=0; out[0]=S.regions; out[1]=S.events; out[2]=S.switches; out[3]=S.barriers; out[4]=S.chunks; out[5]=S.less_delivered; out[6]=S.races; out[7]=S.criticals; out[8]=S.clock_reads; out[9]=S.clock_jumps; out[10]=S.failed; out[11]=(long)S.hash; out[12]=nsw; out[13]=nteam; out[14]=npc; out[15]=S.mallocs; out[16]=S.maxteam; out[17]=S.clock_us; S.junk=0; S.clock_mode=0;
}
EXPORT void sg_get_log(int*reg,int*tid,long*ev,int*to,int*teams){ for(long i=0;i<nsw;i++){ reg[i]=swlog[i].reg; tid[i]=swlog[i].tid; ev[i]=swlog[i].ev; to[i]=swlog[i].to; } for(long i=0;i<nteam;i++) teams[i]=team_log[i]; }
EXPORT int sg_failed(void){ return S.failed; }
__attribute__((constructor)) static void init(void){ cur=&serialT; S.max_threads=1; S.maxev=1L<<60; }
