// The simulator runtime: everything the interpreter asks of the outside world, under one seeded scheduler.
// Linked with the interpreter's objects (compiled with -fsanitize=thread for the memory access call-outs only).
// No STL here: the interpreter's template instantiations must not be mixed with ours.
#include "shm.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <dirent.h>
#include <dlfcn.h>
#include <termios.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <new>

using namespace simshm;
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;

#define EXPORT extern "C" __attribute__((visibility("default")))

// ---------------------------------------------------------------- raw system calls
static long raw6(long n, long a, long b, long c, long d, long e, long f){
	long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
	asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0){ return raw6(n, a, b, c, d, 0, 0); }
[[noreturn]] static void rawexit(int c){ for(;;) raw(SYS_exit_group, c); }

// ---------------------------------------------------------------- state
enum TState : u32 { T_FREE, T_RUN, T_MUTEX, T_COND, T_JOIN, T_FUTEX, T_STDIN, T_SLEEP, T_RW, T_SEM, T_ONCE, T_DONE };
struct Dtor { void (*fn)(void*); void* obj; };
struct Thr {
	TState state;
	u32 id;
	int go;                 // baton
	const void* waddr;      // what it waits for
	u64 wake_at;            // virtual deadline or ~0
	bool timed_out;
	bool detached, joined;
	u64 lp;                 // local steps at last switch-out
	u64 in_points;          // global steps at switch-in
	u64 prio, left_at;
	u64 stall_until;
	u32 nextdec;            // explicit mode: next decision index
	u32 condwaits, randoms;
	void* (*fn)(void*);
	void* arg;
	void* ret;
	pthread_t handle;
	Dtor dtors[16]; u32 ndtor;
	u32 seq;                // wait order
};
enum { MAXT = 400 };
struct State {
	bool active;
	Thr* cur;
	u64 points, next_check, last_switch;
	u64 vt, vt_points;
	u64 rng_sched;
	u64 next_mem, next_pct;
	u32 pct_done; u64 raised;
	u32 nthr;
	Thr thr[MAXT];
	u32 opcount[OP_COUNT];
	u32 faultmatch[MAX_FAULT];
	// stdin
	u64 stdin_pos; int pushback; bool stdin_eof; Thr* stdin_owner; u32 stdin_depth; Thr* out_owner[3]; u32 out_depth[3];
	u32 sysn;
	u32 waitseq;
	bool ended;
	u64 fd_seq;
};
static State S;
static Shm* const shm = (Shm*)SHM_ADDR;
#define IN (shm->in)
#define OUT (shm->out)

static u64 mix(u64 x){ x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static u64 rnd(u64& s){ s += 0x9e3779b97f4a7c15ull; return mix(s); }
static u32 below(u64& s, u32 n){ return n ? (u32)(rnd(s) % n) : 0; }
static bool chance(u64& s, u32 ppm){ return ppm && (rnd(s) % 1000000) < ppm; }

static u64 now(){ S.vt += (S.points - S.vt_points) * IN.step_ns; S.vt_points = S.points; return S.vt; }

// ---------------------------------------------------------------- events
static Ev* last_ev; static u64 last_ev_off;
static void event(u32 kind, i64 a, i64 b, const void* data = nullptr, u32 len = 0, bool merge = false){
	if(!S.active) return;
	u32 tid = S.cur ? S.cur->id : 0;
	if(merge && last_ev && last_ev->kind == kind && last_ev->tid == tid && last_ev->a == a){
		u64 end = last_ev_off + sizeof(Ev) + last_ev->len;
		if(end + len + 64 < EV_CAP){
			memcpy(OUT.ev + end, data, len); last_ev->len += len; last_ev->b = b;
			OUT.evlen = (end + len + 7) & ~7ull;
			return;
		}
	}
	u64 need = sizeof(Ev) + ((len + 7) & ~7u);
	if(OUT.evlen + need + 64 > EV_CAP){ OUT.ev_overflow = 1; return; }
	Ev* e = (Ev*)(OUT.ev + OUT.evlen);
	e->kind = kind; e->tid = tid; e->len = len; e->vt = now(); e->a = a; e->b = b;
	if(len) memcpy(e + 1, data, len);
	last_ev = e; last_ev_off = OUT.evlen; OUT.evlen += need;
}

static void grab_bt(void** fp, void* pc){
	u32 n = 0; memset(OUT.bt, 0, sizeof OUT.bt);
	if(pc) OUT.bt[n++] = (u64)pc;
	u64 lastfp = 0;
	while(n < 24 && fp && (u64)fp > 0x1000 && ((u64)fp & 7) == 0 && (u64)fp > lastfp && (u64)fp < 0x7fffffffffffull){
		u64 r = (u64)fp[1]; if(!r) break;
		OUT.bt[n++] = r; lastfp = (u64)fp; fp = (void**)fp[0];
		if((u64)fp - lastfp > (8u << 20)) break;
	}
}
static void fill_out(){
	OUT.points = S.points; OUT.vt = now(); OUT.nthreads = S.nthr; OUT.stdin_consumed = S.stdin_pos - (S.pushback >= 0 ? 1 : 0);
	for(u32 i = 0; i < OP_COUNT; ++i) OUT.op_count[i] = S.opcount[i];
}
extern u64 arena_used();
[[noreturn]] static void finish(u32 outcome, int code, const char* msg){
	if(S.ended) rawexit(3);
	S.ended = true; OUT.outcome = outcome; OUT.exit_code = code;
	if(msg) { size_t n = strlen(msg); if(n > sizeof(OUT.msg) - 1) n = sizeof(OUT.msg) - 1; memcpy(OUT.msg, msg, n); OUT.msg[n] = 0; }
	OUT.mem_used = arena_used();
	fill_out();
	rawexit(0);
}
static void bprintf(char* buf, size_t cap, const char* f, ...){ va_list ap; va_start(ap, f); vsnprintf(buf, cap, f, ap); va_end(ap); }
static const char* const tstate_name[] = { "free", "runnable", "mutex", "cond", "join", "futex", "stdin", "sleep", "rwlock", "sem", "once", "done" };
static void describe_threads(char* buf, size_t cap){
	size_t n = strlen(buf);
	for(u32 i = 0; i < S.nthr && n + 40 < cap; ++i){
		if(S.thr[i].state == T_DONE) continue;
		bprintf(buf + n, cap - n, " T%u:%s", i, tstate_name[S.thr[i].state]); n = strlen(buf);
	}
}

// ---------------------------------------------------------------- faults
static bool suffix(const char* path, const char* suf){
	size_t a = strlen(path), b = strlen(suf);
	return a >= b && strcmp(path + a - b, suf) == 0;
}
static void stall(u64 n){ S.cur->stall_until = S.points + n; }
// Returns the fault to apply to this occurrence of op, or null.
static const Fault* fault_for(u32 op, const char* path, i64 off = -1){
	u32 nth_all = S.opcount[op]++;
	(void)nth_all;
	const Fault* hit = nullptr;
	for(u32 i = 0; i < IN.nfault; ++i){
		const Fault& f = IN.fault[i];
		if(f.op != op) continue;
		if(f.path[0] && !(path && suffix(path, f.path))) continue;
		u32 n = S.faultmatch[i]++;
		if(f.kind != F_ERR_AT && f.nth != 0xffffffffu && f.nth != n) continue;
		if(f.kind == F_STALL){ stall((u64)f.off); OUT.fault_fired[op][F_STALL]++; continue; }
		if(f.kind == F_ERR_AT && off < 0) continue;
		if(!hit) hit = &f;
	}
	return hit;
}
static void fired(const Fault* f){ OUT.fault_fired[f->op][f->kind]++; event(E_FAULT, f->op, f->kind); }

// ---------------------------------------------------------------- scheduler
static long fu(int* a, int op, int v){ return raw6(SYS_futex, (long)a, op | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void baton_to(Thr* t){ __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); fu(&t->go, FUTEX_WAKE, 1); }
static void baton_wait(Thr* t){ while(!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) fu(&t->go, FUTEX_WAIT, 0); __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST); }

static void wake_due(){
	u64 t = now();
	for(u32 i = 0; i < S.nthr; ++i){
		Thr& x = S.thr[i];
		if(x.state != T_RUN && x.state != T_DONE && x.state != T_FREE && x.wake_at <= t){ x.timed_out = true; x.wake_at = ~0ull; x.state = T_RUN; }
	}
}
static u64 local_points(Thr* t){ return t->lp + (S.points - t->in_points); }
static u64 geo(u64& s, u64 mean){ // roughly geometric
	u64 r = 0; u64 x = rnd(s); u32 z = __builtin_clzll(x | 1); // P(z>=k)=2^-k
	r = (u64)z * mean * 7 / 10 + below(s, (u32)(mean ? mean : 1)) + 1;
	return r;
}
// How long a thread may run without a switch. It shrinks as a run gets longer, so that a thread waiting in a busy loop,
// whether or not it yields, cannot use up the step limit of a run in which others still have work to do.
static u64 quantum(){
	u64 q = IN.quantum, m = S.points < 1000000 ? ~0ull : S.points < 4000000 ? 50000 : S.points < 10000000 ? 8000 : 2000;
	return q < m ? q : m;
}
static void set_next_check(){
	u64 n = S.points + 1000000;
	u64 q = S.last_switch + quantum(); if(q > S.points && q < n) n = q;
	if(IN.max_points < n) n = IN.max_points;
	if(!IN.explicit_mode){
		if(IN.mem_mean && S.next_mem < n) n = S.next_mem;
		if(IN.pct && S.next_pct < n) n = S.next_pct;
	}else{
		Thr* t = S.cur;
		if(t->nextdec < IN.ndec){
			u64 lp = local_points(t); u64 d = IN.dec[t->nextdec].point;
			if(d > lp && S.points + (d - lp) < n) n = S.points + (d - lp);
		}
	}
	if(IN.step_ns){
		u64 t = now();
		for(u32 i = 0; i < S.nthr; ++i){
			Thr& x = S.thr[i];
			if(x.state != T_RUN && x.state != T_DONE && x.wake_at != ~0ull){
				u64 d = x.wake_at > t ? (x.wake_at - t) / IN.step_ns + 1 : 1;
				if(S.points + d < n) n = S.points + d;
			}
		}
	}
	if(n <= S.points) n = S.points + 1;
	S.next_check = n;
}
static void record(u32 target, bool forced){
	u32 i = OUT.ndec;
	if(i >= MAX_DEC){ OUT.dec_overflow = 1; return; }
	// `forced` keeps the switching thread in its upper bits
	OUT.dec[i].point = local_points(S.cur); OUT.dec[i].target = target; OUT.dec[i].forced = (S.cur->id << 1) | (forced ? 1 : 0);
	OUT.ndec = i + 1;
}
static u32 nextdec_from(u32 tid, u32 start){
	for(u32 i = start; i < IN.ndec; ++i) if((IN.dec[i].forced >> 1) == tid) return i;
	return 0xffffffffu;
}
// The decision recorded for this very local step of the current thread, or null.
static const Dec* dec_here(){
	Thr* t = S.cur; u64 lp = local_points(t);
	while(t->nextdec < IN.ndec && IN.dec[t->nextdec].point < lp) t->nextdec = nextdec_from(t->id, t->nextdec + 1);
	if(t->nextdec < IN.ndec && IN.dec[t->nextdec].point == lp){
		const Dec* d = &IN.dec[t->nextdec]; t->nextdec = nextdec_from(t->id, t->nextdec + 1); return d;
	}
	return nullptr;
}
static u32 runnable(Thr** out, bool except_cur){
	u32 n = 0;
	for(u32 i = 0; i < S.nthr; ++i){
		Thr* t = &S.thr[i];
		if(t->state == T_RUN && !(except_cur && t == S.cur) && t->stall_until <= S.points) out[n++] = t;
	}
	if(n == 0){ // only stalled ones
		for(u32 i = 0; i < S.nthr; ++i){
			Thr* t = &S.thr[i];
			if(t->state == T_RUN && !(except_cur && t == S.cur)) out[n++] = t;
		}
	}
	return n;
}
static Thr* choose(Thr** c, u32 n){
	if(IN.pct && !IN.explicit_mode){
		for(u32 i = 0; i < n; ++i) if(IN.quantum && S.points - c[i]->left_at > 2 * quantum()){ c[i]->prio = (1ull << 50) + ++S.raised; return c[i]; } // fairness
		Thr* b = c[0]; for(u32 i = 1; i < n; ++i) if(c[i]->prio > b->prio) b = c[i]; return b; }
	return c[below(S.rng_sched, n)];
}
static void switch_to(Thr* t){
	Thr* me = S.cur;
	if(t == me){ S.last_switch = S.points; set_next_check(); return; }
	me->lp = local_points(me); me->left_at = S.points;
	OUT.switches++;
	OUT.sched_hash = mix(OUT.sched_hash ^ (me->lp * 1000003u + me->id * 31 + t->id));
	t->in_points = S.points; S.cur = t; S.last_switch = S.points;
	set_next_check();
	baton_to(t);
	baton_wait(me);
	// we run again: S.cur == me
}
// The current thread cannot go on.
static void resched_blocked(){
	Thr* c[MAXT];
	for(;;){
		u32 n = runnable(c, false);
		if(n){
			Thr* t = nullptr;
			if(n == 1) t = c[0];
			else if(IN.explicit_mode){
				const Dec* d = dec_here();
				if(d) for(u32 i = 0; i < n; ++i) if(c[i]->id == d->target) t = c[i];
				if(!t){ t = c[0]; for(u32 i = 0; i < n; ++i) if(c[i]->id > S.cur->id){ t = c[i]; break; } }
			}else{
				t = IN.p_block_random || IN.pct ? choose(c, n) : c[0];
			}
			if(n > 1) record(t->id, true);
			switch_to(t);
			return;
		}
		// advance time to the next timer
		u64 best = ~0ull;
		for(u32 i = 0; i < S.nthr; ++i){ Thr& x = S.thr[i]; if(x.state != T_DONE && x.state != T_FREE && x.wake_at < best) best = x.wake_at; }
		if(best == ~0ull){
			char buf[400]; buf[0] = 0; bool in = false;
			for(u32 i = 0; i < S.nthr; ++i) if(S.thr[i].state == T_STDIN) in = true;
			bprintf(buf, sizeof buf, in ? "waiting for input for ever:" : "deadlock:"); describe_threads(buf, sizeof buf);
			finish(in ? O_WAITIN : O_DEADLOCK, -1, buf);
		}
		now(); if(best > S.vt) S.vt = best;
		wake_due();
	}
}
static void check_limits(){
	if(S.points >= IN.max_points){
		char buf[400]; bprintf(buf, sizeof buf, "no end within %llu steps:", (unsigned long long)IN.max_points); describe_threads(buf, sizeof buf);
		grab_bt((void**)__builtin_frame_address(0), nullptr);
		finish(O_STEPS, -1, buf);
	}
}
static void preempt_to_other(bool recordit){
	Thr* c[MAXT]; u32 n = runnable(c, true);
	if(!n){ S.last_switch = S.points; set_next_check(); return; }
	Thr* t = choose(c, n);
	if(IN.pct && t->prio < S.cur->prio && S.cur->stall_until <= S.points){ set_next_check(); return; }
	if(recordit) record(t->id, false);
	OUT.preempts++;
	switch_to(t);
}
static void force_other(){ // regardless of priority
	Thr* c[MAXT]; u32 n = runnable(c, true);
	if(!n){ S.last_switch = S.points; set_next_check(); return; }
	Thr* t = choose(c, n); record(t->id, false); OUT.preempts++; switch_to(t);
}
static void __attribute__((noinline)) slow_point(){
	check_limits();
	wake_due();
	if(IN.explicit_mode){
		const Dec* d = dec_here();
		if(d){
			Thr* t = nullptr;
			for(u32 i = 0; i < S.nthr; ++i) if(S.thr[i].id == d->target && S.thr[i].state == T_RUN) t = &S.thr[i];
			if(t && t != S.cur){ record(t->id, false); OUT.preempts++; switch_to(t); return; }
		}
		if(S.points - S.last_switch >= quantum()){
			Thr* c[MAXT]; u32 n = runnable(c, true);
			if(n){ Thr* t = c[0]; for(u32 i = 0; i < n; ++i) if(c[i]->id > S.cur->id){ t = c[i]; break; } record(t->id, false); switch_to(t); return; }
			S.last_switch = S.points;
		}
		set_next_check(); return;
	}
	if(S.cur->stall_until > S.points){ force_other(); return; }
	if(IN.pct && S.points >= S.next_pct && S.pct_done < IN.pct_changes){
		S.pct_done++; S.cur->prio = IN.pct_changes - S.pct_done; // lower than every initial priority
		S.next_pct = S.pct_done < IN.pct_changes ? S.points + 1 + rnd(S.rng_sched) % (IN.pct_len * 2 / (IN.pct_changes + 1) + 1) : ~0ull;
		preempt_to_other(true); return;
	}
	if(S.points - S.last_switch >= quantum()){
		if(IN.pct) S.cur->prio = S.cur->prio / 2;
		force_other(); return;
	}
	if(IN.mem_mean && S.points >= S.next_mem){
		S.next_mem = S.points + geo(S.rng_sched, IN.mem_mean);
		preempt_to_other(true); return;
	}
	set_next_check();
}
static void sync_point(){
	if(!S.active) return;
	OUT.syncs++;
	if(++S.points >= S.next_check){ slow_point(); if(IN.explicit_mode) return; }
	if(IN.explicit_mode){
		return; // next_check stops exactly at decisions
	}
	if(S.cur->stall_until > S.points){ force_other(); return; }
	if(IN.pct){ preempt_to_other(true); return; }
	if(chance(S.rng_sched, IN.p_sync_ppm)) preempt_to_other(true);
}
static void yield_point(){
	if(!S.active) return;
	OUT.syncs++;
	if(++S.points >= S.next_check){ slow_point(); if(IN.explicit_mode) return; }
	if(IN.explicit_mode) return;
	if(IN.pct || IN.p_sync_ppm == 0 || chance(S.rng_sched, 300000)) force_other();
}
// Block the current thread; returns false when its deadline passed.
static bool block(TState st, const void* addr, u64 deadline = ~0ull){
	Thr* t = S.cur;
	if(++S.points >= IN.max_points) check_limits();
	t->state = st; t->waddr = addr; t->wake_at = deadline; t->timed_out = false; t->seq = ++S.waitseq;
	wake_due();
	resched_blocked();
	t->wake_at = ~0ull; t->waddr = nullptr;
	return !t->timed_out;
}
static void wake(Thr* t){ t->state = T_RUN; t->wake_at = ~0ull; t->timed_out = false; }
static u32 wake_all(TState st, const void* addr, u32 max = 0x7fffffff){
	u32 n = 0;
	while(n < max){
		Thr* c[MAXT]; u32 k = 0;
		for(u32 i = 0; i < S.nthr; ++i) if(S.thr[i].state == st && S.thr[i].waddr == addr) c[k++] = &S.thr[i];
		if(!k) break;
		Thr* b = c[0];
		if(max < k) { // which one is woken is the scheduler's choice; kept a function of the seed and the wait order
			b = c[mix(IN.seed ^ (S.waitseq * 77u + n)) % k];
		}
		wake(b); ++n;
	}
	return n;
}

// ---------------------------------------------------------------- memory
// Arena at a fixed address with a shadow byte per 8 bytes: number of valid bytes, 0: not allocated, 0xff: freed.
enum : u64 { ARENA = 0x300000000000ull, ARENA_SIZE = 4ull << 30, SHADOW = 0x310000000000ull };
static u64 abump; static bool aready;
static u64 live_bytes;
struct Hdr { u64 size; u64 cls; };           // before each block
struct FreeList { u64 head, tail; u32 count; }; // FIFO through the first word of the block
enum { NCLS = 129, QUAR = 2048 };
static FreeList fl[NCLS];
u64 arena_used(){ return abump - ARENA; }
static void ainit(){
	void* a = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	void* s = mmap((void*)SHADOW, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if(a == MAP_FAILED || s == MAP_FAILED) rawexit(70);
	abump = ARENA + 64; aready = true;
}
static inline u8* shadow(u64 a){ return (u8*)(SHADOW + ((a - ARENA) >> 3)); }
static void set_valid(u64 a, u64 n){ u8* s = shadow(a); u64 k = n >> 3; memset(s, 8, k); if(n & 7) s[k] = (u8)(n & 7); }
[[noreturn]] static void memerr(const char* what, u64 addr, int size, int wr){
	char buf[300]; bprintf(buf, sizeof buf, "%s: %s of %d bytes at arena+0x%llx in T%u", what, wr ? "write" : "read", size, (unsigned long long)(addr - ARENA), S.cur ? S.cur->id : 0);
	grab_bt((void**)__builtin_frame_address(0), nullptr);
	if(!S.active){ dprintf(2, "%s before start\n", buf); rawexit(71); }
	finish(O_MEMERR, -1, buf);
}
static void* anew(u64 n, u64 al){
	if(!aready) ainit();
	u64 want = n ? n : 1;
	u64 cls = (want + 15) / 16;
	if(al <= 16 && cls < NCLS && fl[cls].count > QUAR){
		u64 p = fl[cls].head; fl[cls].head = *(u64*)p; fl[cls].count--;
		Hdr* h = (Hdr*)(p - 16); h->size = n;
		set_valid(p, want); memset((void*)p, S.active ? (int)IN.mem_fill : 0xa5, cls * 16);
		live_bytes += want;
		return (void*)p;
	}
	if(al < 16) al = 16;
	u64 p = (abump + 16 + al - 1) & ~(al - 1);
	u64 end = p + cls * 16 + 16;
	if(S.active && (live_bytes + want > IN.max_mem || end > ARENA + ARENA_SIZE - 4096)){
		char buf[200]; bprintf(buf, sizeof buf, "memory grows beyond %llu bytes (request of %llu)", (unsigned long long)IN.max_mem, (unsigned long long)n);
		grab_bt((void**)__builtin_frame_address(0), nullptr);
		finish(O_MEMGROW, -1, buf);
	}
	if(end > ARENA + ARENA_SIZE - 4096) rawexit(72);
	abump = end;
	Hdr* h = (Hdr*)(p - 16); h->size = n; h->cls = cls;
	set_valid(p, want);
	memset((void*)p, S.active ? (int)IN.mem_fill : 0xa5, want < 65536 ? want : 65536);
	live_bytes += want;
	return (void*)p;
}
static void adel(void* q){
	if(!q) return;
	u64 p = (u64)q;
	if(p < ARENA || p >= ARENA + ARENA_SIZE){ memerr("free of memory that was not allocated", p, 0, 1); }
	Hdr* h = (Hdr*)(p - 16);
	if(*shadow(p) == 0xff) memerr("double free", p, 0, 1);
	if(*shadow(p) == 0) memerr("free of memory that was not allocated", p, 0, 1);
	u64 want = h->size ? h->size : 1;
	memset(shadow(p), 0xff, (want + 7) >> 3);
	memset(q, 0xdd, want < 4096 ? want : 4096);
	live_bytes -= want;
	u64 cls = h->cls;
	if(cls < NCLS && cls > 0){
		if(fl[cls].count == 0){ fl[cls].head = fl[cls].tail = p; }
		else { *(u64*)fl[cls].tail = p; fl[cls].tail = p; }
		*(u64*)p = 0xdddddddddddddddd; fl[cls].count++;
	}
}
void* operator new(size_t n){ return anew(n, 16); }
void* operator new[](size_t n){ return anew(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return anew(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return anew(n, 16); }
void* operator new(size_t n, std::align_val_t a){ return anew(n, (u64)a); }
void* operator new[](size_t n, std::align_val_t a){ return anew(n, (u64)a); }
void operator delete(void* p) noexcept { adel(p); }
void operator delete[](void* p) noexcept { adel(p); }
void operator delete(void* p, size_t) noexcept { adel(p); }
void operator delete[](void* p, size_t) noexcept { adel(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { adel(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { adel(p); }
void operator delete(void* p, std::align_val_t) noexcept { adel(p); }
void operator delete[](void* p, std::align_val_t) noexcept { adel(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { adel(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { adel(p); }

// Conflict table: last accesses per 8-byte word.
struct Acc { u64 word; u32 tid; u32 wr; };
enum { ACCN = 1 << 15 };
static Acc acc[ACCN];

static inline void check_mem(u64 a, int sz, int wr){
	if(a - ARENA < ARENA_SIZE){
		u8 s = *shadow(a);
		if(__builtin_expect(s != 8, 0)){
			if(s == 0xff) memerr("use of freed memory", a, sz, wr);
			if(s == 0) memerr("access outside allocated memory", a, sz, wr);
			if((a & 7) + (u32)sz > s) memerr("access outside allocated memory", a, sz, wr);
		}else if((a & 7) + (u32)sz > 8){
			u8 s2 = *shadow(a + sz - 1);
			if(s2 == 0xff || s2 == 0 || ((a + sz - 1) & 7) >= s2) memerr("access outside allocated memory", a, sz, wr);
		}
	}
}
static inline void mem_point(u64 a, int sz, int wr){
	if(__builtin_expect(!S.active, 0)) return;
	if(__builtin_expect(++S.points >= S.next_check, 0)) slow_point();
	if(IN.p_conflict_ppm && !IN.explicit_mode){
		u64 w = a >> 3; Acc* e = &acc[(w * 0x9e3779b1u >> 3) & (ACCN - 1)];
		u32 id = S.cur->id + 1;
		if(e->word == w && e->tid != id && (e->wr || wr) && e->tid){
			if(chance(S.rng_sched, IN.p_conflict_ppm)) preempt_to_other(true);
		}
		e->word = w; e->tid = id; e->wr = wr;
	}
	check_mem(a, sz, wr);
}
#define RW(n) \
	EXPORT void __tsan_read##n(void* p){ mem_point((u64)p, n, 0); } \
	EXPORT void __tsan_write##n(void* p){ mem_point((u64)p, n, 1); } \
	EXPORT void __tsan_unaligned_read##n(void* p){ mem_point((u64)p, n, 0); } \
	EXPORT void __tsan_unaligned_write##n(void* p){ mem_point((u64)p, n, 1); } \
	EXPORT void __tsan_read##n##_pc(void* p, void*){ mem_point((u64)p, n, 0); } \
	EXPORT void __tsan_write##n##_pc(void* p, void*){ mem_point((u64)p, n, 1); } \
	EXPORT void __tsan_volatile_read##n(void* p){ mem_point((u64)p, n, 0); } \
	EXPORT void __tsan_volatile_write##n(void* p){ mem_point((u64)p, n, 1); } \
	EXPORT void __tsan_unaligned_volatile_read##n(void* p){ mem_point((u64)p, n, 0); } \
	EXPORT void __tsan_unaligned_volatile_write##n(void* p){ mem_point((u64)p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(u64 a, u64 n, int wr){
	if(!n) return;
	mem_point(a, n < 8 ? (int)n : 1, wr);
	if(S.active) for(u64 i = 8; i < n; i += 8) check_mem(a + i, n - i >= 8 && ((a + i) & 7) == 0 ? 8 : 1, wr);
}
EXPORT void __tsan_read_range(void* p, unsigned long n){ range((u64)p, n, 0); }
EXPORT void __tsan_write_range(void* p, unsigned long n){ range((u64)p, n, 1); }
EXPORT void __tsan_vptr_read(void** p){ mem_point((u64)p, 8, 0); }
EXPORT void __tsan_vptr_update(void** p, void*){ mem_point((u64)p, 8, 1); }
EXPORT void __tsan_init(){}
EXPORT void __tsan_func_entry(void*){ if(S.active && ++S.points >= S.next_check) slow_point(); }
EXPORT void __tsan_func_exit(){}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n){ range((u64)d, n, 1); range((u64)s, n, 0); return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n){ range((u64)d, n, 1); range((u64)s, n, 0); return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, size_t n){ range((u64)d, n, 1); return memset(d, c, n); }
#define ATOM(bits, T) \
	EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int){ mem_point((u64)p, sizeof(T), 0); return *p; } \
	EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int){ mem_point((u64)p, sizeof(T), 1); *p = v; } \
	EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; *p = v; return o; } \
	EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; *p = o + v; return o; } \
	EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; *p = o - v; return o; } \
	EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; *p = o & v; return o; } \
	EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; *p = o | v; return o; } \
	EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; *p = o ^ v; return o; } \
	EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; *p = ~(o & v); return o; } \
	EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; if(o == *e){ *p = v; return 1; } *e = o; return 0; } \
	EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; if(o == *e){ *p = v; return 1; } *e = o; return 0; } \
	EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int){ mem_point((u64)p, sizeof(T), 1); T o = *p; if(o == e) *p = v; return o; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
EXPORT void __tsan_atomic_thread_fence(int){}
EXPORT void __tsan_atomic_signal_fence(int){}

// ---------------------------------------------------------------- threads
typedef int (*pcreate_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static pcreate_t real_create;
static void arm_altstack(){
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 65536;
	ss.ss_sp = (void*)raw6(SYS_mmap, 0, (long)ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	sigaltstack(&ss, nullptr);
}
static void thread_done(Thr* t){
	while(t->ndtor){ Dtor d = t->dtors[--t->ndtor]; d.fn(d.obj); }
	event(E_TEXIT, t->id, 0);
	++S.points;
	wake_all(T_JOIN, t);
	t->state = T_DONE;
	resched_blocked(); // never returns: nobody wakes a finished thread
	rawexit(4);
}
static void* thread_main(void* p){
	Thr* t = (Thr*)p;
	baton_wait(t);
	arm_altstack();
	t->ret = t->fn(t->arg);
	thread_done(t);
	return nullptr;
}
EXPORT int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg){
	if(!S.active) return EAGAIN;
	const Fault* f = fault_for(OP_THREAD, nullptr);
	if(f && f->kind == F_ERR){ fired(f); sync_point(); return f->val; }
	if(S.nthr >= MAXT) return EAGAIN;
	Thr* t = &S.thr[S.nthr]; memset(t, 0, sizeof *t);
	t->id = S.nthr; t->fn = fn; t->arg = arg; t->state = T_RUN; t->wake_at = ~0ull;
	t->prio = (rnd(S.rng_sched) >> 16) + 1000; t->left_at = S.points;
	t->nextdec = nextdec_from(t->id, 0);
	if(attr){ int d; pthread_attr_getdetachstate(attr, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
	pthread_t h;
	if(real_create(&h, &at, thread_main, t)){ finish(O_INTERNAL, -1, "cannot create a thread"); }
	t->handle = h; *th = h; S.nthr++;
	event(E_THREAD, t->id, 0);
	sync_point();
	return 0;
}
static Thr* by_handle(pthread_t h){ for(u32 i = 0; i < S.nthr; ++i) if(S.thr[i].handle == h) return &S.thr[i]; return nullptr; }
EXPORT int pthread_join(pthread_t h, void** ret){
	sync_point();
	Thr* t = by_handle(h);
	if(!t) return ESRCH;
	if(t == S.cur) return EDEADLK;
	if(t->joined || t->detached) return EINVAL;
	while(t->state != T_DONE) block(T_JOIN, t);
	t->joined = true;
	if(ret) *ret = t->ret;
	return 0;
}
EXPORT int pthread_detach(pthread_t h){ Thr* t = by_handle(h); if(!t) return ESRCH; if(t->detached || t->joined) return EINVAL; t->detached = true; sync_point(); return 0; }
EXPORT void pthread_exit(void* r){ Thr* t = S.cur; t->ret = r; thread_done(t); for(;;); }
EXPORT int pthread_cancel(pthread_t){ return ESRCH; }
EXPORT int pthread_kill(pthread_t, int){ return 0; }
EXPORT int sched_yield(){ yield_point(); return 0; }
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*){
	Thr* t = S.cur; if(!S.active || !t || t->ndtor >= 16) return 0;
	t->dtors[t->ndtor++] = Dtor{fn, obj}; return 0;
}

// Mutexes live in the memory of pthread_mutex_t: [0] owner id + 1, [1] recursion, kind at its glibc place.
struct Mx { u32 owner, count; u32 pad[2]; int kind; };
static inline Mx* mx(void* m){ return (Mx*)m; }
static void chk_obj(const void* p){ if(S.active) check_mem((u64)p, 8, 1); }
static u32 self(){ return S.active ? S.cur->id + 1 : 1; }
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a){
	memset(m, 0, sizeof *m); int k = 0; if(a) pthread_mutexattr_gettype(a, &k); mx(m)->kind = k; return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t*){ return 0; }
static int mlock(pthread_mutex_t* p, u64 deadline){
	Mx* m = mx(p); chk_obj(p);
	if(m->owner == self() && m->count){
		if((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE){ m->count++; return 0; }
		if((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	while(m->count){
		if(!S.active) return EDEADLK;
		if(!block(T_MUTEX, p, deadline)) { if(m->count) return ETIMEDOUT; }
		chk_obj(p);
	}
	m->owner = self(); m->count = 1;
	return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* p){ chk_obj(p); sync_point(); return mlock(p, ~0ull); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* p){
	sync_point(); Mx* m = mx(p); chk_obj(p);
	if(m->count){ if(m->owner == self() && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE){ m->count++; return 0; } return EBUSY; }
	m->owner = self(); m->count = 1; return 0;
}
static int munlock(pthread_mutex_t* p){
	Mx* m = mx(p); chk_obj(p);
	if(!m->count) return 0;
	if(--m->count == 0){ m->owner = 0; if(S.active) wake_all(T_MUTEX, p); }
	return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* p){ if(S.active && (!mx(p)->count || mx(p)->owner != self())) finish(O_MEMERR, -1, "unlock of a mutex the thread does not hold"); munlock(p); sync_point(); return 0; }
static i64 wall_now();
static u64 deadline_of(clockid_t c, const struct timespec* ts){
	i64 t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
	i64 base = c == CLOCK_REALTIME ? wall_now() : (i64)now() + 1000000000ll;
	i64 d = t - base; if(d < 0) d = 0;
	return now() + (u64)d;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* p, const struct timespec* ts){ sync_point(); return mlock(p, deadline_of(CLOCK_REALTIME, ts)); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* p, clockid_t c, const struct timespec* ts){ sync_point(); return mlock(p, deadline_of(c, ts)); }
EXPORT int pthread_mutexattr_destroy(pthread_mutexattr_t*){ return 0; }

static int cwait(pthread_cond_t* c, pthread_mutex_t* p, u64 deadline){
	chk_obj(c); chk_obj(p);
	const Fault* f = fault_for(OP_CONDWAIT, nullptr);
	Mx* m = mx(p); u32 cnt = m->count;
	if(S.active && (!cnt || m->owner != self())) finish(O_MEMERR, -1, "wait with a mutex the thread does not hold");
	Thr* t = S.cur; t->condwaits++;
	bool spur = (f && f->kind == F_WAKE) || (IN.p_spurious_ppm && mix(IN.seed ^ 0x5b ^ ((u64)t->id << 32 | t->condwaits)) % 1000000 < IN.p_spurious_ppm);
	m->count = 1; munlock(p);
	bool ok = true;
	if(spur){ if(f) fired(f); OUT.spurious++; sync_point(); }
	else ok = block(T_COND, c, deadline);
	chk_obj(p);
	mlock(p, ~0ull); m->count = cnt ? cnt : 1;
	return ok ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*){ memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t*){ return 0; }
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m){ return cwait(c, m, ~0ull); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts){ return cwait(c, m, deadline_of(CLOCK_REALTIME, ts)); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts){ return cwait(c, m, deadline_of(k, ts)); }
EXPORT int pthread_cond_signal(pthread_cond_t* c){ chk_obj(c); sync_point(); wake_all(T_COND, c, 1); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c){ chk_obj(c); sync_point(); wake_all(T_COND, c); return 0; }

struct Rw { u32 readers, writer; };
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*){ memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*){ return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l){ sync_point(); Rw* r = (Rw*)l; while(r->writer) block(T_RW, l); r->readers++; return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l){ sync_point(); Rw* r = (Rw*)l; while(r->writer || r->readers) block(T_RW, l); r->writer = self(); return 0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l){ sync_point(); Rw* r = (Rw*)l; if(r->writer) return EBUSY; r->readers++; return 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l){ sync_point(); Rw* r = (Rw*)l; if(r->writer || r->readers) return EBUSY; r->writer = self(); return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l){ Rw* r = (Rw*)l; if(r->writer) r->writer = 0; else if(r->readers) r->readers--; if(S.active) wake_all(T_RW, l); sync_point(); return 0; }
EXPORT int sem_init(sem_t* s, int, unsigned v){ memset(s, 0, sizeof *s); *(u32*)s = v; return 0; }
EXPORT int sem_destroy(sem_t*){ return 0; }
EXPORT int sem_post(sem_t* s){ ++*(u32*)s; wake_all(T_SEM, s, 1); sync_point(); return 0; }
EXPORT int sem_wait(sem_t* s){ sync_point(); while(!*(u32*)s) block(T_SEM, s); --*(u32*)s; return 0; }
EXPORT int sem_trywait(sem_t* s){ sync_point(); if(!*(u32*)s){ errno = EAGAIN; return -1; } --*(u32*)s; return 0; }
EXPORT int sem_timedwait(sem_t* s, const struct timespec* ts){ sync_point(); u64 d = deadline_of(CLOCK_REALTIME, ts); while(!*(u32*)s) if(!block(T_SEM, s, d) && !*(u32*)s){ errno = ETIMEDOUT; return -1; } --*(u32*)s; return 0; }
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts){ sync_point(); u64 d = deadline_of(c, ts); while(!*(u32*)s) if(!block(T_SEM, s, d) && !*(u32*)s){ errno = ETIMEDOUT; return -1; } --*(u32*)s; return 0; }
EXPORT int pthread_once(pthread_once_t* o, void (*fn)()){
	sync_point(); volatile int* p = (volatile int*)o;
	for(;;){
		if(*p == 2) return 0;
		if(*p == 0){ *p = 1; fn(); *p = 2; if(S.active) wake_all(T_ONCE, o); return 0; }
		if(!S.active) return 0;
		block(T_ONCE, o);
	}
}
EXPORT long syscall(long n, ...){
	va_list ap; va_start(ap, n); long a[6]; for(int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
	if(S.active && n == SYS_futex){
		int op = (int)a[1] & 127; int* addr = (int*)a[0];
		if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET){
			sync_point();
			if(*addr != (int)a[2]){ errno = EAGAIN; return -1; }
			u64 d = ~0ull;
			if(a[3]){ const struct timespec* ts = (const struct timespec*)a[3]; if(op == FUTEX_WAIT) d = now() + (u64)(ts->tv_sec * 1000000000ll + ts->tv_nsec); else d = deadline_of(a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
			if(!block(T_FUTEX, addr, d)){ errno = ETIMEDOUT; return -1; }
			return 0;
		}
		if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET){ long k = wake_all(T_FUTEX, addr, (u32)a[2]); sync_point(); return k; }
	}
	if(S.active && n == SYS_gettid) return S.cur->id + 1000;
	if(S.active && n == SYS_getrandom){ u64 s = IN.rand_seed ^ 0x77; for(long i = 0; i < a[1]; ++i) ((u8*)a[0])[i] = (u8)rnd(s); return a[1]; }
	if(S.active && n == SYS_clock_gettime) return clock_gettime((clockid_t)a[0], (struct timespec*)a[1]);
	if(S.active){ errno = ENOSYS; return -1; }
	long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if(r < 0){ errno = (int)-r; return -1; }
	return r;
}

// ---------------------------------------------------------------- time
static i64 wall_now(){
	u64 t = now(); i64 w = IN.wall_base * 1000000000ll + (i64)t;
	for(u32 i = 0; i < IN.njump; ++i) if(IN.jump[i].at <= t) w += IN.jump[i].by;
	return w;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
	if(!S.active){ long r = raw(SYS_clock_gettime, c, (long)ts); if(r < 0){ errno = (int)-r; return -1; } return 0; }
	sync_point();
	i64 t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_now() : (i64)now() + 1000000000ll;
	i64 s = t / 1000000000ll, n = t % 1000000000ll; if(n < 0){ n += 1000000000ll; --s; }
	ts->tv_sec = s; ts->tv_nsec = n;
	event(E_TIME, c, t);
	return 0;
}
EXPORT int clock_getres(clockid_t, struct timespec* ts) noexcept { if(ts){ ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
EXPORT int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
EXPORT int timespec_get(struct timespec* ts, int b) noexcept { clock_gettime(CLOCK_REALTIME, ts); return b; }
EXPORT time_t time(time_t* p) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if(p) *p = ts.tv_sec; return ts.tv_sec; }
EXPORT clock_t clock() noexcept { return (clock_t)(now() / 1000); }
static int do_sleep(u64 ns, u64* left){
	const Fault* f = fault_for(OP_SLEEP, nullptr);
	u64 start = now(); OUT.sleeps++;
	event(E_SLEEP, (i64)ns, 0);
	if(f && f->kind == F_ERR && f->val == EINTR){
		fired(f);
		u64 part = ns / 3; block(T_SLEEP, S.cur, start + part);
		u64 el = now() - start; *left = ns > el ? ns - el : 0; return EINTR;
	}
	while(now() < start + ns) block(T_SLEEP, S.cur, start + ns);
	return 0;
}
EXPORT int nanosleep(const struct timespec* r, struct timespec* rem){
	if(!S.active) return 0;
	u64 left = 0; int e = do_sleep((u64)(r->tv_sec * 1000000000ll + r->tv_nsec), &left);
	if(e){ if(rem){ rem->tv_sec = (time_t)(left / 1000000000ull); rem->tv_nsec = (long)(left % 1000000000ull); } errno = e; return -1; }
	return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem){
	u64 ns = flags & TIMER_ABSTIME ? deadline_of(c, r) - now() : (u64)(r->tv_sec * 1000000000ll + r->tv_nsec);
	u64 left = 0; int e = do_sleep(ns, &left);
	if(e && rem && !(flags & TIMER_ABSTIME)){ rem->tv_sec = (time_t)(left / 1000000000ull); rem->tv_nsec = (long)(left % 1000000000ull); }
	return e;
}
EXPORT int usleep(useconds_t u){ u64 l; return do_sleep(u * 1000ull, &l) ? -1 : 0; }
EXPORT unsigned sleep(unsigned s){ u64 l = 0; do_sleep(s * 1000000000ull, &l); return (unsigned)(l / 1000000000ull); }

// ---------------------------------------------------------------- randomness
static bool seeded;
static u64 rand_value(bool c_library = false){
	Thr* t = S.cur; u64 v = mix((c_library && !seeded ? IN.seed : IN.rand_seed) ^ 0xabcdef ^ ((u64)t->id << 40) ^ ++t->randoms); // what is not seeded is the same in every process
	if(IN.random_mode == 1 && v % 4) v = mix(IN.seed + (v >> 8) % 3);
	else if(IN.random_mode == 2 && t->randoms % 4) v = mix(IN.seed);
	event(E_RANDOM, (i64)(v & 0x7fffffff), 0);
	return v;
}
EXPORT long random() noexcept { sync_point(); return (long)(rand_value(true) & 0x7fffffff); }
EXPORT int rand() noexcept { sync_point(); return (int)(rand_value(true) & 0x7fffffff); }
EXPORT void srandom(unsigned) noexcept { seeded = true; }
EXPORT void srand(unsigned) noexcept { seeded = true; }
EXPORT u32 arc4random(){ return (u32)rand_value(); }
EXPORT int getentropy(void* p, size_t n){ for(size_t i = 0; i < n; ++i) ((u8*)p)[i] = (u8)rand_value(); return 0; }
EXPORT ssize_t getrandom(void* p, size_t n, unsigned){ getentropy(p, n); return (ssize_t)n; }
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void*){ Thr* t = S.cur; if(!S.active) return 1; if(IN.random_mode == 2) return (unsigned)mix(IN.seed); return (unsigned)mix(IN.rand_seed ^ 0x1234567 ^ ((u64)t->id << 40) ^ ++t->randoms); }
EXPORT void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*){}
EXPORT void _ZNSt13random_device7_M_finiEv(void*){}

// ---------------------------------------------------------------- virtual file system
struct FakeFile { u32 used; int fd; int unget; bool err, eof; u32 nbuf; u8 buf[4096]; };   // buf: written, not yet passed on
struct Fd { bool used; int node; i64 pos; bool rd, wr, app; };
enum { NFD = 64, FDBASE = 10 };
static Fd fds[NFD];
static FakeFile files[NFD];
static char cwd_[PATH_CAP];

static void normalise(const char* p, char* out){
	char tmp[1024]; size_t n = 0;
	if(p[0] != '/'){ size_t l = strlen(cwd_); memcpy(tmp, cwd_, l); n = l; tmp[n++] = '/'; }
	size_t pl = strlen(p); if(pl > sizeof(tmp) - n - 2) pl = sizeof(tmp) - n - 2;
	memcpy(tmp + n, p, pl); tmp[n + pl] = 0;
	size_t o = 0; const char* q = tmp;
	while(*q){
		while(*q == '/') ++q;
		const char* e = q; while(*e && *e != '/') ++e;
		size_t l = (size_t)(e - q);
		if(l == 0) break;
		if(l == 1 && q[0] == '.'){}
		else if(l == 2 && q[0] == '.' && q[1] == '.'){ while(o > 0 && out[o - 1] != '/') --o; if(o > 0) --o; }
		else if(o + l + 2 < PATH_CAP){ out[o++] = '/'; memcpy(out + o, q, l); o += l; }
		q = e;
	}
	if(o == 0) out[o++] = '/';
	out[o] = 0;
}
static int find_node(const char* norm){
	for(u32 i = 0; i < MAX_NODE; ++i) if(shm->node[i].type != N_FREE && strcmp(shm->node[i].path, norm) == 0) return (int)i;
	return -1;
}
static int resolve(const char* p, char* norm){
	if(!p || !*p){ norm[0] = 0; errno = ENOENT; return -1; }
	if(strlen(p) > 900){ norm[0] = 0; errno = ENAMETOOLONG; return -1; }
	normalise(p, norm);
	{ // "." and ".." need the directory before them
		const char* q = p; 
		while(*q){
			while(*q == '/') ++q;
			const char* e = q; while(*e && *e != '/') ++e;
			size_t l = (size_t)(e - q); if(l == 0) break;
			if(q != p && q[0] == '.' && (l == 1 || (l == 2 && q[1] == '.'))){
				char pre[1024]; memcpy(pre, p, (size_t)(q - p)); pre[q - p] = 0; char pn[PATH_CAP]; normalise(pre, pn); int k = find_node(pn);
				if(strcmp(pn, "/") != 0 && (k < 0 || shm->node[k].type != N_DIR)){ int er = k < 0 ? ENOENT : ENOTDIR; strncpy(norm, pn, PATH_CAP - 5); norm[PATH_CAP - 5] = 0; strcat(norm, "/.."); errno = er; return -1; }
			}
			q = e;
		}
	}
	if(strcmp(norm, "/proc/self/exe") == 0) strcpy(norm, "/sim/bin/funge");
	// a component that is a file?
	char par[PATH_CAP]; strcpy(par, norm);
	for(;;){
		char* s = strrchr(par, '/'); if(!s || s == par) break; *s = 0;
		int k = find_node(par);
		if(k >= 0 && shm->node[k].type == N_FILE){ errno = ENOTDIR; return -1; }
	}
	int n = find_node(norm);
	if(n < 0){ errno = ENOENT; return -1; }
	// trailing slash on a file
	size_t l = strlen(p); if(p[l - 1] == '/' && shm->node[n].type == N_FILE){ errno = ENOTDIR; return -1; }
	return n;
}
static bool parent_ok(const char* norm){
	char par[PATH_CAP]; strcpy(par, norm); char* s = strrchr(par, '/'); if(s == par) s[1] = 0; else *s = 0;
	int n = find_node(par); if(n < 0){ errno = ENOENT; return false; }
	if(shm->node[n].type != N_DIR){ errno = ENOTDIR; return false; }
	if(!(shm->node[n].mode & 2)){ errno = EACCES; return false; }
	return true;
}
static int new_node(const char* norm, u32 type){
	for(u32 i = 0; i < MAX_NODE; ++i) if(shm->node[i].type == N_FREE){
		Node& n = shm->node[i]; n.type = type; n.mode = 3; n.size = 0; strncpy(n.path, norm, PATH_CAP - 1); return (int)i;
	}
	errno = ENOSPC; return -1;
}
static bool inject(u32 op, const char* path){
	sync_point();
	const Fault* f = fault_for(op, path);
	if(f && f->kind == F_ERR){ fired(f); errno = f->val; return true; }
	return false;
}
static int do_open(const char* path, bool rd, bool wr, bool app, bool creat, bool trunc, bool excl){
	char norm[PATH_CAP];
	if(!path || !*path){ errno = ENOENT; event(E_OPEN, -1, wr, path ? path : "", 0); return -1; }
	int n = resolve(path, norm); int e = errno;
	bool bad = inject(OP_OPEN, norm);
	int fe = errno;
	if(bad){ event(E_OPEN, -fe, wr, norm, (u32)strlen(norm)); errno = fe; return -1; }
	auto fail = [&](int err){ event(E_OPEN, -err, wr, norm, (u32)strlen(norm)); errno = err; return -1; };
	if(n < 0){
		if(e != ENOENT || !creat) return fail(e);
		size_t l = strlen(path); if(path[l - 1] == '/') return fail(EISDIR);
		if(!parent_ok(norm)) return fail(errno);
		n = new_node(norm, N_FILE); if(n < 0) return fail(ENOSPC);
	}else{
		Node& nd = shm->node[n];
		if(creat && excl) return fail(EEXIST);
		if(nd.type == N_DIR && wr) return fail(EISDIR);
		if(rd && !(nd.mode & 1)) return fail(EACCES);
		if(wr && !(nd.mode & 2)) return fail(EACCES);
		if(trunc && wr) nd.size = 0;
	}
	for(int i = 0; i < NFD; ++i) if(!fds[i].used){
		fds[i] = Fd{true, n, 0, rd, wr, app};
		event(E_OPEN, FDBASE + i, wr, norm, (u32)strlen(norm));
		return FDBASE + i;
	}
	return fail(EMFILE);
}
static Fd* fd_of(int fd){ if(fd >= FDBASE && fd < FDBASE + NFD && fds[fd - FDBASE].used) return &fds[fd - FDBASE]; return nullptr; }
static ssize_t do_stdout(int which, const void* p, size_t n){ sync_point(); event(which == 1 ? E_STDOUT : E_STDERR, 0, 0, p, (u32)n, true); return (ssize_t)n; }
static int stdin_getc(bool peek_only = false);
EXPORT ssize_t read(int fd, void* buf, size_t n){
	if(fd == 0){ if(!n) return 0; int c = stdin_getc(); if(c < 0) return c == -1 ? 0 : -1; ((u8*)buf)[0] = (u8)c; return 1; }
	Fd* f = fd_of(fd); if(!f){ errno = EBADF; return -1; }
	sync_point();
	Node& nd = shm->node[f->node];
	const Fault* ft = fault_for(OP_READ, nd.path, f->pos);
	if(!f->rd){ errno = EBADF; return -1; }
	if(ft && ft->kind == F_ERR){ fired(ft); errno = ft->val; return -1; }
	if(nd.type == N_DIR){ errno = EISDIR; return -1; }
	size_t m = f->pos < (i64)nd.size ? nd.size - (size_t)f->pos : 0; if(m > n) m = n;
	if(IN.read_chunk && m > IN.read_chunk) m = IN.read_chunk;
	if(ft && ft->kind == F_SHORT && m > (size_t)ft->val){ fired(ft); m = (size_t)ft->val; }
	if(ft && ft->kind == F_ERR_AT){
		if(f->pos >= ft->off){ fired(ft); errno = ft->val; return -1; }
		if(f->pos + (i64)m > ft->off) m = (size_t)(ft->off - f->pos);
	}
	memcpy(buf, nd.data + f->pos, m); f->pos += (i64)m;
	event(E_READ, fd, (i64)m);
	return (ssize_t)m;
}
EXPORT ssize_t __read_chk(int fd, void* b, size_t n, size_t){ return read(fd, b, n); }
static ssize_t do_write(int fd, const void* buf, size_t n){
	if(fd == 1 || fd == 2) return do_stdout(fd, buf, n);
	Fd* f = fd_of(fd); if(!f || !f->wr){ errno = EBADF; return -1; }
	sync_point();
	Node& nd = shm->node[f->node];
	if(f->app) f->pos = nd.size;
	const Fault* ft = fault_for(OP_WRITE, nd.path, f->pos);
	if(ft && ft->kind == F_ERR){ fired(ft); errno = ft->val; return -1; }
	size_t m = n;
	if(IN.write_chunk && m > IN.write_chunk) m = IN.write_chunk;
	if(ft && ft->kind == F_SHORT && m > (size_t)ft->val){ fired(ft); m = (size_t)ft->val; }
	if(ft && ft->kind == F_ERR_AT){
		if(f->pos >= ft->off){ fired(ft); errno = ft->val; return -1; }
		if(f->pos + (i64)m > ft->off) m = (size_t)(ft->off - f->pos);
	}
	if(f->pos + (i64)m > NODE_CAP){ if(f->pos >= NODE_CAP){ errno = ENOSPC; return -1; } m = (size_t)(NODE_CAP - f->pos); }
	if(f->pos > (i64)nd.size) memset(nd.data + nd.size, 0, (size_t)f->pos - nd.size);
	memcpy(nd.data + f->pos, buf, m); f->pos += (i64)m; if(f->pos > (i64)nd.size) nd.size = (u32)f->pos;
	event(E_WRITE, fd, (i64)m);
	return (ssize_t)m;
}
EXPORT ssize_t write(int fd, const void* b, size_t n){ if(!S.active) return raw(SYS_write, fd, (long)b, (long)n); return do_write(fd, b, n); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int c){
	ssize_t t = 0;
	for(int i = 0; i < c; ++i){
		if(!v[i].iov_len) continue;
		ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len);
		if(r < 0) return t ? t : -1;
		t += r; if((size_t)r < v[i].iov_len) break;
	}
	return t;
}
EXPORT ssize_t readv(int fd, const struct iovec* v, int c){ return c > 0 ? read(fd, v[0].iov_base, v[0].iov_len) : 0; }
EXPORT off_t lseek(int fd, off_t o, int w) noexcept {
	Fd* f = fd_of(fd); if(!f){ errno = fd < 3 ? ESPIPE : EBADF; return -1; }
	if(inject(OP_SEEK, shm->node[f->node].path)) return -1;
	i64 b = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos : (i64)shm->node[f->node].size;
	if(b + o < 0){ errno = EINVAL; return -1; }
	f->pos = b + o; return f->pos;
}
EXPORT off_t lseek64(int fd, off_t o, int w) noexcept { return lseek(fd, o, w); }
EXPORT int close(int fd){
	if(!S.active) return (int)raw(SYS_close, fd);
	Fd* f = fd_of(fd); if(!f) { if(fd < 3) return 0; errno = EBADF; return -1; }
	char path[PATH_CAP]; strcpy(path, shm->node[f->node].path);
	bool bad = inject(OP_CLOSE, path); int e = errno;
	f->used = false; event(E_CLOSE, fd, bad ? e : 0);
	if(bad){ errno = e; return -1; } return 0;
}
EXPORT int open(const char* p, int fl, ...){
	if(!S.active){ va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); long r = raw(SYS_open, (long)p, fl, m); if(r < 0){ errno = (int)-r; return -1; } return (int)r; }
	int acc_ = fl & O_ACCMODE;
	if(fl & O_DIRECTORY){ char norm[PATH_CAP]; int n = resolve(p, norm); if(n < 0) return -1; if(shm->node[n].type != N_DIR){ errno = ENOTDIR; return -1; } acc_ = O_RDONLY; fl = 0; }
	return do_open(p, acc_ != O_WRONLY, acc_ != O_RDONLY, fl & O_APPEND, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL);
}
EXPORT int open64(const char* p, int fl, ...){ return open(p, fl, 0644); }
// a path relative to an open directory
struct At { char b[PATH_CAP * 2]; const char* p; At(int d, const char* q) : p(q) { Fd* f = q && q[0] != '/' ? fd_of(d) : nullptr; if(f){ snprintf(b, sizeof b, "%s/%s", shm->node[f->node].path, q); p = b; } } };
EXPORT int openat(int d, const char* p, int fl, ...){ return open(At(d, p).p, fl, 0644); }
EXPORT int openat64(int d, const char* p, int fl, ...){ return open(At(d, p).p, fl, 0644); }
EXPORT int __openat_2(int d, const char* p, int fl){ return open(At(d, p).p, fl, 0644); }
EXPORT int __open_2(const char* p, int fl){ return open(p, fl, 0644); }
EXPORT int creat(const char* p, mode_t){ return open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
EXPORT int ioctl(int fd, unsigned long r, ...) noexcept {
	va_list ap; va_start(ap, r); void* a = va_arg(ap, void*); va_end(ap);
	if(r == FIONREAD){ Fd* f = fd_of(fd); if(f){ *(int*)a = 0; if(f->pos < (i64)shm->node[f->node].size) *(int*)a = (int)(shm->node[f->node].size - f->pos); return 0; } }
	errno = ENOTTY; return -1;
}
EXPORT int poll(struct pollfd* p, nfds_t n, int){ for(nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events & (POLLIN | POLLOUT); return (int)n; }
EXPORT int isatty(int fd) noexcept { if(fd == 0 && IN.stdin_tty) return 1; errno = ENOTTY; return 0; }
static void fill_stat(struct stat* st, int n){
	memset(st, 0, sizeof *st);
	Node& nd = shm->node[n]; st->st_dev = 1; st->st_ino = (ino_t)(n + 10); st->st_nlink = 1; st->st_size = nd.size; st->st_blksize = 4096;
	st->st_mode = (nd.type == N_DIR ? S_IFDIR | 0111 : S_IFREG) | (nd.mode & 1 ? 0444 : 0) | (nd.mode & 2 ? 0222 : 0);
}
static int do_stat(const char* p, struct stat* st){
	char norm[PATH_CAP]; int n = resolve(p, norm); int e = errno;
	if(inject(OP_STAT, norm)) return -1;
	if(n < 0){ errno = e; return -1; }
	fill_stat(st, n); return 0;
}
EXPORT int stat(const char* p, struct stat* st) noexcept { return do_stat(p, st); }
EXPORT int lstat(const char* p, struct stat* st) noexcept { return do_stat(p, st); }
EXPORT int stat64(const char* p, struct stat64* st) noexcept { return do_stat(p, (struct stat*)st); }
EXPORT int lstat64(const char* p, struct stat64* st) noexcept { return do_stat(p, (struct stat*)st); }
EXPORT int fstatat(int d, const char* p, struct stat* st, int) noexcept { return do_stat(At(d, p).p, st); }
EXPORT int fstat(int fd, struct stat* st) noexcept {
	Fd* f = fd_of(fd); if(f){ fill_stat(st, f->node); return 0; }
	if(fd >= 0 && fd < 3){ memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; }
	errno = EBADF; return -1;
}
EXPORT int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*)st); }
EXPORT int access(const char* p, int m) noexcept {
	char norm[PATH_CAP]; int n = resolve(p, norm); int e = errno; if(inject(OP_STAT, norm)) return -1;
	if(n < 0){ errno = e; return -1; } if((m & R_OK && !(shm->node[n].mode & 1)) || (m & W_OK && !(shm->node[n].mode & 2))){ errno = EACCES; return -1; } return 0;
}
EXPORT int mkdir(const char* p, mode_t) noexcept {
	char norm[PATH_CAP]; int n = resolve(p, norm); int e = errno;
	if(inject(OP_MKDIR, norm)) { event(E_FSOP, 1, -errno, norm, (u32)strlen(norm)); return -1; }
	int r = 0;
	if(n >= 0) r = EEXIST; else if(e != ENOENT || !norm[0]) r = e; else if(!parent_ok(norm)) r = errno; else if(new_node(norm, N_DIR) < 0) r = ENOSPC;
	event(E_FSOP, 1, -r, norm, (u32)strlen(norm));
	if(r){ errno = r; return -1; } return 0;
}
static int do_remove(const char* p, int what){ // 1 file, 2 dir, 3 either
	char norm[PATH_CAP]; int n = resolve(p, norm); int e = errno;
	if(inject(OP_REMOVE, norm)) { event(E_FSOP, 2, -errno, norm, (u32)strlen(norm)); return -1; }
	int r = 0;
	if(n < 0) r = e;
	else if(shm->node[n].type == N_DIR && !(what & 2)) r = EISDIR;
	else if(shm->node[n].type == N_FILE && !(what & 1)) r = ENOTDIR;
	else if(strcmp(norm, "/") == 0) r = EBUSY;
	else if([&]{ size_t l = strlen(p); while(l && p[l - 1] == '/') --l; return l && p[l - 1] == '.' && (l == 1 || p[l - 2] == '/'); }()) r = EINVAL;
	else if([&]{ size_t l = strlen(p); while(l && p[l - 1] == '/') --l; return l > 1 && p[l - 1] == '.' && p[l - 2] == '.' && (l == 2 || p[l - 3] == '/'); }()) r = ENOTEMPTY;
	else if(!parent_ok(norm)) r = errno;
	else{
		size_t l = strlen(norm);
		for(u32 i = 0; i < MAX_NODE; ++i) if(shm->node[i].type != N_FREE && strncmp(shm->node[i].path, norm, l) == 0 && shm->node[i].path[l] == '/') r = ENOTEMPTY;
		if(!r) shm->node[n].type = N_FREE;
	}
	event(E_FSOP, 2, -r, norm, (u32)strlen(norm));
	if(r){ errno = r; return -1; } return 0;
}
EXPORT int rmdir(const char* p) noexcept { return do_remove(p, 2); }
EXPORT int unlink(const char* p) noexcept { return do_remove(p, 1); }
EXPORT int remove(const char* p) noexcept { return do_remove(p, 3); }
EXPORT int unlinkat(int d, const char* p, int fl) noexcept { return do_remove(At(d, p).p, fl & AT_REMOVEDIR ? 2 : 1); }
EXPORT int rename(const char* a, const char* b) noexcept {
	char na[PATH_CAP], nb[PATH_CAP]; int n = resolve(a, na); if(n < 0) return -1; int m = resolve(b, nb);
	if(m >= 0 && shm->node[m].type == N_DIR){ errno = EISDIR; return -1; }
	event(E_FSOP, 3, 0, nb, (u32)strlen(nb));
	if(m >= 0 && m != n) shm->node[m].type = N_FREE;
	strcpy(shm->node[n].path, nb); return 0;
}
EXPORT int chdir(const char* p) noexcept {
	if(!S.active) return (int)raw(SYS_chdir, (long)p);
	char norm[PATH_CAP]; int n = resolve(p, norm); int e = errno;
	if(inject(OP_CHDIR, norm)) { event(E_FSOP, 4, -errno, norm, (u32)strlen(norm)); return -1; }
	int r = 0; if(n < 0) r = e; else if(shm->node[n].type != N_DIR) r = ENOTDIR; else if(!(shm->node[n].mode & 1)) r = EACCES;
	event(E_FSOP, 4, -r, norm, (u32)strlen(norm));
	if(r){ errno = r; return -1; }
	strcpy(cwd_, norm); strcpy(OUT.cwd, norm); return 0;
}
EXPORT char* getcwd(char* b, size_t n) noexcept {
	if(inject(OP_GETCWD, cwd_)) return nullptr;
	if(!b){ n = strlen(cwd_) + 1; b = (char*)malloc(n); }
	if(strlen(cwd_) + 1 > n){ errno = ERANGE; return nullptr; } strcpy(b, cwd_); return b;
}
EXPORT char* realpath(const char* p, char* out) noexcept {
	char norm[PATH_CAP]; int n = resolve(p, norm); int e = errno;
	if(inject(OP_REALPATH, norm)) return nullptr;
	if(n < 0){ errno = e; return nullptr; }
	if(!out) out = (char*)malloc(PATH_MAX);
	strcpy(out, norm); return out;
}
EXPORT ssize_t readlink(const char* p, char* b, size_t n) noexcept {
	if(strcmp(p, "/proc/self/exe") == 0){ const char* t = "/sim/bin/funge"; size_t l = strlen(t); if(l > n) l = n; memcpy(b, t, l); return (ssize_t)l; }
	char norm[PATH_CAP]; if(resolve(p, norm) < 0) return -1; errno = EINVAL; return -1;
}
struct FakeDir { bool used; int fd; u32 at; struct dirent e; };
static FakeDir dirs[8];
EXPORT DIR* fdopendir(int fd){
	Fd* f = fd_of(fd); if(!f){ errno = EBADF; return nullptr; } if(shm->node[f->node].type != N_DIR){ errno = ENOTDIR; return nullptr; }
	for(auto& d : dirs) if(!d.used){ d.used = true; d.fd = fd; d.at = 0; return (DIR*)&d; } errno = EMFILE; return nullptr;
}
EXPORT DIR* opendir(const char* p){ int fd = open(p, O_RDONLY | O_DIRECTORY); return fd < 0 ? nullptr : fdopendir(fd); }
EXPORT int dirfd(DIR* d) noexcept { return ((FakeDir*)d)->fd; }
EXPORT int closedir(DIR* d){ ((FakeDir*)d)->used = false; return close(((FakeDir*)d)->fd); }
EXPORT void rewinddir(DIR* d) noexcept { ((FakeDir*)d)->at = 0; }
EXPORT struct dirent* readdir(DIR* dd){
	FakeDir* d = (FakeDir*)dd; Fd* f = fd_of(d->fd); if(!f) return nullptr; const char* base = shm->node[f->node].path; size_t l = strlen(base); if(l == 1) l = 0;
	for(; d->at < MAX_NODE; ++d->at){
		Node& n = shm->node[d->at]; if(n.type == N_FREE || strncmp(n.path, base, l) || n.path[l] != '/' || !n.path[l + 1] || strchr(n.path + l + 1, '/')) continue;
		memset(&d->e, 0, sizeof d->e); d->e.d_ino = d->at + 10; d->e.d_type = n.type == N_DIR ? DT_DIR : DT_REG; snprintf(d->e.d_name, sizeof d->e.d_name, "%s", n.path + l + 1); ++d->at; return &d->e;
	}
	return nullptr;
}
EXPORT struct dirent64* readdir64(DIR* d){ return (struct dirent64*)readdir(d); }
EXPORT int truncate(const char* p, off_t l) noexcept { char norm[PATH_CAP]; int n = resolve(p, norm); if(n < 0) return -1; if(l < NODE_CAP){ if((u32)l > shm->node[n].size) memset(shm->node[n].data + shm->node[n].size, 0, (u32)l - shm->node[n].size); shm->node[n].size = (u32)l; } return 0; }
EXPORT int ftruncate(int fd, off_t l) noexcept { Fd* f = fd_of(fd); if(!f){ errno = EBADF; return -1; } if(l < NODE_CAP) shm->node[f->node].size = (u32)l; return 0; }
EXPORT int chmod(const char*, mode_t) noexcept { errno = EPERM; return -1; }
EXPORT int link(const char*, const char*) noexcept { errno = EPERM; return -1; }
EXPORT int symlink(const char*, const char*) noexcept { errno = EPERM; return -1; }
EXPORT int fsync(int){ return 0; }
EXPORT int fdatasync(int){ return 0; }
EXPORT int dup(int) noexcept { errno = EMFILE; return -1; }
EXPORT int pipe(int*) noexcept { errno = EMFILE; return -1; }

// ---------------------------------------------------------------- stdin
// Number of bytes that have arrived by virtual time t; *next: time of the next arrival or ~0.
static u64 arrived(u64 t, u64* next){
	u64 n = 0; *next = ~0ull;
	for(u32 i = 0; i < IN.nchunk; ++i){
		if(IN.chunk[i].at <= t) n += IN.chunk[i].len; else { *next = IN.chunk[i].at; return n; }
	}
	return n;
}
// -1: end of input; -2: error
static int stdin_getc(bool){
	if(!S.active) return -1;
	sync_point();
	while(S.stdin_owner && S.stdin_owner != S.cur) block(T_MUTEX, &S.stdin_owner);
	if(S.pushback >= 0){ int c = S.pushback; S.pushback = -1; event(E_STDIN, c, 1); return c; }
	const Fault* f = fault_for(OP_STDIN, nullptr, (i64)S.stdin_pos);
	if(S.stdin_eof) { event(E_STDIN, -1, 0); return -1; }
	if(f && (f->kind == F_ERR || (f->kind == F_ERR_AT && (i64)S.stdin_pos >= f->off))){ fired(f); errno = f->val; event(E_STDIN, -2, 0); return -2; }
	for(;;){
		u64 next; u64 have = arrived(now(), &next);
		if(S.stdin_pos < have){
			int c = IN.stdin_data[S.stdin_pos++]; event(E_STDIN, c, 0);
			return c;
		}
		if(next == ~0ull && !IN.stdin_never_ends){ S.stdin_eof = true; event(E_STDIN, -1, 0); return -1; }
		S.stdin_owner = S.cur; OUT.stdin_waits++;
		event(E_STDINWAIT, (i64)S.stdin_pos, next == ~0ull);
		block(T_STDIN, &S.stdin_pos, next);
		if(!S.stdin_depth){ S.stdin_owner = nullptr; wake_all(T_MUTEX, &S.stdin_owner); }
	}
}

// ---------------------------------------------------------------- stdio
static FakeFile* fake(FILE* f){ u64 d = (u64)f - (u64)files; if(d < sizeof files && d % sizeof(FakeFile) == 0) return (FakeFile*)f; return nullptr; }
static int std_fd(FILE* f){ if(f == stdin) return 0; if(f == stdout) return 1; if(f == stderr) return 2; return -1; }
static void fresh_file(FakeFile* f, int fd){ f->used = 1; f->fd = fd; f->unget = -1; f->err = f->eof = false; f->nbuf = 0; }
static bool flush_file(FakeFile* k){
	u32 d = 0; while(d < k->nbuf){ ssize_t r = do_write(k->fd, k->buf + d, k->nbuf - d); if(r < 0){ if(errno == EINTR) continue; k->err = true; k->nbuf = 0; return false; } d += (u32)r; }
	k->nbuf = 0; return true;
}
// the streams' own locks
EXPORT void flockfile(FILE* f) noexcept {
	int n = std_fd(f); if(!S.active || n < 0) return;
	Thr*& o = n ? S.out_owner[n] : S.stdin_owner; u32& d = n ? S.out_depth[n] : S.stdin_depth;
	sync_point(); while(o && o != S.cur) block(T_MUTEX, &o);
	o = S.cur; ++d;
}
EXPORT int ftrylockfile(FILE* f) noexcept {
	int n = std_fd(f); if(!S.active || n < 0) return 0;
	Thr*& o = n ? S.out_owner[n] : S.stdin_owner; u32& d = n ? S.out_depth[n] : S.stdin_depth;
	sync_point(); if(o && o != S.cur) return 1;
	o = S.cur; ++d; return 0;
}
EXPORT void funlockfile(FILE* f) noexcept {
	int n = std_fd(f); if(!S.active || n < 0) return;
	Thr*& o = n ? S.out_owner[n] : S.stdin_owner; u32& d = n ? S.out_depth[n] : S.stdin_depth;
	if(o == S.cur && d && !--d){ o = nullptr; wake_all(T_MUTEX, &o); sync_point(); }
}
struct StreamLock { FILE* f; explicit StreamLock(FILE* g) : f(g == stdin ? g : nullptr) { if(f) flockfile(f); } ~StreamLock(){ if(f) funlockfile(f); } };
EXPORT FILE* fopen(const char* p, const char* m){
	if(!S.active) return nullptr;
	bool plus = strchr(m, '+'), rd = m[0] == 'r' || plus, wr = m[0] != 'r' || plus;
	int fd = do_open(p, rd, wr, m[0] == 'a', m[0] != 'r', m[0] == 'w', strchr(m, 'x') != nullptr);
	if(fd < 0) return nullptr;
	FakeFile* f = &files[fd - FDBASE]; fresh_file(f, fd);
	return (FILE*)f;
}
EXPORT FILE* fopen64(const char* p, const char* m){ return fopen(p, m); }
EXPORT FILE* fdopen(int fd, const char*) noexcept { Fd* d = fd_of(fd); if(!d) return nullptr; FakeFile* f = &files[fd - FDBASE]; fresh_file(f, fd); return (FILE*)f; }
EXPORT int fclose(FILE* f){ FakeFile* k = fake(f); if(k){ bool ok = flush_file(k); k->used = 0; return close(k->fd) || !ok ? EOF : 0; } return 0; }
EXPORT int fileno(FILE* f) noexcept { FakeFile* k = fake(f); return k ? k->fd : std_fd(f); }
EXPORT int fflush(FILE* f){ if(!f){ for(auto& k : files) if(k.used) flush_file(&k); return 0; } FakeFile* k = fake(f); return k && !flush_file(k) ? EOF : 0; }
EXPORT int setvbuf(FILE*, char*, int, size_t) noexcept { return 0; }
EXPORT void setbuf(FILE*, char*) noexcept {}
EXPORT int fgetc(FILE* f){
	FakeFile* k = fake(f);
	if(k){ if(k->unget >= 0){ int c = k->unget; k->unget = -1; return c; } if(k->nbuf) flush_file(k); u8 c; ssize_t r; do r = read(k->fd, &c, 1); while(r < 0 && errno == EINTR); if(r == 1) return c; if(r == 0) k->eof = true; else k->err = true; return EOF; }
	if(f == stdin){ int c = stdin_getc(); return c < 0 ? EOF : c; }
	return EOF;
}
EXPORT int getc(FILE* f){ return fgetc(f); }
EXPORT int _IO_getc(FILE* f){ return fgetc(f); }
EXPORT int getc_unlocked(FILE* f){ return fgetc(f); }
EXPORT int getchar(){ return fgetc(stdin); }
EXPORT int getchar_unlocked(){ return fgetc(stdin); }
EXPORT int ungetc(int c, FILE* f){
	if(c == EOF) return EOF;
	FakeFile* k = fake(f);
	if(k){ k->unget = c & 255; return c & 255; }
	if(f == stdin){ S.pushback = c & 255; if(S.active) event(E_STDIN, c, 2); return c & 255; }
	return EOF;
}
EXPORT size_t fread(void* b, size_t s, size_t n, FILE* f){
	if(!s || !n) return 0;
	StreamLock lk(f);
	size_t t = s * n, i = 0; for(; i < t; ++i){ int c = fgetc(f); if(c == EOF) break; ((u8*)b)[i] = (u8)c; }
	return i / s;
}
EXPORT char* fgets(char* b, int n, FILE* f){ StreamLock lk(f); int i = 0; while(i < n - 1){ int c = fgetc(f); if(c == EOF) break; b[i++] = (char)c; if(c == '\n') break; } if(!i) return nullptr; b[i] = 0; return b; }
EXPORT ssize_t getdelim(char** b, size_t* cap, int delim, FILE* f){
	StreamLock lk(f); size_t n = 0;
	for(;;){
		int c = fgetc(f); if(c == EOF){ if(!n) return -1; break; }
		if(!*b || n + 2 > *cap){ size_t m = n < 60 ? 120 : 2 * n; char* x = (char*)realloc(*b, m); if(!x) return -1; *b = x; *cap = m; }
		(*b)[n++] = (char)c; if(c == delim) break;
	}
	(*b)[n] = 0; return (ssize_t)n;
}
EXPORT ssize_t __getdelim(char** b, size_t* cap, int delim, FILE* f){ return getdelim(b, cap, delim, f); }
EXPORT ssize_t getline(char** b, size_t* cap, FILE* f){ return getdelim(b, cap, '\n', f); }
EXPORT int feof(FILE* f) noexcept { FakeFile* k = fake(f); if(k) return k->eof; return f == stdin && S.stdin_eof; }
EXPORT int ferror(FILE* f) noexcept { FakeFile* k = fake(f); return k ? k->err : 0; }
EXPORT void clearerr(FILE* f) noexcept { FakeFile* k = fake(f); if(k) k->eof = k->err = false; if(f == stdin) S.stdin_eof = false; }
static size_t out_bytes(FILE* f, const void* p, size_t n){
	FakeFile* k = fake(f);
	if(k){ for(size_t d = 0; d < n; ++d){ if(k->nbuf == sizeof k->buf && !flush_file(k)) return d; k->buf[k->nbuf++] = ((const u8*)p)[d]; } return n; }
	int s = std_fd(f); if(s == 1 || s == 2){ while(S.active && S.out_owner[s] && S.out_owner[s] != S.cur) block(T_MUTEX, &S.out_owner[s]); if(S.active) do_stdout(s, p, n); return n; }
	return 0;
}
EXPORT size_t fwrite(const void* p, size_t s, size_t n, FILE* f){ if(!s || !n) return 0; return out_bytes(f, p, s * n) / s; }
EXPORT size_t fwrite_unlocked(const void* p, size_t s, size_t n, FILE* f){ return fwrite(p, s, n, f); }
EXPORT int fputc(int c, FILE* f){ u8 b = (u8)c; return out_bytes(f, &b, 1) == 1 ? b : EOF; }
EXPORT int putc(int c, FILE* f){ return fputc(c, f); }
EXPORT int putc_unlocked(int c, FILE* f){ return fputc(c, f); }
EXPORT int _IO_putc(int c, FILE* f){ return fputc(c, f); }
EXPORT int putchar(int c){ return fputc(c, stdout); }
EXPORT int putchar_unlocked(int c){ return fputc(c, stdout); }
EXPORT int fputs(const char* s, FILE* f){ size_t n = strlen(s); return out_bytes(f, s, n) == n ? 0 : EOF; }
EXPORT int puts(const char* s){ fputs(s, stdout); return fputc('\n', stdout); }
static int vout(FILE* f, const char* fmt, va_list ap){ char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); if(n > (int)sizeof b - 1) n = sizeof b - 1; if(n > 0) out_bytes(f, b, (size_t)n); return n; }
// formatted input: libc's own scanner on a stream that passes the simulated one through byte by byte
struct ScanSrc { FILE* f; bool stop; };
static ssize_t scan_read(void* c, char* b, size_t n){ ScanSrc* s = (ScanSrc*)c; if(s->stop || !n) return 0; int x = fgetc(s->f); if(x == EOF) return 0; *b = (char)x; return 1; }
static int vin(FILE* f, const char* fmt, va_list ap){
	static auto scan = (int(*)(FILE*, const char*, va_list))dlsym(RTLD_NEXT, "__isoc99_vfscanf");
	static auto one = (int(*)(FILE*))dlsym(RTLD_NEXT, "fgetc");
	static auto shut = (int(*)(FILE*))dlsym(RTLD_NEXT, "fclose");
	static auto nobuf = (int(*)(FILE*, char*, int, size_t))dlsym(RTLD_NEXT, "setvbuf");
	StreamLock lk(f);
	ScanSrc src{f, false}; cookie_io_functions_t io{scan_read, nullptr, nullptr, nullptr};
	FILE* c = fopencookie(&src, "r", io); if(!c) return EOF;
	nobuf(c, nullptr, _IONBF, 0);
	int n = scan(c, fmt, ap), e = errno; src.stop = true;
	int x = one(c); if(x != EOF) ungetc(x, f);
	shut(c); errno = e; return n;
}
#define SCAN(pre) \
EXPORT int pre##vfscanf(FILE* f, const char* fmt, va_list ap){ return vin(f, fmt, ap); } \
EXPORT int pre##vscanf(const char* fmt, va_list ap){ return vin(stdin, fmt, ap); } \
EXPORT int pre##fscanf(FILE* f, const char* fmt, ...){ va_list ap; va_start(ap, fmt); int n = vin(f, fmt, ap); va_end(ap); return n; } \
EXPORT int pre##scanf(const char* fmt, ...){ va_list ap; va_start(ap, fmt); int n = vin(stdin, fmt, ap); va_end(ap); return n; }
#undef scanf
#undef fscanf
#undef vscanf
#undef vfscanf
SCAN(__isoc99_) SCAN(__isoc23_)
EXPORT int vfprintf(FILE* f, const char* fmt, va_list ap){ return vout(f, fmt, ap); }
EXPORT int vprintf(const char* fmt, va_list ap){ return vout(stdout, fmt, ap); }
EXPORT int printf(const char* fmt, ...){ va_list ap; va_start(ap, fmt); int n = vout(stdout, fmt, ap); va_end(ap); return n; }
EXPORT int fprintf(FILE* f, const char* fmt, ...){ va_list ap; va_start(ap, fmt); int n = vout(f, fmt, ap); va_end(ap); return n; }
EXPORT int __printf_chk(int, const char* fmt, ...){ va_list ap; va_start(ap, fmt); int n = vout(stdout, fmt, ap); va_end(ap); return n; }
EXPORT int __fprintf_chk(FILE* f, int, const char* fmt, ...){ va_list ap; va_start(ap, fmt); int n = vout(f, fmt, ap); va_end(ap); return n; }
EXPORT void perror(const char* s){ fputs(s, stderr); fputs(": error\n", stderr); }
EXPORT int fseek(FILE* f, long o, int w){ FakeFile* k = fake(f); if(!k) return -1; k->unget = -1; flush_file(k); return lseek(k->fd, o, w) < 0 ? -1 : 0; }
EXPORT long ftell(FILE* f){ FakeFile* k = fake(f); if(!k) return -1; flush_file(k); return lseek(k->fd, 0, SEEK_CUR); }
EXPORT void rewind(FILE* f){ fseek(f, 0, SEEK_SET); }
EXPORT int fseeko64(FILE* f, off64_t o, int w){ return fseek(f, o, w); }
EXPORT off64_t ftello64(FILE* f){ return ftell(f); }

// ---------------------------------------------------------------- terminal, commands
EXPORT int tcgetattr(int fd, struct termios* t) noexcept {
	if(inject(OP_TCGET, nullptr)) return -1;
	if(fd != 0 || !IN.stdin_tty){ errno = ENOTTY; return -1; }
	memset(t, 0, sizeof *t); t->c_lflag = OUT.term_lflag; t->c_iflag = ICRNL; t->c_oflag = OPOST; t->c_cflag = CS8; t->c_cc[VMIN] = 1;
	return 0;
}
static void typed_ahead_lost(){ u64 next, have = arrived(now(), &next); if(S.stdin_pos < have) S.stdin_pos = have; }
EXPORT int tcsetattr(int fd, int act, const struct termios* t) noexcept {
	if(inject(OP_TCSET, nullptr)) return -1;
	if(fd != 0 || !IN.stdin_tty){ errno = ENOTTY; return -1; }
	bool odd = t->c_iflag != ICRNL || t->c_oflag != OPOST || t->c_cflag != CS8 || t->c_cc[VMIN] != 1 || t->c_cc[VTIME] != 0;
	OUT.term_lflag = t->c_lflag; OUT.term_sets++; event(E_TERM, t->c_lflag, odd ? -1 : act);
	if(act == TCSAFLUSH) typed_ahead_lost();
	return 0;
}
EXPORT int tcflush(int fd, int q) noexcept { if(fd != 0 || !IN.stdin_tty){ errno = ENOTTY; return -1; } if(q != TCOFLUSH) typed_ahead_lost(); return 0; }
EXPORT int system(const char* cmd){
	if(!cmd) return 1;
	sync_point();
	const Fault* f = fault_for(OP_SYSTEM, nullptr);
	u32 i = S.sysn++;
	event(E_SYSTEM, i, 0, cmd, (u32)strlen(cmd));
	if(f && f->kind == F_ERR){ fired(f); errno = f->val; event(E_SYSDONE, i, -1); return -1; }
	SysRes r = IN.nsys ? IN.sys[i % IN.nsys] : SysRes{0, 0, 0};
	if(r.latency){ u64 e = now() + r.latency; while(now() < e) block(T_SLEEP, S.cur, e); }
	event(E_SYSDONE, i, r.status);
	sync_point();
	return r.status;
}
static int no_exec(const char* p){ event(E_SYSTEM, -1, 1, p ? p : "", p ? (u32)strlen(p) : 0); errno = EPERM; return -1; }
EXPORT FILE* popen(const char* c, const char*){ no_exec(c); return nullptr; }
EXPORT int pclose(FILE*){ return -1; }
EXPORT int execve(const char* p, char* const*, char* const*) noexcept { return no_exec(p); }
EXPORT int execv(const char* p, char* const*) noexcept { return no_exec(p); }
EXPORT int execvp(const char* p, char* const*) noexcept { return no_exec(p); }
EXPORT int execl(const char* p, const char*, ...) noexcept { return no_exec(p); }
EXPORT int execlp(const char* p, const char*, ...) noexcept { return no_exec(p); }
// a child started and waited for is the same as system()
static struct Child { u32 i; u64 end; bool used; } children[64];
static int start_child(pid_t* pid, const char* p, char* const* argv){
	if(!S.active) return EPERM;
	char cmd[8192]; size_t n = 0; cmd[0] = 0;
	bool shell = argv && argv[0] && argv[1] && !strcmp(argv[1], "-c") && argv[2];
	if(shell) n = (size_t)snprintf(cmd, sizeof cmd, "%s", argv[2]);
	else for(u32 k = 0; argv && argv[k] && n < sizeof cmd; ++k) n += (size_t)snprintf(cmd + n, sizeof cmd - n, k ? " %s" : "%s", k ? argv[k] : p);
	sync_point();
	const Fault* f = fault_for(OP_SYSTEM, nullptr); u32 i = S.sysn++;
	event(E_SYSTEM, i, 0, cmd, (u32)strlen(cmd));
	if(f && f->kind == F_ERR){ fired(f); event(E_SYSDONE, i, -1); return f->val; }
	SysRes r = IN.nsys ? IN.sys[i % IN.nsys] : SysRes{0, 0, 0};
	for(u32 k = 0; k < 64; ++k) if(!children[k].used){ children[k] = {i, now() + r.latency, true}; if(pid) *pid = (pid_t)(20000 + k); return 0; }
	return EAGAIN;
}
EXPORT int posix_spawn(pid_t* pid, const char* p, const void*, const void*, char* const* argv, char* const*){ return start_child(pid, p, argv); }
EXPORT int posix_spawnp(pid_t* pid, const char* p, const void*, const void*, char* const* argv, char* const*){ return start_child(pid, p, argv); }
EXPORT pid_t waitpid(pid_t pid, int* st, int opt){
	if(!S.active || pid < 20000 || pid >= 20064 || !children[pid - 20000].used){ errno = ECHILD; return -1; }
	Child& c = children[pid - 20000]; sync_point();
	if(now() < c.end && (opt & 1)) return 0;
	while(now() < c.end) block(T_SLEEP, S.cur, c.end);
	SysRes r = IN.nsys ? IN.sys[c.i % IN.nsys] : SysRes{0, 0, 0};
	c.used = false; if(st) *st = r.status;
	event(E_SYSDONE, c.i, r.status); sync_point(); return pid;
}
EXPORT pid_t wait4(pid_t pid, int* st, int opt, struct rusage*) noexcept { return waitpid(pid, st, opt); }
EXPORT pid_t vfork() noexcept { no_exec("vfork"); return -1; }
EXPORT pid_t fork() noexcept { if(S.active){ no_exec("fork"); return -1; } return -1; }
EXPORT int kill(pid_t, int) noexcept { errno = EPERM; return -1; }

// ---------------------------------------------------------------- start and end
__attribute__((weak)) int funge_main_cpp(int, char**, char**);
__attribute__((weak)) int funge_main_cpp(int, char**);
__attribute__((weak)) int funge_main_cpp();
extern "C" char** environ;

static void on_signal(int sig, siginfo_t* si, void* uc){
	ucontext_t* u = (ucontext_t*)uc;
	char buf[200];
	if(S.ended) rawexit(5);
	bprintf(buf, sizeof buf, "signal %d at address 0x%llx in T%u", sig, (unsigned long long)(sig == SIGABRT ? 0 : (u64)si->si_addr), S.cur ? S.cur->id : 0);
	OUT.signal = sig;
	grab_bt((void**)u->uc_mcontext.gregs[REG_RBP], (void*)u->uc_mcontext.gregs[REG_RIP]);
	finish(sig == SIGABRT ? O_ABORT : O_CRASH, 128 + sig, buf);
}
// std::terminate ends in abort(); keep the call chain that led there
EXPORT void abort() noexcept {
	if(S.active && !S.ended){
		OUT.signal = SIGABRT;
		grab_bt((void**)__builtin_frame_address(0), nullptr);
		char buf[200]; bprintf(buf, sizeof buf, "abort in T%u", S.cur ? S.cur->id : 0);
		finish(O_ABORT, 134, buf);
	}
	rawexit(6);
}
static int exit_code_;
static bool exiting;
static void last_handler(){
	if(!S.active || S.ended) return;
	u32 live = 0; for(u32 i = 0; i < S.nthr; ++i) if(&S.thr[i] != S.cur && S.thr[i].state != T_DONE) ++live;
	OUT.live_at_main_end = live;
	event(E_EXIT, exit_code_, live);
	finish(O_EXIT, exit_code_, nullptr);
}
typedef void (*exit_t)(int);
EXPORT void exit(int c){
	static exit_t real = (exit_t)dlsym(RTLD_NEXT, "exit");
	if(S.active && !exiting){ exiting = true; exit_code_ = c & 255; }
	real(c);
	for(;;);
}
EXPORT void _exit(int c){ if(S.active && !S.ended){ exit_code_ = c & 255; OUT.live_at_main_end = 0; event(E_EXIT, c & 255, -1); finish(O_EXIT, c & 255, "_exit"); } rawexit(c); }
EXPORT void _Exit(int c) noexcept { _exit(c); }
EXPORT void quick_exit(int c) noexcept { _exit(c); }

__attribute__((constructor(101))) static void early(){ atexit(last_handler); }

static void child(){
	u32 argc = IN.argc; char* argv[MAX_ARG + 1]; char* envp[MAX_ARG + 1];
	for(u32 i = 0; i < argc; ++i) argv[i] = IN.strs + IN.argoff[i];
	argv[argc] = nullptr;
	for(u32 i = 0; i < IN.envc; ++i) envp[i] = IN.strs + IN.envoff[i];
	envp[IN.envc] = nullptr;
	memcpy(cwd_, IN.cwd, PATH_CAP); memcpy(OUT.cwd, IN.cwd, PATH_CAP);
	OUT.term_lflag = IN.term_lflag;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP };
	for(int s : sigs) sigaction(s, &sa, nullptr);
	arm_altstack();
	S.rng_sched = mix(IN.seed ^ 0x5ced);
	S.pushback = -1; S.nthr = 1; Thr* t = &S.thr[0]; t->id = 0; t->state = T_RUN; t->wake_at = ~0ull; t->handle = pthread_self();
	t->prio = (rnd(S.rng_sched) >> 16) + 1000; t->left_at = S.points;
	t->nextdec = nextdec_from(0, 0);
	S.cur = t; S.next_mem = IN.mem_mean ? geo(S.rng_sched, IN.mem_mean) : ~0ull;
	S.next_pct = IN.pct && IN.pct_changes ? 1 + rnd(S.rng_sched) % (IN.pct_len * 2 / (IN.pct_changes + 1) + 1) : ~0ull;
	S.active = true;
	set_next_check();
	typedef int (*m3)(int, char**, char**); typedef int (*m2)(int, char**); typedef int (*m0)();
	m3 f3 = funge_main_cpp; m2 f2 = funge_main_cpp; m0 f0 = funge_main_cpp;
	int r = f3 ? f3((int)argc, argv, envp) : f2 ? f2((int)argc, argv) : f0();
	event(E_MAINEND, r, 0);
	exit(r);
}

int main(int argc, char** argv){
	if(argc < 4){ dprintf(2, "usage: sim SHMFD CMDFD REPFD\n"); return 2; }
	int per = personality(0xffffffff);
	if(!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")){
		if(personality((unsigned long)(per | ADDR_NO_RANDOMIZE)) >= 0){ setenv("SIM_REEXEC", "1", 1); raw(SYS_execve, (long)"/proc/self/exe", (long)argv, (long)environ); }
	}
	if(!aready) ainit();
	setenv("TZ", "UTC0", 1); tzset();
	real_create = (pcreate_t)dlsym(RTLD_NEXT, "pthread_create");
	int shmfd = atoi(argv[1]), cmd = atoi(argv[2]), rep = atoi(argv[3]);
	void* m = mmap((void*)SHM_ADDR, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, shmfd, 0);
	if(m == MAP_FAILED){ dprintf(2, "cannot map shared memory\n"); return 2; }
	// nothing the interpreter may do by accident reaches real files
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_FSIZE, &rl); setrlimit(RLIMIT_CORE, &rl);
	signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
	if(getuid() == 0){ raw(SYS_setgroups, 0, 0); raw(SYS_setgid, 65534); raw(SYS_setuid, 65534); }
	{ time_t z = 0; struct tm tmb; localtime_r(&z, &tmb); }
	for(;;){
		char c; long r = raw(SYS_read, cmd, (long)&c, 1);
		if(r != 1) rawexit(0);
		long pid = raw(SYS_clone, SIGCHLD, 0, 0, 0);
		if(pid == 0){
			raw(SYS_prctl, 1 /*PR_SET_PDEATHSIG*/, SIGKILL);
			child(); rawexit(8);
		}
		int p32 = (int)pid; raw(SYS_write, rep, (long)&p32, 4);
		int status = 0; while(raw(SYS_wait4, pid, (long)&status, 0, 0) == -EINTR){}
		raw(SYS_write, rep, (long)&status, 4);
	}
}
