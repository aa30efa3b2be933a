// Fibers, seeded scheduler, memory-access hooks, process images, run loop.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <new>
#include <cxxabi.h>

Fiber* cur; Fiber fibs[MAXFIB]; int nfibs; Image imgs[MAXIMG]; int nimgs; Proc procs[MAXPROC]; int nprocs;
RunStats rs; Program* P; Rng krng; static Rng srng, drng; bool g_trace, g_drain, g_tracemem; u64 g_totsteps;
std::vector<u8> g_pairmap(1u << 20); std::vector<std::pair<int,int>> g_last_segs;
static void* sched_sp; static i64 g_quantum, g_q0; static u64 g_base; static bool g_record; static u64 g_hash;
static bool g_over; static Outcome g_out; static int g_usedfib;
int space_memfd[MAXSPACE];
struct Slot { bool used; u64 len; u64 mask; u64 fsize_limit; int ofd; };
Slot slots[MAXSPACE][NSLOT];
u64 space_size[MAXSPACE], space_hw[MAXSPACE];     // logical size / high water of bytes ever used

u64 now_ns() { return g_base + (u64)(g_q0 - g_quantum) * STEP_NS; }
void clock_add(u64 ns) { g_base += ns; if(cur) cur->owntime += ns; }

//---------------------------------------------------------------- context switch
extern "C" void swctx(void** save, void* to);
asm(".text\n.globl swctx\nswctx:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void switch_out() { Fiber* f = cur; swctx(&f->sp, sched_sp); }

[[noreturn]] void fiber_gone() { cur->st = FS_DONE; switch_out(); abort(); }   // the process of this fiber is no more
struct ThreadExit { void* ret; };
void thread_exit(void* ret) { cur->kern = 0; cur->exiting = true; throw ThreadExit{ret}; }

static void fiber_main()
{
	Fiber* f = cur;
	void* r = nullptr;
	try { r = f->start(f->arg); } catch(ThreadExit& t) { r = t.ret; }
	f = cur; f->inlib = false; f->kern = 0; f->ret = r;
	extern void thread_finished(Fiber*);
	thread_finished(f);
	f->st = FS_DONE;
	switch_out();
	abort();
}
extern "C" void fiber_entry() { fiber_main(); abort(); }

Fiber* fiber_new(Proc* p, void* (*fn)(void*), void* arg)
{
	if(nfibs >= MAXFIB) return nullptr;
	Fiber* f = &fibs[nfibs];
	memset((void*)f, 0, sizeof(*f));
	f->idx = nfibs++; f->proc = p; f->start = fn; f->arg = arg; f->st = FS_RUN; f->appthr = -1;
	f->stk = (char*)(STBASE + (u64)f->idx * STSZ);
	f->kill_at = f->stall_at = ~0ull;
	memset(f->stk + STSZ - 49152, 0xA5, 49152);
	u64* sp = (u64*)(f->stk + STSZ - 64);
	*--sp = 0;
	*--sp = (u64)&fiber_entry;
	for(int i = 0; i < 6; i++) *--sp = 0;
	f->sp = sp;
	f->prio = srng.next();
	f->uid = f->idx;
	rs.threads++;
	return f;
}

//---------------------------------------------------------------- steps
static inline void step_pt()
{
	if(__builtin_expect(g_quantum <= 0, 0)) switch_out();
	g_quantum--; cur->steps++;
}
void step_yield() { step_pt(); }
void quantum_end_hint()
{
	bool end = g_drain;
	if(!g_drain && g_record) { end = srng.chance(3, 4); if(P->pol == 1 && end) cur->prio = srng.next() >> (srng.chance(1, 4) ? 20 : 1); }
	if(end) { g_q0 -= g_quantum; g_quantum = 0; }
}
// In replay the recorded segment lengths already contain the effect of the hint.
void fail(const char* cls, const char* fmt, ...)
{
	if(!g_over) {
		char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); const char* kid = nullptr;
		g_over = true; if(harness_known(cls, &kid)) g_out.known = std::string(kid) + " " + cls + ": " + b; else { g_out.violated = true; g_out.cls = cls; g_out.msg = b; }
		if(g_trace) printf("VIOL %s: %s\n", cls, b);
	}
	if(cur) { switch_out(); abort(); }
}
void note_known(const char* cls, const char* fmt, ...)
{
	if(!g_over) {
		char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		g_over = true; g_out.violated = false; g_out.known = std::string(cls) + " " + b;
		if(g_trace) printf("KNOWN %s: %s\n", cls, b);
	}
	if(cur) { switch_out(); abort(); }
}
void tracef(const char* fmt, ...)
{
	if(!g_trace) return;
	va_list ap; va_start(ap, fmt);
	printf("%8llu %12llu ", (unsigned long long)(g_totsteps + (g_q0 - g_quantum)), (unsigned long long)now_ns());
	if(cur) printf("p%d.t%d[f%d] ", cur->proc->idx, cur->appthr, cur->idx);
	vprintf(fmt, ap); va_end(ap); printf("\n");
}
void hash_event(u64 v) { g_hash = hmix(g_hash, v); }
void block_until(bool (*pred)(Fiber*)) { Fiber* f = cur; f->wake = 0; if(f->appthr < 0) f->opwseq = 0; f->pred = pred; f->timedout = false; if(pred(f)) return; f->st = FS_BLOCK; switch_out(); }
bool block_until_timeout(bool (*pred)(Fiber*), u64 ns)
{
	Fiber* f = cur; f->timedout = false; if(f->appthr < 0) f->opwseq = 0; f->pred = pred; if(pred(f)) return true;
	f->wake = now_ns() + ns; f->st = FS_BLOCK; switch_out(); return !f->timedout;
}
void sleep_ns(u64 ns) { Fiber* f = cur; f->wake = now_ns() + ns; f->pred = nullptr; f->st = FS_SLEEP; switch_out(); }

//---------------------------------------------------------------- memory hooks
static const char* shared_bad(u64 a, unsigned n)
{
	u64 o = a - SHBASE; u64 si = o / SLOTSZ; Slot& s = slots[si / NSLOT][si % NSLOT]; u64 off = o % SLOTSZ;
	if(!s.used || !(s.mask >> cur->proc->idx & 1)) return "SIGSEGV: access to shared memory that is not mapped in this process";
	if(off + n > ((s.len + 4095) & ~4095ull)) return "SIGSEGV: access beyond the end of the mapping";
	if(off + n > ((space_size[si / NSLOT] + 4095) & ~4095ull)) return "SIGBUS: access to the mapping beyond the end of the file";
	return nullptr;
}
static __attribute__((noinline)) void wild(const char* what, u64 a)
{
	harness_wild(what, a);
}
static inline __attribute__((always_inline)) bool chk(u64 a, unsigned n, bool w, void* pc)
{
	Fiber* f = cur;
	if(!f || f->kern) return false;
	if(a - (u64)f->stk < STSZ) return false;
	Image* im = f->proc->img;
	if(a - SHBASE < SHSIZE) {
		f->lastpc = pc; step_pt();
		if(const char* e = shared_bad(a, n)) wild(e, a);
		if(w) { f->lw_addr = a; f->lw_kind = n; f->wseq++; f->opwseq++; f->wr_hist[f->wseq & 3] = a; }
		return true;
	}
	if(a - (u64)im->rw < im->rwlen || a - (u64)im->arena < ARSZ || a - STBASE < STSZ * MAXFIB) { f->lastpc = pc; step_pt(); return true; }
	if(a < 65536) { f->lastpc = pc; wild("SIGSEGV: access through a null or tiny pointer", a); }
	if(w && f->inlib) {
		for(int i = 0; i < nimgs; i++) if(a - (u64)imgs[i].rw < imgs[i].rwlen || a - (u64)imgs[i].arena < ARSZ) wild("access to the memory of another process image", a);
	}
	return false;
}
#define PC __builtin_return_address(0)
extern "C" {
#define RW(n) void __tsan_read##n(void* a) { chk((u64)a, n, false, PC); } void __tsan_write##n(void* a) { chk((u64)a, n, true, PC); } \
	void __tsan_unaligned_read##n(void* a) { chk((u64)a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { chk((u64)a, n, true, PC); } \
	void __tsan_volatile_read##n(void* a) { chk((u64)a, n, false, PC); } void __tsan_volatile_write##n(void* a) { chk((u64)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if(n) chk((u64)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { if(n) chk((u64)a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { chk((u64)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { chk((u64)a, 8, false, PC); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_init() {}
void __tsan_atomic_thread_fence(int) { } void __tsan_atomic_signal_fence(int) { }
static inline void atm(u64 a, unsigned n, void* pc) { chk(a, n, false, pc); }
static __attribute__((noinline)) void trace_w(u64 a, unsigned n, void* pc)
{
	Dl_info di; const char* nm = "?"; if(dladdr(pc, &di) && di.dli_sname) nm = di.dli_sname;
	u64 v = n == 8 ? *(u64*)a : n == 4 ? *(u32*)a : *(u8*)a;
	tracef("   mem %llx (+%llx) = %llx  by %.40s", (unsigned long long)a, (unsigned long long)((a - SHBASE) % SLOTSZ), (unsigned long long)v, nm);
}
static inline __attribute__((always_inline)) void atw(void* a, unsigned n) { Fiber* f = cur; if(__builtin_expect(g_tracemem, 0) && f && (u64)a - SHBASE < SHSIZE) trace_w((u64)a, n, __builtin_return_address(0)); if(f && (u64)a - SHBASE < SHSIZE) { f->lw_addr = (u64)a; f->lw_kind = 100 + n; f->wseq++; f->opwseq++; f->wr_hist[f->wseq & 3] = (u64)a; } }
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int) { atm((u64)a, sizeof(T), PC); return *a; } \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atm((u64)a, sizeof(T), PC); *a = v; atw((void*)a, sizeof(T)); } \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atm((u64)a, sizeof(T), PC); T o = *a; *a = v; atw((void*)a, sizeof(T)); return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atm((u64)a, sizeof(T), PC); T o = *a; *a = o + v; atw((void*)a, sizeof(T)); return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atm((u64)a, sizeof(T), PC); T o = *a; *a = o - v; atw((void*)a, sizeof(T)); return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atm((u64)a, sizeof(T), PC); T o = *a; *a = o & v; atw((void*)a, sizeof(T)); return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atm((u64)a, sizeof(T), PC); T o = *a; *a = o | v; atw((void*)a, sizeof(T)); return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atm((u64)a, sizeof(T), PC); T o = *a; *a = o ^ v; atw((void*)a, sizeof(T)); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atm((u64)a, sizeof(T), PC); T o = *a; if(o == *c) { *a = v; if(o != v) atw((void*)a, sizeof(T)); return 1; } *c = o; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atm((u64)a, sizeof(T), PC); T o = *a; if(o == *c) { *a = v; if(o != v) atw((void*)a, sizeof(T)); return 1; } *c = o; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atm((u64)a, sizeof(T), PC); T o = *a; if(o == c) { *a = v; if(o != v) atw((void*)a, sizeof(T)); } return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)

// string functions called by the library
void* sim_memcpy(void* d, const void* s, size_t n) { if(n) { chk((u64)s, n, false, PC); chk((u64)d, n, true, PC); } return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { if(n) { chk((u64)s, n, false, PC); chk((u64)d, n, true, PC); } return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { if(n) chk((u64)d, n, true, PC); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { if(n) { chk((u64)a, n, false, PC); chk((u64)b, n, false, PC); } return memcmp(a, b, n); }
static inline void sread(const char* a, u64 pcx, void* pc) { (void)pcx; chk((u64)a, 1, false, pc); }
size_t sim_strlen(const char* s) { sread(s, 0, PC); return strlen(s); }
int sim_strcmp(const char* a, const char* b) { sread(a, 0, PC); sread(b, 0, PC); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t n) { if(n) { sread(a, 0, PC); sread(b, 0, PC); } return strncmp(a, b, n); }
char* sim_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; sread(s, 0, PC); chk((u64)d, n, true, PC); return strcpy(d, s); }
char* sim_strncpy(char* d, const char* s, size_t n) { if(n) { sread(s, 0, PC); chk((u64)d, n, true, PC); } return strncpy(d, s, n); }
}

//---------------------------------------------------------------- process heap
struct ArHdr { u64 used; u64 fl[24]; };
struct BlkHdr { u32 magic; u32 cls; u64 size; };
enum { MAGIC_USED = 0x5EEDA110, MAGIC_FREE = 0x5EEDF4EE };
static void arena_reset(Image* im) { ArHdr* h = (ArHdr*)im->arena; memset(h, 0, sizeof *h); h->used = (sizeof(ArHdr) + 15) & ~15ull; }
static void* ar_alloc(Image* im, size_t n)
{
	ArHdr* h = (ArHdr*)im->arena; u32 c = 5; while((1ull << c) < n + sizeof(BlkHdr)) c++;
	BlkHdr* b;
	if(h->fl[c]) { b = (BlkHdr*)h->fl[c]; h->fl[c] = *(u64*)(b + 1); }
	else { if(h->used + (1ull << c) > ARSZ) return nullptr; b = (BlkHdr*)(im->arena + h->used); h->used += 1ull << c; }
	b->magic = MAGIC_USED; b->cls = c; b->size = n; memset((void*)(b + 1), 0xCD, n); return b + 1;
}
static void ar_free(Image* im, void* p)
{
	BlkHdr* b = (BlkHdr*)p - 1; ArHdr* h = (ArHdr*)im->arena;
	if((u64)p - (u64)im->arena >= ARSZ) { if(cur) { cur->kern = 1; fail("heap", "free of memory of another process"); } return; }
	if(b->magic != MAGIC_USED) { if(cur) { cur->kern = 1; fail("heap", "invalid or double free in process %d", cur->proc->idx); } return; }
	memset(p, 0xDD, b->size);
	b->magic = MAGIC_FREE; *(u64*)p = h->fl[b->cls]; h->fl[b->cls] = (u64)b;
}
static void not_heap(void* p)
{
	if(!cur) return;
	u64 a = (u64)p; Image* im = cur->proc->img; bool bad = a - STBASE < STSZ * MAXFIB || a - SHBASE < SHSIZE || (im && a - (u64)im->rw < im->rwlen); if(!bad) return;
	cur->kern = 1; fail("heap", "process %d frees an address which is not of the heap", cur->proc->idx);
}
static inline bool in_arena(void* p) { return (u64)p - ARBASE < ARSZ * MAXIMG; }
extern "C" {
void* sim_malloc(size_t n) { if(!cur) return malloc(n); return ar_alloc(cur->proc->img, n); }
void sim_free(void* p) { if(!p) return; if(in_arena(p)) ar_free(cur->proc->img, p); else { not_heap(p); free(p); } }
void* sim_calloc(size_t a, size_t b) { void* p = sim_malloc(a * b); if(p) memset(p, 0, a * b); return p; }
void* sim_realloc(void* p, size_t n) { if(!p) return sim_malloc(n); size_t o = ((BlkHdr*)p - 1)->size; void* q = sim_malloc(n); if(q) { memcpy(q, p, o < n ? o : n); sim_free(p); } return q; }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* q = (char*)sim_malloc(n); memcpy(q, s, n); return q; }
void* sim__Znwm(size_t n) { return sim_malloc(n); }
void* sim__Znam(size_t n) { return sim_malloc(n); }
void sim__ZdlPv(void* p) { sim_free(p); }
void sim__ZdaPv(void* p) { sim_free(p); }
void sim__ZdlPvm(void* p, size_t) { sim_free(p); }
void sim__ZdaPvm(void* p, size_t) { sim_free(p); }
}
void* operator new(size_t n) { if(cur && cur->inlib && !cur->kern) return ar_alloc(cur->proc->img, n); void* p = malloc(n ? n : 1); if(!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if(!p) return; if(in_arena(p)) { if(cur) ar_free(cur->proc->img, p); } else { if(cur && cur->inlib && !cur->kern) not_heap(p); free(p); } }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

//---------------------------------------------------------------- images
void img_switch(Proc* p)
{
	Image* im = p->img; Proc* r = im->resident;
	if(r == p) return;
	if(r && r->st == PS_RUN) {
		u64 used = ((ArHdr*)im->arena)->used;
		r->saved_rw.assign(im->rw, im->rw + im->rwlen); r->saved_ar.assign(im->arena, im->arena + used); r->has_saved = true;
	}
	if(p->has_saved) { memcpy(im->rw, p->saved_rw.data(), im->rwlen); memcpy(im->arena, p->saved_ar.data(), p->saved_ar.size()); p->has_saved = false; }
	im->resident = p;
}
void img_fork(Proc* parent, Proc* child)
{
	Image* im = parent->img; img_switch(parent);
	u64 used = ((ArHdr*)im->arena)->used;
	child->img = im; child->saved_rw.assign(im->rw, im->rw + im->rwlen); child->saved_ar.assign(im->arena, im->arena + used); child->has_saved = true;
	im->users++;
}
Image* img_get()
{
	for(int i = 0; i < nimgs; i++) if(!imgs[i].users) { imgs[i].users = 1; imgs[i].resident = nullptr; memcpy(imgs[i].rw, imgs[i].pristine.data(), imgs[i].rwlen); arena_reset(&imgs[i]); return &imgs[i]; }
	return nullptr;
}
extern "C" void* sim___tls_get_addr(u64* ti)
{
	Fiber* f = cur; Image* im = f->proc->img;
	if(!f->tls) { f->tls = (char*)ar_alloc(im, im->tlsmem + 64); memset(f->tls, 0, im->tlsmem + 64); if(im->tlsfile) memcpy(f->tls, im->tlsinit, im->tlsfile); }
	return f->tls + ti[1];
}
static int phdr_cb(struct dl_phdr_info* info, size_t, void* d)
{
	Image* im = (Image*)d;
	if((char*)info->dlpi_addr != im->base) return 0;
	u64 lo = ~0ull, hi = 0;
	for(int i = 0; i < info->dlpi_phnum; i++) {
		const ElfW(Phdr)& ph = info->dlpi_phdr[i];
		if(ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) { u64 a = info->dlpi_addr + ph.p_vaddr; if(a < lo) lo = a; if(a + ph.p_memsz > hi) hi = a + ph.p_memsz; }
		if(ph.p_type == PT_TLS) { im->tlsinit = (char*)info->dlpi_addr + ph.p_vaddr; im->tlsfile = ph.p_filesz; im->tlsmem = ph.p_memsz; }
	}
	im->rw = (char*)lo; im->rwlen = hi - lo; return 1;
}
static stack_t altstk; static u64 segv_addr; static int segv_sig;
static void segv_tramp() { wild(segv_sig == SIGABRT ? "SIGABRT: the program aborts" : "SIGSEGV", segv_addr); abort(); }
static void on_segv(int sig, siginfo_t* si, void* uc)
{
	if(!cur) { const char m[] = "simulator crash\n"; (void)!write(2, m, sizeof m - 1); signal(sig, SIG_DFL); return; }
	if(sig == SIGABRT && (!cur->inlib || cur->kern)) { signal(sig, SIG_DFL); return; }
	segv_sig = sig; segv_addr = sig == SIGABRT ? 0 : (u64)si->si_addr;
	ucontext_t* u = (ucontext_t*)uc; u64 sp = (u64)u->uc_mcontext.gregs[REG_RSP]; sp = (sp - 512) & ~15ull; sp -= 8;
	if(sp - (u64)cur->stk >= STSZ || sp - (u64)cur->stk < 4096) sp = (u64)cur->stk + STSZ / 2 - 8; // stack overflow
	u->uc_mcontext.gregs[REG_RSP] = (long long)sp; u->uc_mcontext.gregs[REG_RIP] = (long long)&segv_tramp;
	sigset_t s; sigemptyset(&s); sigaddset(&s, sig); u->uc_sigmask = {}; (void)s;
}
template<class F> static void sym(void* dl, const char* n, F& f) { f = (F)dlsym(dl, n); if(!f) { fprintf(stderr, "missing symbol %s\n", n); exit(2); } }
void core_init(const char* sodir)
{
	for(int s = 0; s < MAXSPACE; s++) {
		space_memfd[s] = memfd_create("space", 0);
		if(space_memfd[s] < 0 || ftruncate(space_memfd[s], SLOTSZ)) { perror("memfd"); exit(2); }
		for(int k = 0; k < NSLOT; k++) {
			void* a = (void*)(SHBASE + ((u64)s * NSLOT + k) * SLOTSZ);
			if(mmap(a, SLOTSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, space_memfd[s], 0) != a) { perror("mmap shared"); exit(2); }
		}
	}
	if(mmap((void*)ARBASE, ARSZ * MAXIMG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)ARBASE) { perror("mmap arena"); exit(2); }
	if(mmap((void*)STBASE, STSZ * MAXFIB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)STBASE) { perror("mmap stacks"); exit(2); }
	altstk.ss_sp = malloc(65536); altstk.ss_size = 65536; sigaltstack(&altstk, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
	for(int i = 0; i < MAXIMG; i++) {
		char b[512]; snprintf(b, sizeof b, "%s/fl%02d.so", sodir, i);
		Image& im = imgs[i]; im.dl = dlopen(b, RTLD_NOW | RTLD_LOCAL);
		if(!im.dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
		struct link_map* lm; dlinfo(im.dl, RTLD_DI_LINKMAP, &lm); im.base = (char*)lm->l_addr;
		dl_iterate_phdr(phdr_cb, &im); im.arena = (char*)(ARBASE + (u64)i * ARSZ);
		im.pristine.assign(im.rw, im.rw + im.rwlen);
		Api& a = im.api;
		sym(im.dl, "fullock_set_no_robust", a.set_robust[0]); sym(im.dl, "fullock_set_low_robust", a.set_robust[1]); sym(im.dl, "fullock_set_high_robust", a.set_robust[2]);
		sym(im.dl, "fullock_set_noretry_allow_nomap", a.set_nomap[0]); sym(im.dl, "fullock_set_noretry_deny_nomap", a.set_nomap[1]); sym(im.dl, "fullock_set_retry_allow_nomap", a.set_nomap[2]); sym(im.dl, "fullock_set_retry_deny_nomap", a.set_nomap[3]);
		sym(im.dl, "fullock_set_no_freeunit", a.set_free[0]); sym(im.dl, "fullock_set_fd_freeunit", a.set_free[1]); sym(im.dl, "fullock_set_offset_freeunit", a.set_free[2]);
		sym(im.dl, "fullock_set_robust_check_count", a.set_chk); sym(im.dl, "fullock_reinitialize", a.reinit); sym(im.dl, "fullock_reinitialize_ex", a.reinit_ex);
		sym(im.dl, "fullock_mutex_lock", a.mlock); sym(im.dl, "fullock_mutex_trylock", a.mtry); sym(im.dl, "fullock_mutex_timedlock", a.mtimed); sym(im.dl, "fullock_mutex_unlock", a.munlock);
		sym(im.dl, "fullock_rwlock_rdlock", a.rw[1]); sym(im.dl, "fullock_rwlock_wrlock", a.rw[2]); sym(im.dl, "fullock_rwlock_tryrdlock", a.rwtry[1]); sym(im.dl, "fullock_rwlock_trywrlock", a.rwtry[2]);
		sym(im.dl, "fullock_rwlock_timedrdlock", a.rwtimed[1]); sym(im.dl, "fullock_rwlock_timedwrlock", a.rwtimed[2]); sym(im.dl, "fullock_rwlock_unlock", a.rwunlock); sym(im.dl, "fullock_rwlock_islocked", a.islocked);
		sym(im.dl, "fullock_cond_wait", a.cwait); sym(im.dl, "fullock_cond_timedwait", a.ctimed); sym(im.dl, "fullock_cond_signal", a.csig); sym(im.dl, "fullock_cond_broadcast", a.cbc);
		sym(im.dl, "shim_rcsv_new", a.rcsv_new); sym(im.dl, "shim_rcsv_newl", a.rcsv_newl); sym(im.dl, "shim_rcsv_lock", a.rcsv_lock); sym(im.dl, "shim_rcsv_relock", a.rcsv_relock); sym(im.dl, "shim_rcsv_unlock", a.rcsv_unlock); sym(im.dl, "shim_rcsv_del", a.rcsv_del);
		sym(im.dl, "shim_run_init", a.run_init); sym(im.dl, "shim_run_fini", a.run_fini);
		nimgs++;
	}
}

//---------------------------------------------------------------- run loop
static bool runnable(Fiber* f, u64 now)
{
	switch(f->st) {
	case FS_RUN: return true;
	case FS_SLEEP: if(now >= f->wake) { f->st = FS_RUN; return true; } if(f->cancelled && !f->cdis && !f->exiting) { f->st = FS_RUN; return true; } return false;
	case FS_BLOCK:
		if(f->pred && f->pred(f)) { f->st = FS_RUN; f->timedout = false; return true; }
		if(f->wake && now >= f->wake) { f->st = FS_RUN; f->timedout = true; return true; }
		return false;
	default: return false;
	}
}
static void reset_run()
{
	for(int s = 0; s < MAXSPACE; s++) {
		if(space_hw[s]) memset((void*)(SHBASE + (u64)s * NSLOT * SLOTSZ), 0, (space_hw[s] + 4095) & ~4095ull);
		space_hw[s] = space_size[s] = 0; for(int k = 0; k < NSLOT; k++) slots[s][k] = Slot();
	}
	for(int i = 0; i < nimgs; i++) { imgs[i].users = 0; imgs[i].resident = nullptr; }
	for(int i = 0; i < nprocs; i++) procs[i] = Proc();
	nfibs = 0; nprocs = 0; rs = RunStats(); g_totsteps = 0; g_quantum = g_q0 = 0; g_over = false; g_out = Outcome(); g_hash = 1; g_drain = false; cur = nullptr;
	g_usedfib = 0;
}
static void do_resume(Fiber* f, i64 q)
{
	u64 used0;
	if(f->proc->img->resident != f->proc) img_switch(f->proc);
	if(f->dl && f->dl_own == ~0ull && now_ns() >= f->dl) f->dl_own = f->owntime;
	g_q0 = g_quantum = q; cur = f; used0 = f->steps; (void)used0;
	u64* eg = (u64*)abi::__cxa_get_globals(); eg[0] = (u64)f->eh[0]; eg[1] = (u64)f->eh[1];
	swctx(&sched_sp, f->sp);
	f->eh[0] = (void*)eg[0]; f->eh[1] = (void*)eg[1]; eg[0] = eg[1] = 0;
	cur = nullptr;
}
extern void kernel_tick();
Outcome run_program(Program& p, bool record, bool trace)
{
	reset_run();
	P = &p; g_trace = trace; g_tracemem = trace && getenv("TRACEMEM"); krng = Rng(p.kseed); srng = Rng(p.sseed ^ 0x5555); drng = Rng(p.kseed ^ 0x7777);
	g_base = p.t0;
	bool replay = p.has_segs && !record; size_t segi = 0; g_record = !replay;
	std::vector<std::pair<int,int>> segs;
	kernel_reset(); harness_reset();
	nprocs = (int)p.procs.size();
	for(int i = 0; i < nprocs; i++) { procs[i].idx = i; procs[i].pp = &p.procs[i]; procs[i].st = PS_NONE; }
	u64 prevpc = 0; int pct_changes = 0; u64 pct_next = 0; int burst = 0; Fiber* last = nullptr; u64 consec = 0;
	if(p.pol == 1) { pct_changes = 3 + srng.below(8); pct_next = srng.below(p.s1); }
	bool startnow[MAXPROC]; memset(startnow, 0, sizeof startnow);
	while(!g_over) {
		for(int i = 0; i < nprocs; i++) { Proc* q = &procs[i]; if(q->st == PS_NONE && q->pp->start == 0 && (startnow[i] || g_totsteps >= (u64)q->pp->delay)) { if(!proc_start(i, nullptr)) fail("sim", "no image"); } }
		kernel_tick();
		if(!g_drain) {
			bool dr = g_totsteps >= p.s1;
			if(replay && segi >= p.segs.size()) dr = true;
			if(dr) { g_drain = true; tracef("-- drain"); }
		} else if(g_totsteps > p.s1 + p.s2) { harness_hang(); break; }
		u64 now = now_ns(); g_base = now; g_q0 = g_quantum = 0;
		Fiber* r[MAXFIB]; int n = 0; Fiber* st[MAXFIB]; int ns = 0;
		for(int i = 0; i < nfibs; i++) { Fiber* f = &fibs[i]; if(f->st == FS_DONE || f->st == FS_FREE) continue; if(runnable(f, now)) { if(!g_drain && f->stalled_until > g_totsteps) st[ns++] = f; else r[n++] = f; } }
		if(!n && ns) { for(int i = 0; i < ns; i++) { st[i]->stalled_until = 0; r[n++] = st[i]; } }
		if(!n) {
			bool pend = false; u64 t = ~0ull;
			for(int i = 0; i < nprocs; i++) {
				Proc* q = &procs[i];
				if(q->st == PS_NONE && q->pp->start == 0) { startnow[i] = true; pend = true; }
				if(q->st == PS_ZOMBIE) { q->reap_step = 0; }
			}
			if(pend) continue;
			if(harness_all_done()) break;
			for(int i = 0; i < nfibs; i++) { Fiber* f = &fibs[i]; if((f->st == FS_SLEEP || f->st == FS_BLOCK) && f->wake && f->wake < t) t = f->wake; }
			for(int i = 0; i < nprocs; i++) if(procs[i].st == PS_ZOMBIE && procs[i].reap_time < t) t = procs[i].reap_time;
			if(t == ~0ull) { harness_hang(); break; }
			if(t > g_base) { g_base = t; rs.clockjumps++; }
			g_totsteps += 1;   // bounds runs that only sleep
			continue;
		}
		Fiber* f = nullptr; i64 q = 1;
		if(g_drain) { f = r[drng.below(n)]; q = drng.geo(50); }
		else if(replay) {
			auto& s = p.segs[segi++];
			for(int i = 0; i < n; i++) if(r[i]->idx == s.first) f = r[i];
			if(!f) for(int i = 0; i < ns; i++) if(st[i]->idx == s.first) f = st[i];
			q = s.second; if(!f) continue;
		} else {
			switch(p.pol) {
			default: case 0: f = r[srng.below(n)]; q = srng.geo(p.quantum); break;
			case 1: {
				f = r[0]; for(int i = 1; i < n; i++) if(r[i]->prio > f->prio) f = r[i];
				q = 1 + srng.below(400);
				if(f == last) { if(consec > 3000) { f->prio = srng.next() >> 20; consec = 0; } }
				if(pct_changes && g_totsteps >= pct_next) { pct_changes--; pct_next = g_totsteps + srng.below(p.s1 / 4 + 1); f->prio = srng.next() >> 8; }
				if(srng.chance(1, 12)) f = r[srng.below(n)];
				break; }
			case 2: f = r[srng.below(n)]; q = srng.geo(p.quantum); if(srng.chance(1, 40)) { f->stalled_until = g_totsteps + srng.geo(3000); } break;
			case 3: if(burst <= 0) burst = (int)srng.geo(30) * (srng.chance(1, 2) ? 1 : 0) + 1; burst--; f = (last && srng.chance(1, 3) && last->st == FS_RUN && burst > 1) ? last : r[srng.below(n)]; q = srng.chance(1, 3) ? srng.geo(3) : srng.geo(p.quantum * 6); break;
			}
		}
		if(f->kill_at != ~0ull) { i64 lim = f->kill_at > f->steps ? (i64)(f->kill_at - f->steps) : 0; if(q > lim) q = lim; }
		if(f->stall_at != ~0ull) { i64 lim = f->stall_at > f->steps ? (i64)(f->stall_at - f->steps) : 0; if(q > lim) q = lim; }
		do_resume(f, q);
		u64 used = (u64)(g_q0 - g_quantum);
		g_base += used * STEP_NS; f->owntime += used * STEP_NS; g_q0 = g_quantum = 0;
		g_totsteps += used; f->proc->steps += used; rs.segs++;
		u64 pcn = f->lastpc ? (u64)f->lastpc - (u64)f->proc->img->base : 0;
		g_hash = hmix(g_hash, ((u64)f->idx << 48) ^ (used << 24) ^ (pcn & 0xffffff));
		if(!g_drain) { segs.push_back({f->idx, (int)used}); if(f != last && last) { u64 h = hmix(prevpc, f->idx == last->idx ? 0 : pcn + 7); g_pairmap[h & ((1u << 20) - 1)] = 1; } }
		prevpc = pcn; if(f == last) consec += used; else consec = used; last = f;
		if(g_over) break;
		if(f->st != FS_DONE && f->steps >= f->kill_at) { tracef("-- kill p%d", f->proc->idx); f->kill_at = ~0ull; rs.faults_kill++; proc_kill(f->proc, f->kill_reap); }
		else if(f->st != FS_DONE && f->steps >= f->stall_at) { f->stall_at = ~0ull; f->stalled_until = g_totsteps + f->stall_len; rs.faults_stall++; }
	}
	cur = nullptr;
	if(!g_over) harness_end();
	rs.steps = g_totsteps; rs.simtime = now_ns() - p.t0;
	for(int i = 0; i < nprocs; i++) rs.procs += procs[i].pid ? 1 : 0;
	g_out.st = rs; g_out.hash = g_hash;
	g_last_segs.swap(segs);
	if(g_record) { p.segs = g_last_segs; p.has_segs = true; }
	return g_out;
}
