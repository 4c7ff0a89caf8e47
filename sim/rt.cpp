// Simulator runtime.  Compiled without instrumentation; implements the callbacks that gcc's
// -fsanitize=thread inserts into the system under test, the allocator, the seams, the lives and
// the scheduler.  See DESIGN.md.
#include "rt.h"
#include <errno.h>
#include <malloc.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <locale>
#include <sys/stat.h>
#include <dlfcn.h>
#include <iostream>
#include <new>
#include <algorithm>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <ucontext.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <openssl/crypto.h>
#include <openssl/rand.h>
#include <openssl/ui.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>

// the runtime's own copies are not the system's
extern "C" void* __real_memcpy(void*, const void*, size_t); extern "C" void* __real_memmove(void*, const void*, size_t); extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_snprintf(char*, size_t, const char*, ...); extern "C" int __real_strcmp(const char*, const char*); extern "C" char* __real_strncpy(char*, const char*, size_t); extern "C" size_t __real_strlen(const char*);
#define memset __real_memset
#define memcpy __real_memcpy
#define snprintf __real_snprintf
#define strcmp __real_strcmp
#define strncpy __real_strncpy
#define strlen __real_strlen
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// ------------------------------------------------------------------ shared region
enum { RECBUF = 24 << 20, NCOUNT = 160 };
struct Shm {
  uint64_t hash, steps, allocs;
  char end[256];
  char detail[4096];
  uint32_t ended;
  uint64_t reclen;
  struct { char name[48]; uint64_t n; } cnt[NCOUNT];
  uint32_t ncnt;
  unsigned char cov[1 << 14], fcov[1 << 13];
  char rec[RECBUF];
  uint64_t inlen, outlen;
  char xin[8 << 20], xout[8 << 20];
};
static Shm* shm;

// ------------------------------------------------------------------ state
static __thread int tls_sut;      // >0: the system under test runs
static __thread int tls_tid = -1; // simulated thread

static const uintptr_t LOW_BASE = 0x10000000ull, HIGH_BASE = 0x700000000000ull >> 8; // 0x7000000000
static const size_t ARENA = 640u << 20, ARENA_THRIFT = 144u << 20;
static const uintptr_t HOST_BASE = 0x300000000ull;
static const size_t HOST_SIZE = 6ull << 30;
static const uintptr_t STACK_BASE = 0x600000000ull;
static const size_t STACK_SIZE = 9u << 20, STACK_STRIDE = 16u << 20;
enum { ISO_SLOT = 24 };

static uintptr_t a_base = LOW_BASE;
static unsigned char* a_shadow;   // 1 byte per byte; low 2 bits: 0 none, 1 live, 2 freed; above: owner
static size_t a_used;
static rt::NodeCfg* cfg_p;
#define CFG (*cfg_p)
static bool in_life;
static int cur_op = -1;
static uint64_t sec_steps, tot_steps, budget = 400000000ull, kill_at, next_event = 400000000ull;
static uint64_t n_allocs;
static rt::FaultMode f_mode; static uint64_t f_at, f_base, f_fired, f_rng;
static uint64_t st_live, st_blocks, cr_live;

static inline void fold(uint64_t v) { if (shm) shm->hash = (shm->hash ^ v) * 0x100000001b3ull + (v >> 29); }
static void recalc_event() { next_event = (kill_at && kill_at < budget) ? kill_at : budget; }

// ------------------------------------------------------------------ host heap
struct HHdr { uint32_t cls; uint32_t magic; uint64_t size; };
static char* h_cur; static char* h_end; static void* h_free[64];
static volatile int h_lock;
static void hlock() { while (__sync_lock_test_and_set(&h_lock, 1)) sched_yield(); }
static void hunlock() { __sync_lock_release(&h_lock); }
static size_t hcls_size(int c) { return c < 32 ? (size_t)(c + 1) * 32 : (size_t)1024 << (c - 31); }
static int hcls(size_t n) {
  if (n <= 1024) return n ? (int)((n - 1) / 32) : 0;
  int c = 32; while (hcls_size(c) < n) ++c; return c;
}
static void* h_alloc(size_t n) {
  if (n > (1ull << 31)) return 0;
  hlock();
  if (!h_cur) {
    h_cur = (char*)mmap((void*)HOST_BASE, HOST_SIZE, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (h_cur == MAP_FAILED) { syscall(SYS_write, 2, "sim: no host heap\n", 18); _exit(3); }
    h_end = h_cur + HOST_SIZE;
  }
  int c = hcls(n); void* p = h_free[c];
  if (p) h_free[c] = *(void**)p;
  else {
    size_t need = hcls_size(c) + 16;
    if (h_cur + need > h_end) { hunlock(); return 0; }
    HHdr* h = (HHdr*)h_cur; h->cls = c; h->magic = 0x48484848; h_cur += need; p = h + 1;
  }
  ((HHdr*)p - 1)->size = n;
  hunlock();
  return p;
}
static void h_freep(void* p) {
  HHdr* h = (HHdr*)p - 1; hlock(); *(void**)p = h_free[h->cls]; h_free[h->cls] = p; hunlock();
}
static bool is_host(const void* p) { return (uintptr_t)p - HOST_BASE < HOST_SIZE; }

// ------------------------------------------------------------------ node heap
struct Blk { uintptr_t addr; size_t size, chunk; uint32_t total; uint8_t kind, live, owner; int op; uint32_t next; uint64_t seq; };
static Blk* blks; static uint32_t nblks; enum { MAXBLK = 8 << 20 };
struct NHdr { uint32_t idx; uint32_t magic; uint64_t size; };
enum { RZ = 32 };
static uint32_t* fl_head; // free list heads by (total/16), size classes up to 1 MiB; index+1
enum { NFL = 65536 };
static uint64_t live_mark;

static const char* kindname(int k) { return k == 0 ? "malloc" : k == 1 ? "new" : k == 2 ? "new[]" : "caller"; }
static inline bool in_arena(const void* p) { return (uintptr_t)p - a_base < ARENA; }
static bool in_any_arena(const void* p) { return (uintptr_t)p - LOW_BASE < ARENA || (uintptr_t)p - HIGH_BASE < ARENA; }

static void fillmem(void* p, size_t n, int how, uint64_t salt) {
  if (how == 257) return;
  if (how < 256) { memset(p, how, n); return; }
  uint64_t z = CFG.env * 0x9e3779b97f4a7c15ull + salt; unsigned char* c = (unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { if (!(i & 7)) z = rt::mix(z, i); c[i] = (unsigned char)(z >> ((i & 7) * 8)); }
}

namespace rt { static void mem_violation(const char* what, uintptr_t a, unsigned n) __attribute__((noreturn)); }

static bool fault_now(size_t n) {
  if (f_mode == rt::FM_NONE) return false;
  uint64_t k = n_allocs - f_base; bool f = false;   // this allocation is number k (1-based)
  switch (f_mode) {
    case rt::FM_ONCE: f = (k == f_at); break;
    case rt::FM_FOREVER: f = (k >= f_at); break;
    case rt::FM_EVERY: f = (f_at && k % f_at == 0); break;
    case rt::FM_BIG: f = (n >= f_at); break;
    default: break;
  }
  if (f) ++f_fired;
  return f;
}

static void* n_alloc(size_t n, int kind, size_t align = 16) {
  if (kind != 3) {
    ++n_allocs; if (shm) shm->allocs = n_allocs;
    if (fault_now(n)) { fold(0xfa117); return 0; }
  }
  if (n > (64u << 20)) { fold(0xb16); return 0; }
  size_t pay = (n + 15) & ~(size_t)15; if (!pay) pay = 16;
  size_t total = 16 + RZ + pay + RZ + (align > 16 ? align : 0);
  uint32_t idx = 0; uintptr_t chunk = 0;
  size_t fi = total / 16;
  bool reuse = CFG.reuse || a_used > ARENA_THRIFT;
  if (reuse && fi < NFL && fl_head[fi]) {
    idx = fl_head[fi] - 1; fl_head[fi] = blks[idx].next; chunk = blks[idx].chunk;
  } else {
    if (a_used + total + 4096 > ARENA || nblks >= MAXBLK) return 0;
    chunk = a_base + a_used; a_used += total; idx = nblks++;
    a_used += (size_t)(CFG.pad) * 16;
    if (a_used > ARENA) a_used = ARENA;
  }
  uintptr_t addr = chunk + 16 + RZ;
  if (align > 16) addr = (addr + align - 1) & ~(uintptr_t)(align - 1);
  Blk& b = blks[idx];
  b.addr = addr; b.size = n; b.chunk = chunk; b.total = total; b.kind = kind; b.live = 1; b.op = cur_op; b.seq = n_allocs;
  b.owner = tls_tid < 0 ? 0 : tls_tid + 1;
  NHdr* h = (NHdr*)(addr - RZ - 16); h->idx = idx; h->magic = 0x4e4e4e4e; h->size = n;
  size_t so = addr - a_base;
  memset(a_shadow + (chunk - a_base), 0, total);
  memset(a_shadow + so, 1 | (b.owner << 2), n);
  fillmem((void*)addr, pay, CFG.fill, n_allocs);
  st_live += n; ++st_blocks;
  fold(n); fold(addr - a_base);
  return (void*)addr;
}
static Blk* blk_of(void* p) {
  NHdr* h = (NHdr*)((uintptr_t)p - RZ - 16);
  if (!in_arena(h) || h->magic != 0x4e4e4e4e || h->idx >= nblks) return 0;
  Blk* b = &blks[h->idx];
  return b->addr == (uintptr_t)p ? b : 0;
}
static void n_free(void* p, int kind) {
  Blk* b = blk_of(p);
  char t[256];
  if (!b) { snprintf(t, sizeof t, "%s() of a pointer that no allocation returned", kind ? "delete" : "free"); rt::violation("memory:bad-free", t); }
  if (!b->live) { snprintf(t, sizeof t, "block of %zu bytes made in op %d is released twice", b->size, b->op); rt::violation("memory:double-free", t); }
  if (b->kind != kind && b->kind != 4) {
    snprintf(t, sizeof t, "block of %zu bytes from %s released by %s", b->size, kindname(b->kind), kind == 0 ? "free" : kind == 1 ? "delete" : kind == 2 ? "delete[]" : "caller");
    rt::violation("memory:mismatched-release", t);
  }
  b->live = 0; st_live -= b->size; --st_blocks;
  memset(a_shadow + (b->addr - a_base), 2, b->size);
  size_t pay = (b->size + 15) & ~(size_t)15;
  fillmem((void*)b->addr, pay, CFG.ffill, 77);
  fold(0xf4ee); fold(b->addr - a_base);
  size_t fi = b->total / 16;
  if (fi < NFL && b->total == fi * 16) { b->next = fl_head[fi]; fl_head[fi] = (uint32_t)(b - blks) + 1; }
}

// ------------------------------------------------------------------ malloc and friends
static inline bool node_ctx() { return in_life && tls_sut > 0; }
static void* do_alloc(size_t n, int kind) { return node_ctx() ? n_alloc(n, kind) : h_alloc(n); }
static void do_free(void* p, int kind) {
  if (!p) return;
  if (in_any_arena(p)) { n_free(p, kind); return; }
  if (!is_host(p)) {
    if (node_ctx()) rt::violation("memory:bad-free", "release of a pointer that no allocation returned");
    abort();
  }
  h_freep(p);
}
extern "C" {
void* malloc(size_t n) { void* p = do_alloc(n, 0); if (!p) errno = ENOMEM; return p; }
void free(void* p) { int e = errno; do_free(p, 0); errno = e; }
void* calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
  void* p = malloc(n); if (p) memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) { free(p); return 0; }
  if (in_any_arena(p)) {
    Blk* b = blk_of(p);
    if (!b || !b->live) rt::violation("memory:bad-realloc", "realloc() of memory that is not allocated");
    if (b->kind != 0) rt::violation("memory:mismatched-release", "realloc() of a block that malloc() did not return");
    size_t old = b->size, cap = (old + 15) & ~(size_t)15;
    if (!CFG.rmove && n <= cap && node_ctx()) {
      ++n_allocs; if (shm) shm->allocs = n_allocs; if (fault_now(n)) { fold(0xfa117); errno = ENOMEM; return 0; }
      st_live += n; st_live -= old;
      memset(a_shadow + (b->addr - a_base), 0, cap);
      memset(a_shadow + (b->addr - a_base), 1 | (b->owner << 2), n);
      b->size = n; return p;
    }
    bool flip = !node_ctx(); if (flip) ++tls_sut;
    void* q = n_alloc(n, 0); if (flip) --tls_sut;
    if (!q) { errno = ENOMEM; return 0; }
    memcpy(q, p, old < n ? old : n);
    n_free(p, 0);
    return q;
  }
  HHdr* h = (HHdr*)p - 1;
  if (hcls_size(h->cls) >= n) { h->size = n; return p; }
  void* q = h_alloc(n); if (!q) return 0;
  memcpy(q, p, h->size < n ? h->size : n); h_freep(p); return q;
}
void* memalign(size_t al, size_t n) {
  if (node_ctx()) return n_alloc(n, 0, al);
  if (al <= 16) return h_alloc(n);
  // host: over-allocate, never released individually
  char* p = (char*)h_alloc(n + al + 16);
  if (!p) return 0;
  uintptr_t q = ((uintptr_t)p + al - 1) & ~(uintptr_t)(al - 1);
  if (q != (uintptr_t)p) { if (q - (uintptr_t)p < 16) q += al; HHdr* h = (HHdr*)q - 1; h->cls = 0; h->magic = 0x48484848; h->size = n; }
  return (void*)q;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { *out = memalign(al, n); return *out ? 0 : ENOMEM; }
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (in_any_arena(p)) { Blk* b = blk_of(p); return b ? b->size : 0; }
  return ((HHdr*)p - 1)->size;
}
int mallopt(int, int) { return 1; }
int malloc_trim(size_t) { return 0; }
void malloc_stats(void) {}
struct mallinfo2 mallinfo2(void) { struct mallinfo2 m; memset(&m, 0, sizeof m); m.uordblks = st_live; m.arena = m.fordblks = a_used; return m; }
struct mallinfo mallinfo(void) { struct mallinfo m; memset(&m, 0, sizeof m); m.uordblks = (int)st_live; m.arena = m.fordblks = (int)a_used; return m; }
}
void* operator new(size_t n) { void* p = do_alloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = do_alloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 2); }
void operator delete(void* p) noexcept { do_free(p, 1); }
void operator delete[](void* p) noexcept { do_free(p, 2); }
void operator delete(void* p, size_t) noexcept { do_free(p, 1); }
void operator delete[](void* p, size_t) noexcept { do_free(p, 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, 2); }

// libcrypto's own allocations: separate, never failed, counted
static void* c_malloc(size_t n, const char*, int) { void* p = h_alloc(n); if (p) cr_live += n; return p; }
static void c_free(void* p, const char*, int) { if (p) { cr_live -= ((HHdr*)p - 1)->size; h_freep(p); } }
static void* c_realloc(void* p, size_t n, const char* f, int l) {
  if (!p) return c_malloc(n, f, l);
  if (!n) { c_free(p, f, l); return 0; }
  HHdr* h = (HHdr*)p - 1;
  void* q = c_malloc(n, f, l); if (!q) return 0;
  memcpy(q, p, h->size < n ? h->size : n); c_free(p, f, l); return q;
}

// ------------------------------------------------------------------ life ending
namespace rt {
void end_life(const std::string& how, const std::string& detail) {
  tls_sut = 0;
  if (!in_life) { fprintf(stderr, "sim: end_life outside a life: %s %s\n", how.c_str(), detail.c_str()); _exit(3); }
  if (!shm->ended) {
    shm->ended = 1;
    strncpy(shm->end, how.c_str(), sizeof shm->end - 1);
    strncpy(shm->detail, detail.c_str(), sizeof shm->detail - 1);
    for (char c : how) fold((unsigned char)c);
    shm->steps = tot_steps + sec_steps;
  }
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
void violation(const char* cls, const char* detail) { tls_sut = 0; violation(std::string(cls), std::string(detail)); }
void violation(const std::string& cls, const std::string& detail) {
  tls_sut = 0;
  char t[64]; snprintf(t, sizeof t, "op %d: ", cur_op);
  end_life("viol:" + cls, t + detail);
}
static void mem_violation(const char* what, uintptr_t a, unsigned n) {
  tls_sut = 0;
  // find the nearest block below
  char t[300]; long best = -1; uintptr_t bd = ~(uintptr_t)0;
  for (uint32_t i = 0; i < nblks; ++i)
    if (a >= blks[i].addr && a - blks[i].addr < bd) { bd = a - blks[i].addr; best = i; }
  int st = a_shadow[a - a_base] & 3;
  if (best >= 0 && bd < 1 << 20)
    snprintf(t, sizeof t, "%s of %u bytes at offset %zu of a %s block of %zu bytes (%s, made in op %d)", what, n, (size_t)bd,
             blks[best].live ? "live" : "released", blks[best].size, kindname(blks[best].kind), blks[best].op);
  else snprintf(t, sizeof t, "%s of %u bytes at an address outside every block", what, n);
  violation(st == 2 ? "memory:use-after-free" : "memory:out-of-bounds", t);
}
} // namespace rt

// ------------------------------------------------------------------ scheduler (data)
extern "C" char __data_start, _end;
struct Thr { pthread_t th; int state; /*0 runnable 1 waiting 2 done*/ volatile int go; uint64_t steps; int64_t prio; const void* wait; std::function<void()> body; size_t prenext; std::vector<std::pair<uint64_t,int> >* pre; };
static Thr* thrs; static int nthr; static volatile int curthr = -1; static volatile int all_done;
static bool sched_on;
static rt::SchedCfg* sc; static rt::SchedStats* ss; static rt::Rng* srng;
static uint64_t sw_countdown, since_switch, hot_left; static uint64_t* chg; static size_t nchg, chgi;
static void sched_point(uintptr_t a, bool shared);
// static memory that some call wrote, in units of 8 bytes: what threads may race on
static unsigned char* hot_map; static bool hot_track, hot_any; static std::vector<uint32_t>* hot_list;
static inline bool is_static(uintptr_t a) { return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end; }
static __attribute__((noinline)) void hot_write(uintptr_t a, size_t n) {
  for (uintptr_t x = a & ~7ull; x < a + n && is_static(x); x += 8) { size_t i = (x - (uintptr_t)&__data_start) >> 3; if (!hot_map[i]) { hot_map[i] = 1; int s = tls_sut; tls_sut = 0; hot_list->push_back((uint32_t)i); tls_sut = s; } }
}

// The "-s" image is compiled with -fsanitize=kernel-address instead: frames and globals have redzones, which
// the compiler marks in a shadow (1 byte per 8) that only this image has.
extern "C" const char sim_redzones __attribute__((weak)); extern "C" char __executable_start;
static const uintptr_t RZ_OFF = 0x7fff8000ull, RZ_STACKS = 40ull << 24;
static bool rz_on; static uintptr_t rz_top;
static inline signed char* rz_at(uintptr_t a) { return (signed char*)((a >> 3) + RZ_OFF); }
static inline bool rz_static(uintptr_t a) { return a >= (uintptr_t)&__executable_start && a < (uintptr_t)&_end; }
static void rz_map(uintptr_t lo, uintptr_t hi) {
  lo = (uintptr_t)rz_at(lo) & ~4095ull; hi = ((uintptr_t)rz_at(hi) + 4096) & ~4095ull;
  if (mmap((void*)lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { syscall(SYS_write, 2, "sim: no redzone shadow\n", 23); _exit(3); }
}
static void rz_init(int, char** argv, char**) {
  if (!&sim_redzones) return;
  rz_map((uintptr_t)&__executable_start, (uintptr_t)&_end); rz_map(STACK_BASE, STACK_BASE + RZ_STACKS);
  rz_top = (uintptr_t)argv; rz_map(rz_top - (16u << 20), rz_top + 65536); rz_on = true;
}
__attribute__((section(".preinit_array"), used)) static void (*rz_pre)(int, char**, char**) = rz_init;
static void rz_set(uintptr_t a, size_t n, int v) { if (n) memset(rz_at(a), v, ((a + n - 1) >> 3) - (a >> 3) + 1); }
// the frames below the caller's are left at once
static void rz_forget() {
  if (!rz_on) return;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0), hi = sp - STACK_BASE < RZ_STACKS ? STACK_BASE + ((sp - STACK_BASE) / STACK_STRIDE) * STACK_STRIDE + STACK_SIZE : sp <= rz_top ? rz_top : 0;
  if (hi > sp && hi - sp < (20u << 20)) rz_set(sp & ~7ull, hi - sp, 0);
}
static __attribute__((noinline)) void rz_check(uintptr_t a, size_t n, bool w) {
  if (a - STACK_BASE >= RZ_STACKS && !rz_static(a)) return;
  for (uintptr_t x = a; x < a + n; x = (x | 7) + 1) {
    signed char v = *rz_at(x); if (!v) continue;
    uintptr_t last = std::min<uintptr_t>(x | 7, a + n - 1);
    if (v < 0 || (int)(last & 7) >= v) {
      tls_sut = 0; char t[160]; int c = (unsigned char)v;
      snprintf(t, sizeof t, "%s of %zu bytes %s", w ? "write" : "read", n, v > 0 || c == 0xf9 ? "outside a static object" : c == 0xf8 ? "in a local object after its scope" : "outside a local object");
      if (v > 0 && !rz_static(a)) snprintf(t, sizeof t, "%s of %zu bytes outside a local object", w ? "write" : "read", n);
      rt::violation("memory:out-of-bounds", t);
    }
  }
}
static inline bool range_ok(uintptr_t a, size_t n) {
  const unsigned char* s = a_shadow + (a - a_base);
  for (size_t i = 0; i < n; ++i) if ((s[i] & 3) != 1) return false;
  return true;
}
static __attribute__((noinline)) void step_event() {
  if (kill_at && sec_steps >= kill_at) { tls_sut = 0; rt::end_life("killed", "crash point reached"); }
  if (sec_steps >= budget) { tls_sut = 0; rt::end_life("hang", "step budget exhausted"); }
}
static inline void acc(uintptr_t a, unsigned n, bool w) {
  if (LIKELY(tls_sut <= 0)) return;
  if (UNLIKELY(++sec_steps >= next_event)) step_event();
  unsigned own = 1;
  if (UNLIKELY(rz_on)) rz_check(a, n, w);
  if (a - a_base < ARENA) {
    if (UNLIKELY(!range_ok(a, n))) {
      uintptr_t x = a; while ((a_shadow[x - a_base] & 3) == 1) ++x;
      rt::mem_violation(w ? "write" : "read", x, n);
    }
    own = a_shadow[a - a_base] >> 2;
    if (sched_on) sched_point(a, own != (unsigned)(tls_tid + 1));
  } else if (sched_on) {
    sched_point(a, is_static(a));
  } else if (UNLIKELY(hot_track) && w && is_static(a)) hot_write(a, n);
}
static void acc_range(const void* p, size_t n, bool w) {
  if (tls_sut <= 0 || !n) return;
  uintptr_t a = (uintptr_t)p;
  if (++sec_steps >= next_event) step_event();
  if (UNLIKELY(rz_on)) rz_check(a, n, w);
  if (a - a_base < ARENA) {
    const unsigned char* s = a_shadow + (a - a_base);
    for (size_t i = 0; i < n; ++i)
      if ((s[i] & 3) != 1) rt::mem_violation(w ? "write" : "read", a + i, (unsigned)n);
    if (sched_on) sched_point(a, (s[0] >> 2) != tls_tid + 1);
  } else if (sched_on)
    sched_point(a, is_static(a));
  else if (UNLIKELY(hot_track) && w && is_static(a)) hot_write(a, n);
}

// ------------------------------------------------------------------ instrumentation callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {
  if (tls_sut <= 0) return;
  // the function entered, by its own address
  uintptr_t h = (uintptr_t)__builtin_return_address(0) * 0x9e3779b97f4a7c15ull >> 48;
  shm->fcov[h >> 3] |= 1 << (h & 7);
}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { acc((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { acc((uintptr_t)p, 8, false); }
#define RW(N) \
  void __tsan_read##N(void* a) { acc((uintptr_t)a, N, false); } \
  void __tsan_write##N(void* a) { acc((uintptr_t)a, N, true); } \
  void __tsan_unaligned_read##N(void* a) { acc((uintptr_t)a, N, false); } \
  void __tsan_unaligned_write##N(void* a) { acc((uintptr_t)a, N, true); } \
  void __tsan_volatile_read##N(void* a) { acc((uintptr_t)a, N, false); } \
  void __tsan_volatile_write##N(void* a) { acc((uintptr_t)a, N, true); } \
  void __tsan_unaligned_volatile_read##N(void* a) { acc((uintptr_t)a, N, false); } \
  void __tsan_unaligned_volatile_write##N(void* a) { acc((uintptr_t)a, N, true); } \
  void __tsan_read##N##_pc(void* a, void*) { acc((uintptr_t)a, N, false); } \
  void __tsan_write##N##_pc(void* a, void*) { acc((uintptr_t)a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { acc_range(a, n, false); }
void __tsan_write_range(void* a, size_t n) { acc_range(a, n, true); }
#define AT(BITS, T) \
  T __tsan_atomic##BITS##_load(const volatile T* a, int) { acc((uintptr_t)a, sizeof(T), false); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// the other image
#define KA(N) \
  void __asan_load##N##_noabort(uintptr_t a) { acc(a, N, false); } \
  void __asan_store##N##_noabort(uintptr_t a) { acc(a, N, true); } \
  void __asan_report_load##N##_noabort(uintptr_t a) { if (tls_sut > 0) rz_check(a, N, false); } \
  void __asan_report_store##N##_noabort(uintptr_t a) { if (tls_sut > 0) rz_check(a, N, true); }
KA(1) KA(2) KA(4) KA(8) KA(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { acc_range((void*)a, n, false); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { acc_range((void*)a, n, true); }
void __asan_report_load_n_noabort(uintptr_t a, size_t n) { if (tls_sut > 0) rz_check(a, n, false); }
void __asan_report_store_n_noabort(uintptr_t a, size_t n) { if (tls_sut > 0) rz_check(a, n, true); }
void __asan_handle_no_return() { rz_forget(); }
void __asan_before_dynamic_init(const void*) {}
void __asan_after_dynamic_init() {}
void __asan_init() {}
void __asan_version_mismatch_check_v8() {}
static void rz_object(uintptr_t a, size_t n, size_t whole, int v) { // addressable for n bytes of whole
  rz_set(a, n, 0); size_t k = n & 7; if (k) *rz_at(a + n) = (signed char)k;
  uintptr_t b = (a + n + 7) & ~7ull; if (a + whole > b) rz_set(b, a + whole - b, v);
}
void __asan_poison_stack_memory(uintptr_t a, size_t n) { rz_set(a, n, 0xf8); }
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { rz_object(a, n, n, 0); }
void __asan_alloca_poison(uintptr_t a, size_t n) { rz_set(a - 32, 32, 0xca); rz_object(a, n, ((n + 31) & ~31ull) + 32, 0xcb); }
void __asan_allocas_unpoison(uintptr_t top, uintptr_t bottom) { if (top && bottom > top) rz_set(top, bottom - top, 0); }
struct AsanGlobal { uintptr_t beg; size_t size, whole; const char* name; const char* module; size_t dyn; void* loc; size_t odr; };
void __asan_register_globals(AsanGlobal* g, size_t n) { if (rz_on) for (size_t i = 0; i < n; ++i) if (rz_static(g[i].beg)) rz_object(g[i].beg, g[i].size, g[i].whole, 0xf9); }
void __asan_unregister_globals(AsanGlobal*, size_t) {}
void __real___cxa_throw(void*, void*, void (*)(void*)) __attribute__((noreturn)); void __real___cxa_rethrow() __attribute__((noreturn)); void __real__Unwind_Resume(void*) __attribute__((noreturn));
void __wrap___cxa_throw(void* o, void* t, void (*d)(void*)) { rz_forget(); __real___cxa_throw(o, t, d); }
void __wrap___cxa_rethrow() { rz_forget(); __real___cxa_rethrow(); }
void __wrap__Unwind_Resume(void* e) { rz_forget(); __real__Unwind_Resume(e); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// the C library calls some of these before thread-local storage exists
#define IN_SUT (in_life && tls_sut > 0)
// ---------------------------------------------------------------- checked string functions (--wrap)
int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (IN_SUT) { acc_range(s, n, false); acc_range(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (IN_SUT) { acc_range(s, n, false); acc_range(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (IN_SUT) acc_range(d, n, true); return __real_memset(d, c, n); }
// the bytes a comparison reads end at the first difference
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (IN_SUT) {
    if (rz_on || in_arena(a) || in_arena(b)) {
      const char* x = (const char*)a; const char* y = (const char*)b;
      for (size_t i = 0; i < n; ++i) { acc_range(x + i, 1, false); acc_range(y + i, 1, false); if (x[i] != y[i]) break; }
    }
  }
  return __real_memcmp(a, b, n);
}
void* __wrap_memchr(const void* a, int c, size_t n) {
  if (IN_SUT && (rz_on || in_arena(a))) {
    const char* x = (const char*)a;
    for (size_t i = 0; i < n; ++i) { acc_range(x + i, 1, false); if (x[i] == (char)c) return (void*)(x + i); }
    return 0;
  }
  return __real_memchr(a, c, n);
}
size_t __wrap_strlen(const char* s) {
  if (IN_SUT && (rz_on || in_arena(s))) { size_t i = 0; for (;; ++i) { acc_range(s + i, 1, false); if (!s[i]) return i; } }
  return __real_strlen(s);
}
char* __wrap_strdup(const char* s) {
  size_t n = __wrap_strlen(s) + 1; char* p = (char*)malloc(n); if (p) __wrap_memcpy(p, s, n); return p;
}
char* __real_strcpy(char*, const char*);
char* __wrap_strcpy(char* d, const char* s) { size_t n = __wrap_strlen(s) + 1; return (char*)__wrap_memcpy(d, s, n); }
int __real_strcmp(const char*, const char*);
int __wrap_strcmp(const char* a, const char* b) {
  if (IN_SUT && (rz_on || in_arena(a) || in_arena(b)))
    for (size_t i = 0;; ++i) { acc_range(a + i, 1, false); acc_range(b + i, 1, false); if (a[i] != b[i] || !a[i]) return (unsigned char)a[i] - (unsigned char)b[i]; }
  return __real_strcmp(a, b);
}
}

// the rest of the C string functions: what they read and write is checked first
static void rd_str(const char* s, size_t most) { if (!rz_on && !in_arena(s)) return; for (size_t i = 0; i < most; ++i) { acc_range(s + i, 1, false); if (!s[i]) break; } }
static void rd_num(const char* s, int b) { // up to the first byte that is no part of the number
  if (!rz_on && !in_arena(s)) return;
  size_t i = 0; for (;; ++i) { acc_range(s + i, 1, false); if (!(s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) break; }
  if (s[i] == '-' || s[i] == '+') acc_range(s + ++i, 1, false);
  if ((b == 16 || b == 0) && s[i] == '0') { acc_range(s + ++i, 1, false); if ((s[i] | 32) == 'x') { acc_range(s + ++i, 1, false); b = 16; } else if (!b) b = 8; }
  if (!b) b = 10;
  for (;;) { int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : (s[i] | 32) >= 'a' && (s[i] | 32) <= 'z' ? (s[i] | 32) - 'a' + 10 : 99; if (d >= b) break; acc_range(s + ++i, 1, false); }
}
#define ALL (~(size_t)0)
extern "C" {
int __real_vsnprintf(char*, size_t, const char*, va_list);
static int fmt_into(char* d, size_t cap, const char* f, va_list a) {
  if (!IN_SUT) return __real_vsnprintf(d, cap, f, a);
  va_list b; va_copy(b, a); int s = tls_sut; tls_sut = 0; int n = __real_vsnprintf(0, 0, f, b); tls_sut = s; va_end(b);
  if (n >= 0 && cap) acc_range(d, (size_t)n < cap ? (size_t)n + 1 : cap, true);
  return __real_vsnprintf(d, cap, f, a);
}
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list a) { return fmt_into(d, n, f, a); }
int __wrap_vsprintf(char* d, const char* f, va_list a) { return fmt_into(d, 0x7fffffff, f, a); }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = fmt_into(d, n, f, a); va_end(a); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); int r = fmt_into(d, 0x7fffffff, f, a); va_end(a); return r; }
int __isoc23_vsscanf(const char*, const char*, va_list);
int __wrap___isoc23_sscanf(const char* s, const char* f, ...) { if (IN_SUT) rd_str(s, ALL); va_list a; va_start(a, f); int r = __isoc23_vsscanf(s, f, a); va_end(a); return r; }
int __wrap___isoc99_sscanf(const char* s, const char* f, ...) { if (IN_SUT) rd_str(s, ALL); va_list a; va_start(a, f); int r = vsscanf(s, f, a); va_end(a); return r; }
int __wrap_sscanf(const char* s, const char* f, ...) { if (IN_SUT) rd_str(s, ALL); va_list a; va_start(a, f); int r = vsscanf(s, f, a); va_end(a); return r; }
#define NUMBER(T, F) T __real_##F(const char*, char**, int); T __wrap_##F(const char* s, char** e, int b) { if (IN_SUT) rd_num(s, b); return __real_##F(s, e, b); }
NUMBER(long, strtol) NUMBER(long long, strtoll) NUMBER(unsigned long, strtoul) NUMBER(unsigned long long, strtoull)
NUMBER(long, __isoc23_strtol) NUMBER(long long, __isoc23_strtoll) NUMBER(unsigned long, __isoc23_strtoul) NUMBER(unsigned long long, __isoc23_strtoull)
int __real_atoi(const char*); int __wrap_atoi(const char* s) { if (IN_SUT) rd_num(s, 10); return __real_atoi(s); }
char* __real_strncpy(char*, const char*, size_t);
char* __wrap_strncpy(char* d, const char* s, size_t n) { if (IN_SUT) { rd_str(s, n); acc_range(d, n, true); } return __real_strncpy(d, s, n); }
char* __real_strcat(char*, const char*); char* __real_strncat(char*, const char*, size_t);
char* __wrap_strcat(char* d, const char* s) { if (IN_SUT) { rd_str(d, ALL); rd_str(s, ALL); acc_range(d + strlen(d), strlen(s) + 1, true); } return __real_strcat(d, s); }
char* __wrap_strncat(char* d, const char* s, size_t n) { if (IN_SUT) { rd_str(d, ALL); rd_str(s, n); acc_range(d + strlen(d), strnlen(s, n) + 1, true); } return __real_strncat(d, s, n); }
int __real_strncmp(const char*, const char*, size_t);
int __wrap_strncmp(const char* a, const char* b, size_t n) {
  if (IN_SUT && (rz_on || in_arena(a) || in_arena(b)))
    for (size_t i = 0; i < n; ++i) { acc_range(a + i, 1, false); acc_range(b + i, 1, false); if (a[i] != b[i] || !a[i]) break; }
  return __real_strncmp(a, b, n);
}
#define FIND(F) char* __real_##F(const char*, int); char* __wrap_##F(const char* s, int c) { if (IN_SUT && (rz_on || in_arena(s))) for (size_t i = 0;; ++i) { acc_range(s + i, 1, false); if (!s[i] || (#F[3] == 'c' && s[i] == (char)c)) break; } return __real_##F(s, c); }
FIND(strchr) FIND(strrchr)
char* __real_strstr(const char*, const char*); char* __wrap_strstr(const char* a, const char* b) { if (IN_SUT) { rd_str(a, ALL); rd_str(b, ALL); } return __real_strstr(a, b); }
}

// ------------------------------------------------------------------ scheduler
static void fwait(volatile int* w) {
  while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT, 0, 0, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fwake(volatile int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE, 1, 0, 0, 0); }

static int pick_other(int me, uint64_t r) {
  int c = 0; for (int i = 0; i < nthr; ++i) if (i != me && thrs[i].state == 0) ++c;
  if (!c) return -1;
  int k = (int)(r % c);
  for (int i = 0; i < nthr; ++i) if (i != me && thrs[i].state == 0 && !k--) return i;
  return -1;
}
static void switch_to(int j) {
  int me = tls_tid;
  ss->switches++; since_switch = 0;
  fold(0x5c4ed ^ ((uint64_t)me << 8) ^ j ^ (thrs[me].steps << 16));
  curthr = j;
  int sut = tls_sut;
  fwake(&thrs[j].go);
  fwait(&thrs[me].go);
  tls_sut = sut;
}
static void log_switch(int me, int j) { if (ss->log.size() < 20000) { int s = tls_sut; tls_sut = 0; ss->log.push_back(std::make_pair(me, std::make_pair(thrs[me].steps, j))); tls_sut = s; } }
static uint64_t draw_interval(uint64_t mean) { return 1 + srng->next() % (2 * mean + 1); }
static inline bool is_hot(uintptr_t a, bool shared) { return shared && (!is_static(a) || (hot_any && hot_map[(a - (uintptr_t)&__data_start) >> 3])); }
static void sched_point(uintptr_t a, bool shared) {
  int me = tls_tid; if (me < 0) return;
  Thr& t = thrs[me]; ++t.steps; ++ss->steps; if (shared) ++ss->shared; ++since_switch;
  int j = -1;
  switch (sc->mode) {
    case 0: break;
    case 1: if (--sw_countdown == 0) { sw_countdown = draw_interval(sc->p1); j = pick_other(me, srng->next()); } break;
    case 2:
      if (shared) { if (srng->next() % 1000 < (uint64_t)sc->p1) j = pick_other(me, srng->next()); }
      else if (--sw_countdown == 0) { sw_countdown = draw_interval(sc->p2); j = pick_other(me, srng->next()); }
      break;
    case 3:
      if (chgi < nchg && ss->steps >= chg[chgi]) { t.prio = -(int64_t)chgi - 1; ++chgi; }
      { int best = -1; for (int i = 0; i < nthr; ++i) if (thrs[i].state == 0 && (best < 0 || thrs[i].prio > thrs[best].prio)) best = i; if (best >= 0 && best != me) j = best; }
      break;
    case 4:   // stop before an access to memory that threads may race on, and let the others go far
      if (is_hot(a, shared) && hot_left && srng->next() % 1000 < (uint64_t)sc->p1) { --hot_left; j = pick_other(me, srng->next()); sw_countdown = 1ull << (4 + srng->next() % 14); sw_countdown += srng->next() % sw_countdown; }
      else if (--sw_countdown == 0) { sw_countdown = draw_interval(sc->p2); j = pick_other(me, srng->next()); }
      break;
    case 9:
      while (t.prenext < t.pre->size() && (*t.pre)[t.prenext].first < t.steps) ++t.prenext;
      if (t.prenext < t.pre->size() && (*t.pre)[t.prenext].first == t.steps) { int to = (*t.pre)[t.prenext].second; ++t.prenext; if (to >= 0 && to < nthr && to != me && thrs[to].state == 0) j = to; }
      break;
  }
  if (j < 0 && since_switch > 3000000) { j = pick_other(me, since_switch); if (j >= 0 && sc->mode == 3) t.prio -= 1000; }
  if (j >= 0) { log_switch(me, j); switch_to(j); }
}
// the running thread cannot go on: run another one
static void yield_blocked(const void* on) {
  int me = tls_tid; thrs[me].state = 1; thrs[me].wait = on;
  int j = -1;
  if (sc->mode == 9) { for (int i = 0; i < nthr; ++i) if (i != me && thrs[i].state == 0) { j = i; break; } }
  else j = pick_other(me, srng->next());
  if (j < 0) rt::violation("deadlock", "every simulated thread waits for a lock");
  switch_to(j);
}
// the running thread gives way of its own accord
static void yield_point() {
  if (tls_sut <= 0) return;
  sec_steps += 2000; if (sec_steps >= next_event) step_event();
  int me = tls_tid; if (me < 0 || !sched_on) return;
  Thr& t = thrs[me]; ++t.steps; ++ss->steps; ++since_switch; int j = -1;
  if (sc->mode == 9) {
    while (t.prenext < t.pre->size() && (*t.pre)[t.prenext].first < t.steps) ++t.prenext;
    if (t.prenext < t.pre->size() && (*t.pre)[t.prenext].first == t.steps) { int to = (*t.pre)[t.prenext].second; ++t.prenext; if (to >= 0 && to < nthr && to != me && thrs[to].state == 0) j = to; }
    if (j < 0 && since_switch > 3000000) j = pick_other(me, since_switch);
  }
  else if (sc->mode) { j = pick_other(me, srng->next()); if (sc->mode == 3) t.prio -= 1000; }
  if (j >= 0) { log_switch(me, j); switch_to(j); }
}
static void wake_waiters(const void* on) { if (sched_on) for (int i = 0; i < nthr; ++i) if (thrs[i].state == 1 && thrs[i].wait == on) thrs[i].state = 0; }
static bool simthr() { return sched_on && tls_tid >= 0; }

static void* thr_main(void* p) {
  Thr* t = (Thr*)p; tls_tid = (int)(t - thrs);
  all_done = 1; syscall(SYS_futex, &all_done, FUTEX_WAKE, 1, 0, 0, 0);
  fwait(&t->go);
  // per-thread alternate signal stack
  stack_t a; a.ss_sp = (void*)(STACK_BASE + (size_t)(tls_tid + 9) * STACK_STRIDE); a.ss_size = 64 << 10; a.ss_flags = 0;
  mmap(a.ss_sp, a.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  sigaltstack(&a, 0);
  rt::junk_stack();
  t->body();
  tls_sut = 0; t->state = 2;
  int j = -1; bool waiting = false;
  for (int i = 0; i < nthr; ++i) if (thrs[i].state == 1) waiting = true;
  if (sc->mode == 9 || sc->mode == 0) { for (int i = 0; i < nthr; ++i) if (thrs[i].state == 0) { j = i; break; } }
  else if (sc->mode == 3) { for (int i = 0; i < nthr; ++i) if (thrs[i].state == 0 && (j < 0 || thrs[i].prio > thrs[j].prio)) j = i; }
  else j = pick_other(tls_tid, srng->next());
  if (j >= 0) { curthr = j; since_switch = 0; fwake(&thrs[j].go); }
  else if (waiting) rt::violation("deadlock", "the remaining simulated threads wait for a lock");
  else { all_done = 1; syscall(SYS_futex, &all_done, FUTEX_WAKE, 1, 0, 0, 0); }
  for (;;) { volatile int w = 0; syscall(SYS_futex, &w, FUTEX_WAIT, 0, 0, 0, 0); }
  return 0;
}
static void map_stack(int slot) {
  void* lo = (void*)(STACK_BASE + (size_t)slot * STACK_STRIDE);
  void* r = mmap(lo, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r == MAP_FAILED) { syscall(SYS_write, 2, "sim: no stack\n", 14); _exit(3); }
}
namespace rt {
static void hot_init() { if (!hot_map) { hot_map = (unsigned char*)mmap(0, ((size_t)(&_end - &__data_start) >> 3) + 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); hot_list = new std::vector<uint32_t>(); } }
void track_statics(bool on) { hot_init(); hot_track = on; }
std::string written_statics() { std::string s; char t[16]; hot_init(); for (size_t i = 0; i < hot_list->size() && i < 4000; ++i) { snprintf(t, sizeof t, "%x ", (*hot_list)[i]); s += t; } return s; }
void set_hot(const std::string& l) {
  hot_init(); for (size_t i = 0; i < hot_list->size(); ++i) hot_map[(*hot_list)[i]] = 0; hot_list->clear();
  size_t n = (size_t)(&_end - &__data_start) >> 3; const char* c = l.c_str(); char* e;
  for (;;) { unsigned long v = strtoul(c, &e, 16); if (e == c) break; c = e; if (v < n && !hot_map[v]) { hot_map[v] = 1; hot_list->push_back((uint32_t)v); } }
  hot_any = !hot_list->empty();
}
SchedStats run_threads(const SchedCfg& cfg, const std::vector<std::function<void()> >& bodies) {
  SchedStats st; st.switches = st.steps = st.shared = 0;
  Rng rng(cfg.seed ? cfg.seed : 1);
  SchedCfg local = cfg;
  sc = &local; ss = &st; srng = &rng; nthr = (int)bodies.size();
  std::vector<Thr> tv(nthr); thrs = tv.data();
  std::vector<std::vector<std::pair<uint64_t,int> > > pre(nthr);
  for (size_t i = 0; i < cfg.pre.size(); ++i) { int t = cfg.pre[i].first; if (t >= 0 && t < nthr) pre[t].push_back(cfg.pre[i].second); }
  std::vector<uint64_t> cp;
  if (cfg.mode == 3) { for (int i = 0; i < cfg.p1; ++i) cp.push_back(1 + rng.below(cfg.p2 > 0 ? cfg.p2 : 20000)); std::sort(cp.begin(), cp.end()); }
  chg = cp.data(); nchg = cp.size(); chgi = 0;
  sw_countdown = cfg.mode == 1 ? draw_interval(cfg.p1) : cfg.mode == 2 || cfg.mode == 4 ? draw_interval(cfg.p2) : ~0ull; hot_left = cfg.mode == 4 ? 1 + rng.below(8) : 0;
  for (int i = 0; i < nthr; ++i) {
    Thr& t = thrs[i]; t.state = 0; t.go = 0; t.steps = 0; t.prio = (int64_t)rng.below(1000000) + 1; t.wait = 0; t.body = bodies[i]; t.prenext = 0; t.pre = &pre[i];
    pthread_attr_t at; pthread_attr_init(&at);
    char* lo = (char*)(STACK_BASE + (size_t)(i + 1) * STACK_STRIDE);
    pthread_attr_setstack(&at, lo, STACK_SIZE - (size_t)CFG.soff * 16 * 256);
    all_done = 0;
    if (pthread_create(&t.th, &at, thr_main, &t)) { syscall(SYS_write, 2, "sim: no thread\n", 15); _exit(3); }
    while (!all_done) syscall(SYS_futex, &all_done, FUTEX_WAIT, 0, 0, 0, 0);
  }
  all_done = 0; sched_on = true;
  int first = cfg.mode == 0 || cfg.mode == 9 ? 0 : (int)rng.below(nthr);
  if (cfg.mode == 3) { first = 0; for (int i = 1; i < nthr; ++i) if (thrs[i].prio > thrs[first].prio) first = i; }
  if (cfg.mode == 9) for (size_t i = 0; i < cfg.pre.size(); ++i) if (cfg.pre[i].first == -1) first = cfg.pre[i].second.second % nthr;
  st.log.push_back(std::make_pair(-1, std::make_pair((uint64_t)0, first)));
  curthr = first; fwake(&thrs[first].go);
  while (!all_done) syscall(SYS_futex, &all_done, FUTEX_WAIT, 0, 0, 0, 0);
  sched_on = false;
  // the threads stay parked; their stacks and Thr records stay with the life
  std::vector<Thr>* keep = new std::vector<Thr>(); keep->swap(tv);
  return st;
}
}

static uint64_t sim_ns;
// locks taken by simulated threads (libcrypto's, libstdc++'s and the system's own)
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!simthr()) return __real_pthread_mutex_lock(m);
  if (tls_sut > 0) sched_point((uintptr_t)m, true);
  for (;;) { int r = __real_pthread_mutex_trylock(m); if (r != EBUSY) return r; yield_blocked(m); }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (simthr() && tls_sut > 0) sched_point((uintptr_t)m, true); return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); if (simthr()) { wake_waiters(m); } return r; }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!simthr()) return __real_pthread_rwlock_rdlock(m);
  for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; yield_blocked(m); }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!simthr()) return __real_pthread_rwlock_wrlock(m);
  for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; yield_blocked(m); }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_unlock(m); if (simthr()) wake_waiters(m); return r; }
int __real_pthread_spin_lock(pthread_spinlock_t*); int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) {
  if (!simthr()) return __real_pthread_spin_lock(m);
  for (;;) { int r = pthread_spin_trylock(m); if (r != EBUSY) return r; yield_blocked((const void*)m); }
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { int r = __real_pthread_spin_unlock(m); if (simthr()) wake_waiters((const void*)m); return r; }
// conditions and semaphores
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!simthr()) return __real_pthread_cond_wait(c, m);
  if (tls_sut > 0) sched_point((uintptr_t)c, true);   // before it waits, a notice can be missed
  __wrap_pthread_mutex_unlock(m); yield_blocked(c); return __wrap_pthread_mutex_lock(m);
}
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
static int timed_out(pthread_mutex_t* m, const struct timespec* ts) { __wrap_pthread_mutex_unlock(m); yield_point(); uint64_t v = ts->tv_sec * 1000000000ull + ts->tv_nsec; if (sim_ns < v) sim_ns = v; __wrap_pthread_mutex_lock(m); return ETIMEDOUT; }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return in_life ? timed_out(m, ts) : __real_pthread_cond_timedwait(c, m, ts); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return in_life ? timed_out(m, ts) : __real_pthread_cond_clockwait(c, m, k, ts); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!simthr()) return __real_pthread_cond_signal(c); for (int i = 0; i < nthr; ++i) if (thrs[i].state == 1 && thrs[i].wait == c) { thrs[i].state = 0; break; } return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!simthr()) return __real_pthread_cond_broadcast(c); wake_waiters(c); return 0; }
int __real_sem_wait(sem_t*); int __real_sem_post(sem_t*);
int __wrap_sem_wait(sem_t* m) { if (!simthr()) return __real_sem_wait(m); if (tls_sut > 0) sched_point((uintptr_t)m, true); while (sem_trywait(m)) yield_blocked(m); return 0; }
int __wrap_sem_post(sem_t* m) { int r = __real_sem_post(m); if (simthr()) wake_waiters(m); return r; }
int __real_sched_yield(); int __wrap_sched_yield() { if (!in_life || tls_sut <= 0) return __real_sched_yield(); yield_point(); return 0; }
static bool nap(uint64_t ns) { if (!in_life || tls_sut <= 0) return false; rt::count("seam.clock"); sim_ns += ns; yield_point(); return true; }
int __real_nanosleep(const struct timespec*, struct timespec*); int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { return nap(a->tv_sec * 1000000000ull + a->tv_nsec) ? 0 : __real_nanosleep(a, b); }
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*); int __wrap_clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) { return nap(a->tv_sec * 1000000000ull + a->tv_nsec) ? 0 : __real_clock_nanosleep(k, f, a, b); }
int __real_usleep(useconds_t); int __wrap_usleep(useconds_t u) { return nap(u * 1000ull) ? 0 : __real_usleep(u); }
unsigned __real_sleep(unsigned); unsigned __wrap_sleep(unsigned u) { return nap(u * 1000000000ull) ? 0 : __real_sleep(u); }
// once: 0 new, 1 running, 2 done (static initialiser is 0)
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  volatile int* s = (volatile int*)o;
  for (;;) {
    if (*s == 2) return 0;
    if (*s == 0) {
      *s = 1;
      try { f(); } catch (...) { *s = 0; wake_waiters(o); throw; }
      *s = 2; wake_waiters(o); return 0;
    }
    if (simthr()) yield_blocked(o); else sched_yield();
  }
}
// function-local statics: byte 0 done, byte 1 in progress
int __wrap___cxa_guard_acquire(uint64_t* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; if (simthr() && tls_sut > 0) sched_point((uintptr_t)g, true); return 1; }
    if (simthr()) yield_blocked(g); else sched_yield();
  }
}
void __wrap___cxa_guard_release(uint64_t* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[0] = 1; b[1] = 0; if (simthr()) wake_waiters(g); }
void __wrap___cxa_guard_abort(uint64_t* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; if (simthr()) wake_waiters(g); }
}

// ------------------------------------------------------------------ seams: time, identity, entropy, environment
static rt::Rng* env_rng;
static int ent_fail; static uint64_t ent_draws, n_prompts; static std::string* prompt_answer;
static bool env_seam() { return in_life && tls_sut > 0; }
static uint64_t env_next() { return env_rng->next(); }
static uint64_t clock_now() {
  // clocks of different nodes differ, advance unevenly and sometimes jump
  uint64_t r = env_next(); sim_ns += r % 5000000; if (r >> 60 == 0) sim_ns += (uint64_t)3600 * 1000000000ull * (r >> 32 & 1023); if (r >> 60 == 1 && sim_ns > 7200000000000ull) sim_ns -= 3600000000000ull;
  return sim_ns;
}
extern "C" {
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) { if (!env_seam()) return __real_time(t); rt::count("seam.clock"); time_t v = clock_now() / 1000000000ull; if (t) *t = v; return v; }
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if (!env_seam()) return __real_clock_gettime(c, ts); rt::count("seam.clock"); uint64_t v = clock_now(); ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0; }
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* z) { if (!env_seam()) return __real_gettimeofday(tv, z); rt::count("seam.clock"); uint64_t v = clock_now(); tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000; return 0; }
int __real_getrusage(int, struct rusage*); int __wrap_getrusage(int w, struct rusage* u) { int r = __real_getrusage(w, u); if (env_seam()) { u->ru_maxrss = CFG.env % 4000000; u->ru_minflt = env_next() % 100000; u->ru_majflt = env_next() % 100; u->ru_nvcsw = env_next() % 10000; u->ru_nivcsw = env_next() % 10000; u->ru_utime.tv_sec = 0; u->ru_utime.tv_usec = clock_now() % 1000000; u->ru_stime = u->ru_utime; } return r; }
char* __real_getcwd(char*, size_t); char* __wrap_getcwd(char* b, size_t n) { if (!env_seam() || !b || n < 32) return __real_getcwd(b, n); snprintf(b, n, "/srv/node%u", (unsigned)(CFG.env % 1000)); return b; }
int __real_sched_getcpu(); int __wrap_sched_getcpu() { return env_seam() ? (int)(env_next() % 64) : __real_sched_getcpu(); }
clock_t __real_clock(); clock_t __wrap_clock() { return env_seam() ? (clock_t)(clock_now() / 1000) : __real_clock(); }
clock_t __real_times(struct tms*); clock_t __wrap_times(struct tms* t) { if (!env_seam()) return __real_times(t); t->tms_utime = clock_now() / 10000000; t->tms_stime = t->tms_cutime = t->tms_cstime = 0; return t->tms_utime; }
pid_t __real_getpid(); pid_t __wrap_getpid() { if (!env_seam()) return __real_getpid(); rt::count("seam.identity"); return 2 + CFG.env % 30000; }
pid_t __real_getppid(); pid_t __wrap_getppid() { return env_seam() ? (pid_t)(2 + CFG.env / 7 % 30000) : __real_getppid(); }
pid_t __real_gettid(); pid_t __wrap_gettid() { return env_seam() ? (pid_t)(2 + CFG.env % 30000) : __real_gettid(); }
uid_t __real_getuid(); uid_t __wrap_getuid() { return env_seam() ? (uid_t)(CFG.env / 11 % 3000) : __real_getuid(); }
uid_t __real_geteuid(); uid_t __wrap_geteuid() { return env_seam() ? (uid_t)(CFG.env / 11 % 3000) : __real_geteuid(); }
int __real_gethostname(char*, size_t); int __wrap_gethostname(char* b, size_t n) { if (!env_seam()) return __real_gethostname(b, n); snprintf(b, n, "node%u", (unsigned)(CFG.env % 1000)); return 0; }
int __real_uname(struct utsname*); int __wrap_uname(struct utsname* u) { int r = __real_uname(u); if (env_seam()) { snprintf(u->nodename, sizeof u->nodename, "node%u", (unsigned)(CFG.env % 1000)); snprintf(u->release, sizeof u->release, "%u.%u", (unsigned)(CFG.env % 7), (unsigned)(CFG.env % 13)); } return r; }
long __real_sysconf(int); long __wrap_sysconf(int n) { if (env_seam() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return 1 + CFG.env % 64; return __real_sysconf(n); }
int __real_get_nprocs(); int __wrap_get_nprocs() { return env_seam() ? (int)(1 + CFG.env % 64) : __real_get_nprocs(); }
char* __real_getenv(const char*);
static char envbuf[64];
char* __wrap_getenv(const char* k) {
  if (!env_seam()) return __real_getenv(k);
  rt::count("seam.getenv");
  uint64_t h = CFG.env; for (const char* c = k; *c; ++c) h = rt::mix(h, (unsigned char)*c);
  switch (h % 9) { case 0: case 1: return 0; case 2: return (char*)"1"; case 3: return (char*)""; case 4: return (char*)"C"; case 5: return (char*)"en_US.UTF-8"; case 6: return (char*)"/srv/node"; case 7: return (char*)"yes"; default: snprintf(envbuf, sizeof envbuf, "%u", (unsigned)(h >> 20) % 100000); return envbuf; }
}
char* __wrap_secure_getenv(const char* k) { return __wrap_getenv(k); }
int __real_rand(); int __wrap_rand() { if (!env_seam()) return __real_rand(); rt::count("seam.random"); return (int)(env_next() & 0x7fffffff); }
long __real_random(); long __wrap_random() { if (!env_seam()) return __real_random(); rt::count("seam.random"); return (long)(env_next() & 0x7fffffff); }
double __real_drand48(); double __wrap_drand48() { return env_seam() ? (env_next() >> 11) * (1.0 / 9007199254740992.0) : __real_drand48(); }
long __real_lrand48(); long __wrap_lrand48() { return env_seam() ? (long)(env_next() & 0x7fffffff) : __real_lrand48(); }
ssize_t __real_getrandom(void*, size_t, unsigned);
ssize_t __wrap_getrandom(void* b, size_t n, unsigned f) { if (!env_seam()) return __real_getrandom(b, n, f); rt::count("seam.random"); for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = env_next(); return n; }
int __real_getentropy(void*, size_t);
int __wrap_getentropy(void* b, size_t n) { if (!env_seam()) return __real_getentropy(b, n); for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = env_next(); return 0; }
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* t) { if (!env_seam()) return __real__ZNSt13random_device9_M_getvalEv(t); rt::count("seam.random"); return (unsigned)env_next(); }
int __real_isatty(int); int __wrap_isatty(int fd) { return env_seam() ? (int)(CFG.env >> 5 & 1) : __real_isatty(fd); }

// files: whatever is opened holds bytes the node's environment decides
static bool env_exists(const char* p) {
  if (p && !__builtin_strncmp(p, "/dev/", 5)) return true;
  uint64_t h = CFG.env; for (const char* c = p; c && *c; ++c) h = rt::mix(h, (unsigned char)*c);
  if (h & 1) return true;
  errno = ENOENT; return false;
}
static int env_file(const char* p) {
  rt::count("seam.file"); if (!env_exists(p)) return -1;
  int fd = (int)syscall(SYS_memfd_create, "env", 0); if (fd < 0) return fd;
  char b[4096]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)env_next();
  syscall(SYS_write, fd, b, sizeof b); lseek(fd, 0, SEEK_SET); return fd;
}
static FILE* env_stream(const char* p) { int fd = env_file(p); return fd < 0 ? 0 : fdopen(fd, "r+"); }
int __real_open(const char*, int, ...); int __wrap_open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return env_seam() ? env_file(p) : __real_open(p, f, m); }
int __real_open64(const char*, int, ...); int __wrap_open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return env_seam() ? env_file(p) : __real_open64(p, f, m); }
FILE* __real_fopen(const char*, const char*); FILE* __wrap_fopen(const char* p, const char* m) { return env_seam() ? env_stream(p) : __real_fopen(p, m); }
FILE* __real_fopen64(const char*, const char*); FILE* __wrap_fopen64(const char* p, const char* m) { return env_seam() ? env_stream(p) : __real_fopen64(p, m); }
static int env_stat(const char* p, struct stat* st) {
  rt::count("seam.file"); if (!env_exists(p)) return -1;
  memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = env_next() % 5000; st->st_ino = env_next() % 100000; st->st_mtime = st->st_ctime = st->st_atime = sim_ns / 1000000000ull; return 0;
}
int __real_stat(const char*, struct stat*); int __wrap_stat(const char* p, struct stat* st) { return env_seam() ? env_stat(p, st) : __real_stat(p, st); }
int __real_lstat(const char*, struct stat*); int __wrap_lstat(const char* p, struct stat* st) { return env_seam() ? env_stat(p, st) : __real_lstat(p, st); }
int __real_access(const char*, int); int __wrap_access(const char* p, int m) { if (!env_seam()) return __real_access(p, m); return env_exists(p) ? 0 : -1; }
// the node's time zone
static time_t zoned(const time_t* t) { return *t + (time_t)(CFG.env % 27) * 3600 - 12 * 3600; }
struct tm* __real_localtime(const time_t*); struct tm* __wrap_localtime(const time_t* t) { if (!env_seam()) return __real_localtime(t); rt::count("seam.clock"); time_t z = zoned(t); return gmtime(&z); }
struct tm* __real_localtime_r(const time_t*, struct tm*); struct tm* __wrap_localtime_r(const time_t* t, struct tm* o) { if (!env_seam()) return __real_localtime_r(t, o); rt::count("seam.clock"); time_t z = zoned(t); return gmtime_r(&z, o); }
char* __real_setlocale(int, const char*); char* __wrap_setlocale(int k, const char* l) { if (!env_seam() || l) return __real_setlocale(k, l); static char names[3][16] = { "C", "de_DE.UTF-8", "de_DE.ISO8859" }; return names[CFG.loc % 3]; }
}
// the environment block of the node
static void env_block() {
  static char text[8][32]; static char* block[9]; static const char* const names[8] = { "LANG", "HOME", "USER", "TZ", "PATH", "DEBUG", "LC_ALL", "TMPDIR" };
  int n = 0; for (int i = 0; i < 8; ++i) { uint64_t h = rt::mix(CFG.env, i); if (h & 1) continue; snprintf(text[n], sizeof text[n], "%s=%s", names[i], h & 2 ? "C" : h & 4 ? "1" : "/srv/node"); block[n] = text[n]; ++n; }
  block[n] = 0; environ = block;
}
extern "C" {

// ---------------------------------------------------------------- exit
void __real_exit(int) __attribute__((noreturn)); void __wrap_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
  if (!in_life || tls_sut <= 0) __real_exit(c);
  char t[32]; snprintf(t, sizeof t, "exit:%d", c & 255);
  tls_sut = 0; rt::flush_std();
  if (!rt::out_seen().empty()) rt::record("stdout:" + rt::out_seen());
  rt::end_life(t, "");
}
void __wrap__exit(int) __attribute__((noreturn));
void __wrap__exit(int c) {
  if (in_life && tls_sut > 0) { char t[32]; snprintf(t, sizeof t, "exit:%d", c & 255); tls_sut = 0; if (!rt::out_seen().empty()) rt::record("stdout:" + rt::out_seen()); rt::end_life(t, "_exit"); }
  for (;;) syscall(SYS_exit_group, c);
}
void __wrap_quick_exit(int) __attribute__((noreturn));
void __wrap_quick_exit(int c) { __wrap__exit(c); }

// ---------------------------------------------------------------- write
static std::string* cap_out; static std::string* cap_err; static rt::OutFault ofault; static uint64_t of_fired; static bool of_eintr;
static ssize_t sim_write(int fd, const void* b, size_t n) {
  if (in_life && (fd == 1 || fd == 2) && cap_out) {
    int s = tls_sut; tls_sut = 0; ssize_t r = (ssize_t)n;
    if (fd == 2) { if (cap_err->size() < 65536) cap_err->append((const char*)b, n); }
    else {
      uint64_t have = cap_out->size(), at = ofault.at; size_t take = n; int e = 0;
      switch (ofault.kind) {
        case 1: if (n > 1 && have <= at) { take = have + n > at && at > have ? (size_t)(at - have) : (n + 1) / 2; if (take > n) take = n; if (!take) take = 1; if (take < n) { ++of_fired; rt::count("fault.short_write"); } } break;
        case 8: if (n > 1) { take = 1; ++of_fired; rt::count("fault.short_write"); } break;
        case 2: if (!of_eintr && have + n > at) { if (have < at) take = (size_t)(at - have); else { of_eintr = true; e = EINTR; ++of_fired; rt::count("fault.eintr"); } } break;
        case 3: case 4: case 5: case 6: case 7: {
          static const int en[] = { ENOSPC, EPIPE, EIO, EAGAIN, EBADF };
          static const char* nm[] = { "fault.enospc", "fault.epipe", "fault.eio", "fault.eagain", "fault.ebadf" };
          if (have >= at) { e = en[ofault.kind - 3]; ++of_fired; rt::count(nm[ofault.kind - 3]); }
          else if (have + n > at) { take = (size_t)(at - have); }
          break;
        }
      }
      if (e) { errno = e; r = -1; } else { cap_out->append((const char*)b, take); r = (ssize_t)take; }
      fold(0x3417e ^ (uint64_t)r);
    }
    tls_sut = s;
    return r;
  }
  long r = syscall(SYS_write, fd, b, n); return r;
}
ssize_t write(int fd, const void* b, size_t n) { return sim_write(fd, b, n); }
ssize_t __write(int fd, const void* b, size_t n) { return sim_write(fd, b, n); }
ssize_t __libc_write(int fd, const void* b, size_t n) { return sim_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  ssize_t tot = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : r;
    tot += r; if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}

// ---------------------------------------------------------------- loader
static std::function<void*(const char*)>* ld_open; static std::function<void*(void*, const char*)>* ld_sym; static int ld_handles;
void* __wrap_dlopen(const char* p, int f) { rt::Host h; void* r = ld_open && (f & (RTLD_LAZY | RTLD_NOW)) && !((f & RTLD_NOLOAD) && !ld_handles) ? (*ld_open)(p) : 0; if (r) ++ld_handles; return r; }
void* __wrap_dlsym(void* h_, const char* n) { rt::Host h; return ld_sym ? (*ld_sym)(h_, n) : 0; }
int __wrap_dlclose(void*) { --ld_handles; return 0; }
char* __wrap_dlerror() { return (char*)"simulated loader error"; }
}

// ------------------------------------------------------------------ libcrypto seams
static int r_bytes(unsigned char* b, int n) {
  ++ent_draws;
  if (ent_fail) { rt::count("fault.entropy"); return 0; }
  if (!in_life) { static rt::Rng z(42); for (int i = 0; i < n; ++i) b[i] = (unsigned char)z.next(); return 1; }
  for (int i = 0; i < n; ++i) b[i] = (unsigned char)env_next();
  return 1;
}
static int r_status() { return 1; }
static int r_seed(const void*, int) { return 1; }
static int r_add(const void*, int, double) { return 1; }
static void r_clean() {}
static RAND_METHOD rmeth = { r_seed, r_bytes, r_clean, r_add, r_bytes, r_status };
static int ui_open(UI*) { return 1; }
static int ui_write(UI*, UI_STRING*) { return 1; }
static int ui_flush(UI*) { return 1; }
static int ui_read(UI* ui, UI_STRING* s) {
  ++n_prompts; if (in_life) rt::count("seam.terminal_prompt");
  return UI_set_result(ui, s, prompt_answer ? prompt_answer->c_str() : "") >= 0 ? 1 : 0;
}
static int ui_close(UI*) { return 1; }

// ------------------------------------------------------------------ rt API
namespace rt {
uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = (a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

Sut::Sut() { m_Old = tls_sut; tls_sut = 1; }
Sut::~Sut() { tls_sut = m_Old; }
Host::Host() { m_Old = tls_sut; tls_sut = 0; }
Host::~Host() { tls_sut = m_Old; }
bool in_sut() { return tls_sut > 0; }

void record(const std::string& s) {
  Host h;
  uint32_t n = (uint32_t)s.size();
  for (size_t i = 0; i < s.size(); ++i) fold((unsigned char)s[i]);
  fold(0x4ec);
  if (shm->reclen + 4 + n > RECBUF) { violation("sim:record-overflow", "too much recorded"); }
  memcpy(shm->rec + shm->reclen, &n, 4); memcpy(shm->rec + shm->reclen + 4, s.data(), n); shm->reclen += 4 + n;
}
void trace(uint64_t v) { fold(v); }
void set_op(int op) { tot_steps += sec_steps; fold(sec_steps); sec_steps = 0; cur_op = op; kill_at = 0; recalc_event(); if (in_life) errno = CFG.env % 3 ? (int)(CFG.env / 3 % 134) : 0; }
void set_budget(uint64_t b) { budget = b; recalc_event(); }
void set_kill(uint64_t k) { kill_at = k ? sec_steps + k : 0; recalc_event(); }
uint64_t section_steps() { return sec_steps; }
uint64_t life_steps() { return tot_steps + sec_steps; }

void fault_arm(FaultMode m, uint64_t at) { f_mode = m; f_at = at ? at : 1; f_base = n_allocs; f_fired = 0; }
uint64_t fault_disarm() {
  static const char* nm[] = { "", "fault.alloc_once", "fault.alloc_lasting", "fault.alloc_periodic", "fault.alloc_large" };
  if (f_fired) count(nm[f_mode], 1);
  uint64_t n = f_fired; f_mode = FM_NONE; f_fired = 0; return n;
}
uint64_t alloc_count() { return n_allocs; }
uint64_t live_bytes() { return st_live; }
uint64_t live_blocks() { return st_blocks; }
uint64_t crypto_live_bytes() { return cr_live; }
void* node_alloc(size_t n) { return n_alloc(n, 3); }
void node_free(void* p) { if (p) n_free(p, 3); }
bool is_node_ptr(const void* p) { return in_arena(p); }
bool is_live_block(const void* p, size_t* size, int* kind) {
  if (!in_arena(p)) return false;
  Blk* b = blk_of((void*)p); if (!b || !b->live) return false;
  if (size) *size = b->size; if (kind) *kind = b->kind; return true;
}
void mark_live() { live_mark = n_allocs; }
std::string describe_live(int max) {
  std::string s; int n = 0;
  for (uint32_t i = 0; i < nblks && n < max; ++i) if (blks[i].live && blks[i].kind != 3 && blks[i].seq > live_mark) {
    char t[80]; snprintf(t, sizeof t, "%s%zu bytes(%s, op %d)", n ? ", " : "", blks[i].size, kindname(blks[i].kind), blks[i].op); s += t; ++n; }
  return s;
}
char* place_text(const std::string& s) {
  char* p = (char*)n_alloc(s.size() + 1, 3); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p;
}
void entropy_fail(int on) { ent_fail = on; }
uint64_t entropy_draws() { return ent_draws; }
uint64_t prompts() { return n_prompts; }
void set_prompt_answer(const std::string& s) { if (!prompt_answer) prompt_answer = new std::string(); *prompt_answer = s; }

void out_begin(const OutFault& f) { ofault = f; of_fired = 0; of_eintr = false; cap_out->clear(); cap_err->clear(); }
std::string out_end() { ofault.kind = 0; return *cap_out; }
const std::string& out_seen() { static const std::string none; return cap_out ? *cap_out : none; }
std::string err_text() { return *cap_err; }
uint64_t out_faults_fired() { return of_fired; }
void flush_std() { std::cout.flush(); fflush(stdout); }
void set_loader(const std::function<void*(const char*)>& o, const std::function<void*(void*, const char*)>& s) {
  ld_open = new std::function<void*(const char*)>(o); ld_sym = new std::function<void*(void*, const char*)>(s); ld_handles = 0;
}
int dl_open_handles() { return ld_handles; }

static bool counting = true;
void count(const char* name, uint64_t n) {
  if (!shm || !counting) return;
  for (uint32_t i = 0; i < shm->ncnt; ++i) if (!strcmp(shm->cnt[i].name, name)) { shm->cnt[i].n += n; return; }
  if (shm->ncnt < NCOUNT) { strncpy(shm->cnt[shm->ncnt].name, name, 47); shm->cnt[shm->ncnt].n = n; ++shm->ncnt; }
}
void cover(uint64_t k) { if (!counting) return; uint32_t h = (uint32_t)(mix(k, 7) & ((1 << 17) - 1)); shm->cov[h >> 3] |= 1 << (h & 7); }
static uint64_t pop(const unsigned char* p, size_t n) { uint64_t c = 0; for (size_t i = 0; i < n; ++i) c += __builtin_popcount(p[i]); return c; }
uint64_t covered_states() { return pop(shm->cov, sizeof shm->cov); }
uint64_t covered_functions() { return pop(shm->fcov, sizeof shm->fcov); }
const unsigned char* cover_bits(size_t* n) { *n = sizeof shm->cov + sizeof shm->fcov; return shm->cov; }
void set_counting(bool on) { counting = on; }
std::map<std::string, uint64_t> snapshot_counts() { std::map<std::string, uint64_t> m; for (uint32_t i = 0; i < shm->ncnt; ++i) m[shm->cnt[i].name] += shm->cnt[i].n; return m; }

// ---- environment
NodeCfg::NodeCfg() : base(0), fill(0), ffill(257), reuse(1), rmove(0), pad(0), stack(257), soff(0), env(1), loc(0) {}
Line NodeCfg::line(const std::string& w) const {
  Line l(w); l.set("base", base).set("fill", fill).set("ffill", ffill).set("reuse", reuse).set("rmove", rmove).set("pad", pad).set("stack", stack).set("soff", soff).set("env", (long long)env).set("loc", loc); return l;
}
NodeCfg NodeCfg::from(const Line& l) {
  NodeCfg c; c.base = l.num("base") & 1; c.fill = l.num("fill"); c.ffill = l.num("ffill", 257); c.reuse = l.num("reuse", 1); c.rmove = l.num("rmove"); c.pad = l.num("pad") & 15; c.stack = l.num("stack", 257); c.soff = l.num("soff") & 15; c.env = l.num("env", 1); c.loc = l.num("loc"); return c;
}
NodeCfg NodeCfg::random(Rng& r) {
  static const int fills[] = { 0, 255, 0xa5, 'A', '"', '1', ',', ']', 1, 0x80, 256, 256, 257, 0, '0' };
  NodeCfg c; c.base = (int)r.below(2); c.fill = fills[r.below(15)]; c.ffill = r.chance(1, 3) ? 257 : fills[r.below(15)]; c.reuse = (int)r.below(2); c.rmove = (int)r.below(2);
  c.pad = r.chance(1, 2) ? 0 : (int)r.below(8); c.stack = r.chance(1, 4) ? 257 : fills[r.below(12)]; c.soff = (int)r.below(16); c.env = 1 + r.below(1000000000); c.loc = r.chance(1, 2) ? 0 : r.range(1, 2); return c;
}

// the C library's character classes in an 8-bit locale (ISO 8859-1), when the node's locale has other classes
} // namespace rt
static bool latin() { return tls_sut > 0 && CFG.loc == 2; }
static int hi(int c) { return c >= -128 && c < -1 ? c + 256 : c; }   // -1 is EOF
enum { CT_UP = 1, CT_LO = 2, CT_SP = 4, CT_PU = 8, CT_CN = 16 };
static int ct(int c) { c = hi(c); if (c < 128 || c > 255) return 0; if (c < 0xa0) return CT_CN; if (c == 0xa0) return CT_SP; if (c == 0xaa || c == 0xba || c == 0xb5) return CT_LO; if (c < 0xc0 || c == 0xd7 || c == 0xf7) return CT_PU; return c < 0xdf ? CT_UP : CT_LO; }
#define CLS(f, bits) int __real_##f(int); int __wrap_##f(int c) { return __real_##f(c) || (latin() && (ct(c) & (bits))); }
extern "C" {
CLS(isalpha, CT_UP | CT_LO) CLS(isupper, CT_UP) CLS(islower, CT_LO) CLS(isalnum, CT_UP | CT_LO) CLS(isspace, CT_SP) CLS(isprint, CT_UP | CT_LO | CT_SP | CT_PU) CLS(isgraph, CT_UP | CT_LO | CT_PU)
CLS(ispunct, CT_PU) CLS(iscntrl, CT_CN) CLS(isblank, CT_SP) CLS(isdigit, 0) CLS(isxdigit, 0)
int __real_tolower(int); int __wrap_tolower(int c) { return latin() && ct(c) == CT_UP ? hi(c) + 32 : __real_tolower(c); }
int __real_toupper(int); int __wrap_toupper(int c) { return latin() && ct(c) == CT_LO && hi(c) >= 0xe0 && hi(c) != 0xff ? hi(c) - 32 : __real_toupper(c); }
}
namespace rt {
struct Punct : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
struct Ctype : std::ctype<char> {
  static const mask* table() {
    static mask t[256]; const mask* c = classic_table();
    for (int i = 0; i < 256; ++i) t[i] = c[i];
    t[0xa0] |= space | blank; for (int i = 0xc0; i < 256; ++i) t[i] |= alpha | (i >= 0xe0 ? lower : upper) | print | graph;
    t[0xb2] |= digit; t[0xb3] |= digit; t[0xb9] |= digit;
    return t;
  }
  Ctype() : std::ctype<char>(table()) {}
  char do_toupper(char c) const override { unsigned char u = c; return u >= 0xe0 ? (char)(u - 32) : std::ctype<char>::do_toupper(c); }
  char do_tolower(char c) const override { unsigned char u = c; return u >= 0xc0 && u < 0xe0 ? (char)(u + 32) : std::ctype<char>::do_tolower(c); }
};
void install_locale(int kind) {
  Host h;
  if (kind == 0) return;
  std::locale l(std::locale::classic(), new Punct);
  if (kind == 2) l = std::locale(l, new Ctype);
  std::locale::global(l);
  count("env.locale");
}
__attribute__((noinline)) void junk_stack() {
  if (CFG.stack == 257) return;
  volatile char buf[400 << 10];
  if (CFG.stack < 256) __real_memset((void*)buf, CFG.stack, sizeof buf);
  else { uint64_t z = CFG.env; for (size_t i = 0; i + 8 <= sizeof buf; i += 8) { z = z * 6364136223846793005ull + 1442695040888963407ull; *(volatile uint64_t*)(buf + i) = z ^ z >> 33; } }
  __asm__ volatile("" ::"r"(buf) : "memory");
}

// ---- lives
static void on_signal(int sig, siginfo_t* si, void* uc) {
  if (sig == SIGSEGV) { // reading the time-stamp counter
    ucontext_t* u = (ucontext_t*)uc; const unsigned char* ip = (const unsigned char*)u->uc_mcontext.gregs[REG_RIP];
    uintptr_t x = (uintptr_t)ip;
    if (x - 0x70000000ull < 0x8000000ull) {
      int len = ip[0] == 0x0f && ip[1] == 0x31 ? 2 : ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9 ? 3 : 0;
      if (len) {
        uint64_t v = clock_now();
        u->uc_mcontext.gregs[REG_RAX] = (uint32_t)v; u->uc_mcontext.gregs[REG_RDX] = v >> 32;
        if (len == 3) u->uc_mcontext.gregs[REG_RCX] = 0;
        u->uc_mcontext.gregs[REG_RIP] += len; count("seam.clock"); return;
      }
    }
  }
  bool sut = tls_sut > 0; int t = tls_tid;
  tls_sut = 0;
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGTRAP ? "SIGTRAP" : sig == SIGXCPU ? "SIGXCPU" : "signal";
  if (sig == SIGXCPU) end_life("hang", "CPU limit of the simulated process");
  uintptr_t a = (uintptr_t)si->si_addr; char d[120];
  bool so = false;
  for (int i = 0; i < 9; ++i) { uintptr_t lo = STACK_BASE + (size_t)i * STACK_STRIDE; if (sig == SIGSEGV && a < lo && a + (1 << 20) > lo) so = true; }
  snprintf(d, sizeof d, "op %d%s%s%s", cur_op, sut ? "" : " (outside the system under test)", so ? " stack overflow" : (sig == SIGSEGV && a < 65536) ? " near null" : "", t >= 0 ? " in a caller thread" : "");
  end_life(sut ? std::string("crash:") + n : std::string("simcrash:") + n, d);
}
// no instrumented access and no allocation for seconds of processor time
static void on_tick(int) {
  static uint64_t seen; static int same;
  uint64_t now = (tot_steps + sec_steps) * 1000003 + n_allocs;
  if (now != seen) { seen = now; same = 0; } else if (++same >= 8) end_life("hang", "no progress");
}
static void setup_signals() {
  struct sigaction st; memset(&st, 0, sizeof st); st.sa_handler = on_tick; st.sa_flags = SA_RESTART; sigaction(SIGPROF, &st, 0);
  struct itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = 1; it.it_interval.tv_usec = it.it_value.tv_usec = 0; setitimer(ITIMER_PROF, &it, 0);
  static char* alt = 0;
  alt = (char*)mmap((void*)(STACK_BASE + 8 * STACK_STRIDE), 64 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  stack_t a; a.ss_sp = alt; a.ss_size = 64 << 10; a.ss_flags = 0; sigaltstack(&a, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int s[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTRAP, SIGXCPU };
  for (int x : s) sigaction(x, &sa, 0);
  signal(SIGPIPE, SIG_IGN);
}
static const std::function<void()>* life_body;
static int devnull = -1;
static void* life_main(void*) {
  stack_t a; a.ss_sp = (void*)(STACK_BASE + 8 * STACK_STRIDE); a.ss_size = 64 << 10; a.ss_flags = 0; sigaltstack(&a, 0);
  install_locale(CFG.loc);
  env_block();
  junk_stack();
  (*life_body)();
  end_life("ok", "");
  return 0;
}
LifeResult fork_life(const NodeCfg& cfg, const std::function<void()>& body) {
  shm->hash = 0xcbf29ce484222325ull; shm->steps = shm->allocs = 0; shm->end[0] = shm->detail[0] = 0; shm->ended = 0; shm->reclen = 0;
  pid_t p = fork();
  if (p < 0) { fprintf(stderr, "sim: fork: %s\n", strerror(errno)); _exit(3); }
  if (p == 0) {
    in_life = true;
    static char cfgmem[sizeof(NodeCfg)]; cfg_p = new (cfgmem) NodeCfg(cfg);
    a_base = cfg.base ? HIGH_BASE : LOW_BASE;
    a_shadow = cfg.base ? a_shadow + ARENA + 65536 : a_shadow;
    a_used = 4096 + cfg.pad * 16;
    cap_out = new std::string(); cap_err = new std::string();
    cap_out->reserve(1 << 16); cap_err->reserve(1 << 16);
    env_rng = new Rng(cfg.env * 7919 + 13); sim_ns = (cfg.env % 4000000000ull) * 1000000000ull;
    struct rlimit rl; rl.rlim_cur = 120; rl.rlim_max = 130; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    setup_signals();
    if (devnull >= 0) { dup2(devnull, 0); dup2(devnull, 1); }
    prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
    life_body = &body;
    pthread_attr_t at; pthread_attr_init(&at);
    char* lo = (char*)(STACK_BASE);
    pthread_attr_setstack(&at, lo, STACK_SIZE - (size_t)cfg.soff * 16 * 256);
    pthread_t th;
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGPROF); pthread_sigmask(SIG_BLOCK, &ss, 0);   // only this thread takes the ticks
    if (pthread_create(&th, &at, life_main, 0)) { syscall(SYS_write, 2, "sim: no thread\n", 15); _exit(3); }
    pthread_sigmask(SIG_UNBLOCK, &ss, 0);
    for (;;) pause();
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  LifeResult r; r.hash = shm->hash; r.steps = shm->steps; r.allocs = shm->allocs;
  if (shm->ended) { r.end = shm->end; r.detail = shm->detail; }
  else if (WIFSIGNALED(st)) { r.end = WTERMSIG(st) == SIGKILL ? "simkill" : "crash:signal" + std::to_string(WTERMSIG(st)); r.detail = "ended by a signal"; }
  else { r.end = "simexit:" + std::to_string(WEXITSTATUS(st)); r.detail = "process ended without the simulator"; }
  for (uint64_t o = 0; o + 4 <= shm->reclen;) { uint32_t n; memcpy(&n, shm->rec + o, 4); r.rec.push_back(std::string(shm->rec + o + 4, n)); o += 4 + n; }
  count("sim.lives"); count("sim.steps", r.steps); count("sim.allocs", r.allocs);
  return r;
}

static const std::function<std::string(const std::string&)>* iso_fn;
static void* iso_main(void*) {
  std::string in(shm->xin, shm->inlen), out = (*iso_fn)(in);
  if (out.size() <= sizeof shm->xout) { memcpy(shm->xout, out.data(), out.size()); shm->outlen = out.size(); }
  _exit(0);
  return 0;
}
std::string isolated(const std::string& in, const std::function<std::string(const std::string&)>& fn) {
  if (in.size() > sizeof shm->xin) return "";
  memcpy(shm->xin, in.data(), in.size()); shm->inlen = in.size(); shm->outlen = 0;
  pid_t p = fork();
  if (p < 0) { fprintf(stderr, "sim: fork: %s\n", strerror(errno)); _exit(3); }
  if (p == 0) {
    h_cur = (char*)HOST_BASE + HOST_SIZE / 2; memset(h_free, 0, sizeof h_free);
    iso_fn = &fn;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (char*)(STACK_BASE + (size_t)ISO_SLOT * STACK_STRIDE), STACK_SIZE);
    pthread_t th;
    if (pthread_create(&th, &at, iso_main, 0)) _exit(3);
    for (;;) pause();
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? std::string(shm->xout, shm->outlen) : std::string();
}

// ---- text
std::string tohex(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
std::string unhex(const std::string& s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) { auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; r += (char)(v(s[i]) * 16 + v(s[i + 1])); } return r; }
std::string esc(const std::string& s) {
  std::string r; char t[8];
  for (size_t i = 0; i < s.size() && r.size() < 400; ++i) { unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '\\') r += c; else { snprintf(t, sizeof t, "\\x%02x", c); r += t; } }
  if (r.size() >= 400) { snprintf(t, sizeof t, "..."); r += t; r += "(" + std::to_string(s.size()) + " bytes)"; }
  return r;
}
Line& Line::set(const std::string& k, const std::string& v) { for (auto& p : kv) if (p.first == k) { p.second = v; return *this; } kv.push_back(std::make_pair(k, v)); return *this; }
Line& Line::set(const std::string& k, long long v) { return set(k, std::to_string(v)); }
Line& Line::hex(const std::string& k, const std::string& b) { return set(k, "x" + tohex(b)); }
bool Line::has(const std::string& k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
std::string Line::get(const std::string& k, const std::string& d) const { for (auto& p : kv) if (p.first == k) return p.second; return d; }
long long Line::num(const std::string& k, long long d) const { std::string s = get(k); return s.empty() ? d : atoll(s.c_str()); }
std::string Line::bytes(const std::string& k) const { std::string s = get(k); return s.size() && s[0] == 'x' ? unhex(s.substr(1)) : s; }
std::string Line::str() const { std::string s = word; for (auto& p : kv) s += " " + p.first + "=" + p.second; return s; }
bool Line::parse(const std::string& t, Line& o) {
  o = Line(); size_t i = 0; bool first = true;
  while (i < t.size()) {
    while (i < t.size() && t[i] == ' ') ++i;
    size_t j = t.find(' ', i); if (j == std::string::npos) j = t.size();
    if (j == i) break;
    std::string w = t.substr(i, j - i); i = j;
    if (first) { o.word = w; first = false; continue; }
    size_t e = w.find('='); if (e == std::string::npos) return false;
    o.kv.push_back(std::make_pair(w.substr(0, e), w.substr(e + 1)));
  }
  return !first;
}
std::string Plan::str() const { std::string s; for (auto& l : lines) s += l.str() + "\n"; return s; }
bool Plan::parse(const std::string& t, Plan& o) {
  o.lines.clear(); size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size();
    std::string l = t.substr(i, j - i); i = j + 1;
    if (l.empty() || l[0] == '#') continue;
    Line x; if (!Line::parse(l, x)) return false; o.lines.push_back(x);
  }
  return true;
}
std::vector<Line> Plan::all(const std::string& w) const { std::vector<Line> v; for (auto& l : lines) if (l.word == w) v.push_back(l); return v; }
const Line* Plan::first(const std::string& w) const { for (auto& l : lines) if (l.word == w) return &l; return 0; }

void init() {
  static bool done = false; if (done) return; done = true;
  devnull = open("/dev/null", O_RDWR);
  shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto need = [](void* at, size_t n) {
    void* r = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (r == MAP_FAILED || (at && r != at)) { fprintf(stderr, "sim: cannot map %p: %s\n", at, strerror(errno)); _exit(3); }
    return r;
  };
  need((void*)LOW_BASE, ARENA); need((void*)HIGH_BASE, ARENA);
  a_shadow = (unsigned char*)need((void*)0x800000000ull, 2 * (ARENA + 65536));
  blks = (Blk*)need((void*)0x900000000ull, sizeof(Blk) * (size_t)MAXBLK);
  fl_head = (uint32_t*)need((void*)0xa00000000ull, sizeof(uint32_t) * NFL);
  for (int i = 0; i < 8; ++i) map_stack(i);
  map_stack(ISO_SLOT);
  static NodeCfg dflt; cfg_p = &dflt;
  CRYPTO_set_mem_functions(c_malloc, c_realloc, c_free);
  OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_NO_ATEXIT, 0);
  RAND_set_rand_method(&rmeth);
  UI_METHOD* ui = UI_create_method("simulated terminal");
  UI_method_set_opener(ui, ui_open); UI_method_set_writer(ui, ui_write); UI_method_set_flusher(ui, ui_flush); UI_method_set_reader(ui, ui_read); UI_method_set_closer(ui, ui_close);
  UI_set_default_method(ui);
}
} // namespace rt
