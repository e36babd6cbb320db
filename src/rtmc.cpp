// rtmc: explicit-state model checker for the run-time library (cmmc/Runtime/cmmc_sysy_rt.cpp).
// The library is compiled from the working tree with -fsanitize=thread instrumentation, but linked against the callbacks below instead of the
// sanitizer's: every atomic operation, fence and system call becomes a scheduling point of a user-level scheduler, every plain access is checked by a
// happens-before race detector. Threads (clone) are fibers. All interleavings are explored by depth-first search with re-execution; a state
// (library memory, what every fiber has observed so far, futex queue, recorded body executions) that was seen before is not expanded again.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sched.h>
#include <unistd.h>
#include <csignal>

typedef uint64_t u64; typedef uint32_t u32; typedef int32_t i32;

// ---- fibers ----------------------------------------------------------------------------------------------------------
asm(R"(
.text
.globl vp_switch
.type vp_switch,@function
vp_switch:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
.size vp_switch,.-vp_switch
)");
extern "C" void vp_switch(void** save, void* to);

// the callbacks run on a stack of their own, so that the stack of a fiber (with its saved registers) is exactly the local state of the thread
extern "C" { void* vp_libsp; void* vp_aux; }
#define TR(n) ".globl " n "\n.type " n ",@function\n" n ":\n pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15\n movq %rsp,%rbx\n movq %rsp,vp_libsp(%rip)\n movq vp_aux(%rip),%rsp\n call I" n "\n jmp vp_trx\n.size " n ",.-" n "\n"
#define TRX "vp_trx: movq %rbx,%rsp\n popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp\n ret\n"
asm(".text\n"
TR("__tsan_atomic16_compare_exchange_strong")
TR("__tsan_atomic16_compare_exchange_val")
TR("__tsan_atomic16_compare_exchange_weak")
TR("__tsan_atomic16_exchange")
TR("__tsan_atomic16_fetch_add")
TR("__tsan_atomic16_fetch_and")
TR("__tsan_atomic16_fetch_or")
TR("__tsan_atomic16_fetch_sub")
TR("__tsan_atomic16_fetch_xor")
TR("__tsan_atomic16_load")
TR("__tsan_atomic16_store")
TR("__tsan_atomic32_compare_exchange_strong")
TR("__tsan_atomic32_compare_exchange_val")
TR("__tsan_atomic32_compare_exchange_weak")
TR("__tsan_atomic32_exchange")
TR("__tsan_atomic32_fetch_add")
TR("__tsan_atomic32_fetch_and")
TR("__tsan_atomic32_fetch_or")
TR("__tsan_atomic32_fetch_sub")
TR("__tsan_atomic32_fetch_xor")
TR("__tsan_atomic32_load")
TR("__tsan_atomic32_store")
TR("__tsan_atomic64_compare_exchange_strong")
TR("__tsan_atomic64_compare_exchange_val")
TR("__tsan_atomic64_compare_exchange_weak")
TR("__tsan_atomic64_exchange")
TR("__tsan_atomic64_fetch_add")
TR("__tsan_atomic64_fetch_and")
TR("__tsan_atomic64_fetch_or")
TR("__tsan_atomic64_fetch_sub")
TR("__tsan_atomic64_fetch_xor")
TR("__tsan_atomic64_load")
TR("__tsan_atomic64_store")
TR("__tsan_atomic8_compare_exchange_strong")
TR("__tsan_atomic8_compare_exchange_val")
TR("__tsan_atomic8_compare_exchange_weak")
TR("__tsan_atomic8_exchange")
TR("__tsan_atomic8_fetch_add")
TR("__tsan_atomic8_fetch_and")
TR("__tsan_atomic8_fetch_or")
TR("__tsan_atomic8_fetch_sub")
TR("__tsan_atomic8_fetch_xor")
TR("__tsan_atomic8_load")
TR("__tsan_atomic8_store")
TR("__tsan_atomic_signal_fence")
TR("__tsan_atomic_thread_fence")
TR("__tsan_func_entry")
TR("__tsan_func_exit")
TR("__tsan_init")
TR("__tsan_memcpy")
TR("__tsan_memmove")
TR("__tsan_memset")
TR("__tsan_read1")
TR("__tsan_read16")
TR("__tsan_read2")
TR("__tsan_read4")
TR("__tsan_read8")
TR("__tsan_read_range")
TR("__tsan_read_write1")
TR("__tsan_read_write16")
TR("__tsan_read_write2")
TR("__tsan_read_write4")
TR("__tsan_read_write8")
TR("__tsan_unaligned_read1")
TR("__tsan_unaligned_read16")
TR("__tsan_unaligned_read2")
TR("__tsan_unaligned_read4")
TR("__tsan_unaligned_read8")
TR("__tsan_unaligned_read_write1")
TR("__tsan_unaligned_read_write16")
TR("__tsan_unaligned_read_write2")
TR("__tsan_unaligned_read_write4")
TR("__tsan_unaligned_read_write8")
TR("__tsan_unaligned_write1")
TR("__tsan_unaligned_write16")
TR("__tsan_unaligned_write2")
TR("__tsan_unaligned_write4")
TR("__tsan_unaligned_write8")
TR("__tsan_volatile_read1")
TR("__tsan_volatile_read16")
TR("__tsan_volatile_read2")
TR("__tsan_volatile_read4")
TR("__tsan_volatile_read8")
TR("__tsan_volatile_write1")
TR("__tsan_volatile_write16")
TR("__tsan_volatile_write2")
TR("__tsan_volatile_write4")
TR("__tsan_volatile_write8")
TR("__tsan_vptr_read")
TR("__tsan_vptr_update")
TR("__tsan_write1")
TR("__tsan_write16")
TR("__tsan_write2")
TR("__tsan_write4")
TR("__tsan_write8")
TR("__tsan_write_range")
TR("vp_clock_gettime")
TR("vp_clone")
TR("vp_gettimeofday")
TR("vp_mmap")
TR("vp_munmap")
TR("vp_nanosleep")
TR("vp_sched_setaffinity")
TR("vp_sched_yield")
TR("vp_syscall")
TR("vp_usleep")
TR("vp_waitpid")
TRX);
extern "C" void vp_onaux(void (*f)(void*), void* a);
asm(".globl vp_onaux\nvp_onaux:\n pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15\n movq %rsp,%rbx\n movq %rsp,vp_libsp(%rip)\n movq vp_aux(%rip),%rsp\n movq %rdi,%rax\n movq %rsi,%rdi\n call *%rax\n jmp vp_trx\n");
template <class Fn> static inline void onAux(Fn f) { vp_onaux([](void* p) { (*(Fn*)p)(); }, &f); }
constexpr int MAXF = 12;
constexpr size_t STK = 256 * 1024;
using VC = std::array<u32, MAXF>;
enum St { NONE, RUN, FUTEX, DONE };
struct Fiber {
    St st = NONE; void* sp = nullptr; void* libsp = nullptr; char* stack = nullptr; char* aux = nullptr; int (*fn)(void*) = nullptr; void* arg = nullptr;
    u64 lastOp = 0, lastVal = 0; int rep = 0; void* faddr = nullptr; bool spur = false; int spurLeft = 0;
    VC c{}, acq{}, rel{};
};
static Fiber F[MAXF];
static int nf, cur;
static void* explorerSp; static char hostAux[262144] __attribute__((aligned(64)));
static bool live;                 // an execution is in progress
static int curReal() { return cur; }

// ---- library memory --------------------------------------------------------------------------------------------------
struct Seg { char* p; size_t n; std::vector<char> init; };
static std::vector<Seg> segs;
static bool inLib(const void* p) { for(auto& s : segs) if((char*)p >= s.p && (char*)p < s.p + s.n) return true; return false; }

static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

// ---- exploration -----------------------------------------------------------------------------------------------------
struct Choice { int n, c; };
static std::vector<Choice> path;
static size_t depth;              // position in path
static bool branching = true;     // false: the default choice is taken without branching
static std::unordered_set<u64> seen;
static u64 nExec, nTrans, nStates, nPruned, nRace;
static bool pruned; static std::string bad;
static std::vector<std::string> trace;
static size_t maxDepth;
static u64 hstate;                // harness state (recorded body executions, progress of the client)
static u64 stepCount; static bool tracing;
static u32 focus = ~0u; static bool eager = true; static int pbound = -1, npre;   // which threads are interleaved, at most how many preemptions

static std::string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void toExplorer() { void* d; vp_switch(&d, explorerSp); }
static void fail(const std::string& w) { if(bad.empty()) bad = w; if(live) toExplorer(); }

static i32 accI; static float accF;
struct Rec { i32 b, e; int fn; bool done; };
static std::vector<Rec> trecs[MAXF];   // body executions of each thread
static u64 stateHash() {
    u64 h = hstate + accI * 131; { u32 x; memcpy(&x, &accF, 4); h = mix(h, x); }
    for(auto& s : segs) { auto p = (u64*)s.p; for(size_t i = 0; i < s.n / 8; ++i) if(p[i]) h = mix(h, p[i] * 31 + i); }
    for(int i = 0; i < nf; ++i) { for(auto& r : trecs[i]) h = mix(h, mix(r.b, r.e) * 2 + r.done); h = mix(h, F[i].st * 1000 + F[i].spurLeft * 100 + F[i].rep); h = mix(h, (u64)F[i].faddr);
        if(F[i].st != DONE) for(auto p = (u64*)F[i].libsp, e = (u64*)(F[i].stack + STK - 64); p < e; ++p) h = mix(h, *p); }   // the stack is the thread's local state
    if(pbound >= 0) h = mix(mix(h, npre), cur);
    return h;
}
// takes one of n alternatives
static int choose(int n) {
    if(n <= 1 || !branching) return 0;
    if(depth < path.size()) { if(path[depth].n != n) { bad = "internal: replay diverged"; toExplorer(); } return path[depth++].c; }
    path.push_back({n, 0}); ++depth; maxDepth = std::max(maxDepth, depth);
    return 0;
}
// scheduling point of the running fiber, before its next operation (or when it has blocked / ended)
static void switchTo(int t) { int o = cur; cur = t; F[o].rep = 0; vp_aux = F[t].aux + STK - 64; vp_switch(&F[o].sp, F[t].sp); vp_aux = F[o].aux + STK - 64; vp_libsp = F[o].libsp; }
static void sched(const char* what) {
    F[cur].libsp = vp_libsp;
    if(++stepCount > 2000000) fail("no progress: step limit reached");
    if(branching && depth >= path.size()) {   // beyond the replayed prefix: the state after the prefix
        ++nStates;
        if(!seen.insert(stateHash()).second) { pruned = true; ++nPruned; toExplorer(); }
    }
    int opt[2 * MAXF], n = 0;
    if(branching && focus != ~0u) {   // the threads outside the focus run at once (or only when nobody else can), without alternatives
        int k = -1; bool fr = false;
        for(int i = 0; i < nf; ++i) if(F[i].st == RUN) { if(!(focus >> i & 1)) { if(k < 0 || i == cur) k = i; } else if(F[i].rep < 3) fr = true; }
        if(k >= 0 && (eager || !fr)) { ++nTrans; if(k != cur) switchTo(k); return; }
    }
    bool others = false; for(int i = 0; i < nf; ++i) if(i != cur && F[i].st == RUN) others = true;
    if(F[cur].st == RUN && !(others && F[cur].rep >= 3)) opt[n++] = cur;   // fairness: a thread that spins lets the others go on
    bool mayPreempt = !n || pbound < 0 || npre < pbound;
    if(mayPreempt) for(int i = 0; i < nf; ++i) if(i != cur && F[i].st == RUN && (!branching || focus >> i & 1)) opt[n++] = i;
    int nr = n; bool curFirst = n && opt[0] == cur;
    for(int i = 0; i < nf; ++i) if(F[i].st == FUTEX && F[i].spurLeft > 0 && branching && mayPreempt && (!branching || focus >> i & 1)) opt[n++] = i;   // spurious wake-up
    if(!nr) {   // nothing can run
        bool client = F[0].st == DONE;
        for(int i = 1; i < nf; ++i) if(F[i].st != DONE) client = false;
        if(client) toExplorer();
        std::string w = "deadlock:";
        for(int i = 0; i < nf; ++i) w += fmt(" thread %d %s", i, F[i].st == FUTEX ? "waits on a futex" : F[i].st == DONE ? "ended" : "?");
        fail(w);
    }
    int k = choose(n), t = opt[k];
    ++nTrans;
    if(curFirst && t != cur) ++npre;
    if(F[t].st == FUTEX) { F[t].st = RUN; F[t].spur = true; --F[t].spurLeft; F[t].faddr = nullptr; if(tracing) trace.push_back(fmt("spurious wake-up of thread %d", t)); }
    if(t != cur) switchTo(t);
    (void)what;
}
#define NOTE(...) do { if(tracing) [&]() __attribute__((noinline)) { note_(__VA_ARGS__); }(); } while(0)
static void note_(const std::string& s) { if(trace.size() >= 4000) trace.erase(trace.begin(), trace.begin() + 2000);
    trace.push_back(fmt("thread %d: ", cur) + s); }
static void observe(u64 v, const void* p = nullptr) {
    auto& f = F[cur];
    if(p) { if(f.lastOp == (u64)p && f.lastVal == v) ++f.rep; else { f.lastOp = (u64)p; f.lastVal = v; f.rep = 0; } }
}

static void fiberMain() {
    int me = cur; int r = F[me].fn(F[me].arg); (void)r;
    onAux([me] { F[me].st = DONE; NOTE("ends"); sched("end"); });
    abort();
}
static int spawn(int (*fn)(void*), void* arg) {
    if(nf >= MAXF) { fail("too many threads"); return -1; }
    int i = nf++; auto& f = F[i];
    char* st = f.stack; char* ax = f.aux; f = Fiber{}; f.stack = st; f.aux = ax;
    if(!f.aux) f.aux = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if(!f.stack) f.stack = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    f.st = RUN; f.fn = fn; f.arg = arg; f.spurLeft = 1;
    void** sp = (void**)(f.stack + STK - 64);
    *--sp = nullptr; *--sp = (void*)fiberMain;
    for(int k = 0; k < 6; ++k) *--sp = nullptr;
    f.sp = f.libsp = sp;
    if(i) { f.c = F[cur].c; F[cur].c[cur]++; }
    f.c[i] = 1;
    return i;
}

// ---- happens-before --------------------------------------------------------------------------------------------------
static void join(VC& a, const VC& b) { for(int i = 0; i < MAXF; ++i) if(b[i] > a[i]) a[i] = b[i]; }
struct Loc { VC rel{}; };
static std::unordered_map<u64, Loc> locs;
struct Shadow { int wt = -1; u32 wc = 0; bool wa = false; VC r{}; VC ra{}; };   // last write (plain or atomic), plain reads, atomic accesses
static std::unordered_map<u64, Shadow> shadow;
static std::map<u64, std::string> names;
static std::string where(u64 a) {
    for(auto& n : names) if(n.first == a) return n.second;
    Dl_info d; if(dladdr((void*)a, &d) && d.dli_sname) return fmt("%s+%lu", d.dli_sname, a - (u64)d.dli_saddr);
    for(auto& s : segs) if((char*)a >= s.p && (char*)a < s.p + s.n) return fmt("library data +0x%lx", (unsigned long)(a - (u64)s.p));
    return fmt("0x%lx", a);
}
static bool onStack(const void* p) { for(int i = 0; i < nf; ++i) if(F[i].stack && (char*)p >= F[i].stack && (char*)p < F[i].stack + STK) return true; return false; }
static void access(const void* p, int size, bool write, bool atomic) {
    if(!live || onStack(p)) return;
    if(!atomic && !inLib(p) && !names.count((u64)p)) return;
    u64 g = (u64)p; auto& s = shadow[g]; auto& c = F[cur].c; (void)size;
    auto race = [&](int o, const char* k) { ++nRace; fail(fmt("data race on %s: %s%s by thread %d is not ordered after the %s by thread %d", where(g).c_str(), atomic ? "atomic " : "", write ? "write" : "read", cur, k, o)); };
    if(s.wt >= 0 && s.wt != cur && s.wc > c[s.wt] && !(atomic && s.wa)) race(s.wt, s.wa ? "atomic write" : "write");
    if(write) for(int i = 0; i < MAXF; ++i) {
        if(i != cur && s.r[i] > c[i]) race(i, "read");
        if(!atomic && i != cur && s.ra[i] > c[i]) race(i, "atomic access");
    }
    if(write) { s.wt = cur; s.wc = c[cur]; s.wa = atomic; }
    if(atomic) s.ra[cur] = c[cur]; else if(!write) s.r[cur] = c[cur];
}
static bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void aLoad(const void* p, int mo) { auto& f = F[cur]; auto& l = locs[(u64)p]; if(isAcq(mo)) join(f.c, l.rel); else join(f.acq, l.rel); }
static void aStore(const void* p, int mo, bool rmw) {
    auto& f = F[cur]; auto& l = locs[(u64)p]; VC v = isRel(mo) ? f.c : f.rel;
    if(rmw) join(l.rel, v); else l.rel = v;
    if(isRel(mo)) f.c[cur]++;
}
static void aFence(int mo) { auto& f = F[cur]; if(isAcq(mo)) join(f.c, f.acq); if(isRel(mo)) { f.rel = f.c; f.c[cur]++; } }

// ---- instrumentation callbacks ---------------------------------------------------------------------------------------
template <class T> static T tLoad(const volatile T* p, int mo) {
    if(!live) return *p;
    sched("load"); access((void*)p, sizeof(T), false, true); aLoad((void*)p, mo); T v = *p; observe((u64)v, (void*)p); NOTE(fmt("load %s = %lld", where((u64)p).c_str(), (long long)v)); return v;
}
template <class T> static void tStore(volatile T* p, T v, int mo) {
    if(!live) { *p = v; return; }
    sched("store"); access((void*)p, sizeof(T), true, true); aStore((void*)p, mo, false); *p = v; NOTE(fmt("store %s := %lld", where((u64)p).c_str(), (long long)v));
}
template <class T, class Op> static T tRmw(volatile T* p, int mo, Op op) {
    if(!live) { T o = *p; *p = op(o); return o; }
    sched("rmw"); access((void*)p, sizeof(T), true, true); aLoad((void*)p, mo); T o = *p; *p = op(o); aStore((void*)p, mo, true); observe((u64)o); NOTE(fmt("rmw %s: %lld -> %lld", where((u64)p).c_str(), (long long)o, (long long)*p)); return o;
}
template <class T> static int tCas(volatile T* p, T* e, T d, int mo, int fmo) {
    if(!live) { if(*p == *e) { *p = d; return 1; } *e = *p; return 0; }
    sched("cas");
    T o = *p; observe((u64)o, (void*)p);
    if(o == *e) { access((void*)p, sizeof(T), true, true); aLoad((void*)p, mo); *p = d; aStore((void*)p, mo, true); NOTE(fmt("cas %s: %lld -> %lld", where((u64)p).c_str(), (long long)o, (long long)d)); return 1; }
    access((void*)p, sizeof(T), false, true); aLoad((void*)p, fmo); *e = o; NOTE(fmt("cas %s fails, is %lld", where((u64)p).c_str(), (long long)o)); return 0;
}
static void plain(const void* p, int n, bool w) {
    if(!live) return;
    access(p, n, w, false);
    if(!w && inLib(p)) { u64 v = 0; memcpy(&v, p, n > 8 ? 8 : n); observe(v); }
}
extern "C" {
#define AT(bits, T) \
    T I__tsan_atomic##bits##_load(const volatile T* p, int mo) { return tLoad<T>(p, mo); } \
    void I__tsan_atomic##bits##_store(volatile T* p, T v, int mo) { tStore<T>(p, v, mo); } \
    T I__tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return tRmw<T>(p, mo, [&](T) { return v; }); } \
    T I__tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return tRmw<T>(p, mo, [&](T o) { return (T)(o + v); }); } \
    T I__tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return tRmw<T>(p, mo, [&](T o) { return (T)(o - v); }); } \
    T I__tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return tRmw<T>(p, mo, [&](T o) { return (T)(o & v); }); } \
    T I__tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return tRmw<T>(p, mo, [&](T o) { return (T)(o | v); }); } \
    T I__tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return tRmw<T>(p, mo, [&](T o) { return (T)(o ^ v); }); } \
    int I__tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int f) { return tCas<T>(p, e, d, mo, f); } \
    int I__tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int f) { return tCas<T>(p, e, d, mo, f); } \
    T I__tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int f) { T x = e; tCas<T>(p, &x, d, mo, f); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void I__tsan_atomic_thread_fence(int mo) { if(live) { sched("fence"); aFence(mo); } }
void I__tsan_atomic_signal_fence(int) {}
#define PL(n) \
    void I__tsan_read##n(void* p) { plain(p, n, false); } void I__tsan_write##n(void* p) { plain(p, n, true); } \
    void I__tsan_unaligned_read##n(void* p) { plain(p, n, false); } void I__tsan_unaligned_write##n(void* p) { plain(p, n, true); } \
    void I__tsan_volatile_read##n(void* p) { plain(p, n, false); } void I__tsan_volatile_write##n(void* p) { plain(p, n, true); } \
    void I__tsan_read_write##n(void* p) { plain(p, n, false); plain(p, n, true); } void I__tsan_unaligned_read_write##n(void* p) { plain(p, n, false); plain(p, n, true); }
PL(1) PL(2) PL(4) PL(8) PL(16)
void I__tsan_read_range(void* p, long n) { plain(p, n > 8 ? 8 : n, false); }
void I__tsan_write_range(void* p, long n) { plain(p, n > 8 ? 8 : n, true); }
void I__tsan_func_entry(void*) {} void I__tsan_func_exit() {} void I__tsan_init() {} void I__tsan_vptr_update(void**, void*) {} void I__tsan_vptr_read(void**) {}
void* I__tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* I__tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* I__tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }

// ---- system calls of the library (renamed by objcopy) ----------------------------------------------------------------
static u64 cloneFlags[MAXF];
int Ivp_clone(int (*fn)(void*), void*, int flags, void* arg) {
    if(!live) return -1;
    sched("clone"); int i = spawn(fn, arg); if(i >= 0) cloneFlags[i] = flags; NOTE(fmt("creates thread %d", i)); return 1000 + i;
}
void* Ivp_mmap(void*, size_t n, int, int, int, off_t) { static char dummy[64]; return live ? (void*)((char*)dummy) : (void*)dummy; (void)n; }
int Ivp_munmap(void*, size_t) { return 0; }
int Ivp_sched_setaffinity(int, size_t, const void*) { return 0; }
int Ivp_sched_yield() { if(live) sched("yield"); return 0; }
int Ivp_usleep(unsigned) { if(live) sched("sleep"); return 0; }
int Ivp_nanosleep(const void*, void*) { if(live) sched("sleep"); return 0; }
int Ivp_waitpid(int pid, int*, int) {
    if(!live) return -1;
    int i = pid - 1000;
    if(i < 0 || i >= nf || (cloneFlags[i] & CLONE_THREAD)) { errno = ECHILD; return -1; }
    while(F[i].st != DONE) { F[cur].st = RUN; sched("waitpid"); }
    return pid;
}
static u64 clockNow, clockInc = 1;
int Ivp_clock_gettime(int, timespec* t) { clockNow += clockInc; t->tv_sec = clockNow / 1000000000; t->tv_nsec = clockNow % 1000000000; return 0; }
int Ivp_gettimeofday(void* t, void*) { clockNow += clockInc; ((long*)t)[0] = 0; ((long*)t)[1] = clockNow; return 0; }
long Ivp_syscall(long nr, long a, long b, long c, long d, long e) {
    (void)e;
    if(!live) return -1;
    if(nr == SYS_gettid) return 1000 + cur;
    if(nr == SYS_sched_yield) { sched("yield"); return 0; }
    if(nr != SYS_futex) { fail(fmt("unexpected system call %ld", nr)); return -1; }
    int op = b & 127;
    sched("futex");
    if(op == FUTEX_WAIT) {
        if(d) { NOTE("futex wait with a time limit: returns"); observe(9); errno = ETIMEDOUT; return -1; }
        if(*(volatile u32*)a != (u32)c) { NOTE(fmt("futex wait %s: value is not %ld", where(a).c_str(), c)); observe(2); errno = EAGAIN; return -1; }
        NOTE(fmt("futex wait %s: sleeps", where(a).c_str()));
        F[cur].st = FUTEX; F[cur].faddr = (void*)a; F[cur].spur = false;
        sched("sleep");
        bool s = F[cur].spur; observe(s ? 3 : 4);
        if(s) { errno = EINTR; return -1; }
        return 0;
    }
    if(op == FUTEX_WAKE) {
        long k = 0;
        std::vector<int> w; for(int i = 0; i < nf; ++i) if(F[i].st == FUTEX && F[i].faddr == (void*)a) w.push_back(i);
        while(k < c && !w.empty()) { int j = choose((int)w.size()); F[w[j]].st = RUN; F[w[j]].faddr = nullptr; NOTE(fmt("futex wake %s: thread %d", where(a).c_str(), w[j])); w.erase(w.begin() + j); ++k; }
        if(!k) NOTE(fmt("futex wake %s: nobody", where(a).c_str()));
        observe(k); return k;
    }
    fail(fmt("unexpected futex operation %d", op)); return -1;
}
}

// ---- client ----------------------------------------------------------------------------------------------------------
using Loop = void (*)(i32, i32);
static void (*pFor)(i32, i32, Loop); static void (*pInit)(); static void (*pUninit)();
static struct { i32 beg, end; int fn; bool active; } call;
static std::vector<Rec> recs;
static long payload, results[64];
static void (*pRedI)(i32*, i32); static void (*pRedF)(float*, float);
static void body(int fn, i32 b, i32 e) {
    size_t me = 0, k = 0;
    onAux([&] {
        if(!call.active) fail(fmt("body %d [%d, %d) runs while no parallel-for is active", fn, b, e));
        NOTE(fmt("body %d starts [%d, %d)", fn, b, e));
        plain(&payload, 8, false);
        auto& T = trecs[cur]; me = T.size(); k = me * MAXF + cur; T.push_back({b, e, fn, false});
        if(k >= 64) fail("more than 5 chunks on one thread");
        sched("body");
        plain(&results[k], 8, true);
    });
    onAux([&] {
        sched("body end");
        trecs[cur][me].done = true;
        NOTE(fmt("body %d ends [%d, %d)", fn, b, e));
    });
}
static void body0(i32 b, i32 e) { body(0, b, e); }
static void body1(i32 b, i32 e) { body(1, b, e); }
template <int N> static void bodyN(i32 b, i32 e) { body(N, b, e); if(N == 22) pRedI(&accI, e - b); if(N == 23) pRedF(&accF, (float)(e - b)); }
static Loop bodies[24] = { body0, body1, bodyN<2>, bodyN<3>, bodyN<4>, bodyN<5>, bodyN<6>, bodyN<7>, bodyN<8>, bodyN<9>, bodyN<10>, bodyN<11>, bodyN<12>, bodyN<13>, bodyN<14>, bodyN<15>, bodyN<16>, bodyN<17>, bodyN<18>, bodyN<19>, bodyN<20>, bodyN<21>, bodyN<22>, bodyN<23> };
static u64 nCalls, nIdx; static std::map<size_t, u64> chunkCounts;
static void callFor(i32 beg, i32 end, int fn) {
    onAux([&] {
    for(auto& t : trecs) t.clear(); call = {beg, end, fn, true}; hstate = mix(hstate, mix(beg, end) + fn);
    plain(&payload, 8, true); 
    accI = 100; accF = 100;
    NOTE(fmt("parallel-for [%d, %d) body %d", beg, end, fn));
    });
    pFor(beg, end, bodies[fn]);
    onAux([&] {
    call.active = false; ++nCalls;
    recs.clear(); for(auto& t : trecs) recs.insert(recs.end(), t.begin(), t.end());
    for(auto& r : recs) {
        if(!r.done) fail(fmt("parallel-for [%d, %d) returned while the body is still executing [%d, %d)", beg, end, r.b, r.e));
        if(r.fn != fn) fail(fmt("parallel-for [%d, %d) of body %d executed body %d", beg, end, fn, r.fn));
    }
    for(int t = 0; t < MAXF; ++t) for(size_t i = 0; i < trecs[t].size(); ++i) plain(&results[i * MAXF + t], 8, false);
    auto v = recs; std::sort(v.begin(), v.end(), [](const Rec& a, const Rec& b) { return a.b < b.b; });
    long long at = beg;
    for(auto& r : v) {
        if(r.b >= r.e) fail(fmt("parallel-for [%d, %d): empty chunk [%d, %d)", beg, end, r.b, r.e));
        if(r.b > at) fail(fmt("parallel-for [%d, %d): indices [%lld, %d) are never executed", beg, end, at, r.b));
        if(r.b < at) fail(fmt("parallel-for [%d, %d): index %d is executed twice", beg, end, r.b));
        at = r.e;
    }
    long long want = end > beg ? end : beg;
    if(at < want) fail(fmt("parallel-for [%d, %d): indices [%lld, %lld) are never executed", beg, end, at, want));
    if(at > want) fail(fmt("parallel-for [%d, %d): executed up to %lld", beg, end, at));
    if(fn == 22 && accI != 100 + (want - beg)) fail(fmt("sum of %lld ones by cmmcReduceAddI32 is %d", want - beg, accI - 100));
    if(fn == 23 && accF != 100 + (want - beg)) fail(fmt("sum of %lld ones by cmmcReduceAddF32 is %g", want - beg, accF - 100));
    nIdx += want - beg; chunkCounts[v.size()]++;
    hstate = mix(12345, nCalls ? 1 : 0); hstate = mix(hstate, mix(beg, end) + fn);
    });
}
struct Scenario { std::string name; std::function<void()> run; };
static Scenario* curS;
static void onSignal(int sig) {
    char b[300]; int n = snprintf(b, sizeof b, "{\"violation\":\"the library crashes (signal %d) on thread %d\",\"scenario\":\"%s\",\"trace\":[]}\n", sig, cur, curS ? curS->name.c_str() : "memo");
    if(write(1, b, n)) {} _exit(1);
}
static int client(void*) {
    bool b = branching;
    pInit();
    curS->run();
    (void)b;
    pUninit();
    onAux([] { NOTE("library finalised"); });
    return 0;
}
static void resetAll() {
    for(auto& s : segs) memcpy(s.p, s.init.data(), s.n);
    nf = 0; locs.clear(); shadow.clear(); recs.clear(); for(auto& t : trecs) t.clear(); hstate = 1; trace.clear(); stepCount = 0; clockNow = 0; clockInc = 1; npre = 0; call.active = false;
}
static bool execOne() {
    resetAll(); depth = 0; pruned = false; bad.clear();
    cur = 0; spawn(client, nullptr); live = true; ++nExec;
    vp_aux = F[0].aux + STK - 64; vp_switch(&explorerSp, F[0].sp);
    live = false; vp_aux = hostAux + sizeof hostAux - 64;
    return bad.empty();
}
static u64 execLimit = 100000000;
static bool initBranch = true;
static int explore(Scenario& s, bool branch, double limit) {
    curS = &s; path.clear(); seen.clear(); timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    u64 e0 = nExec, s0 = nStates; size_t md = 0; (void)md; maxDepth = 0;
    initBranch = branch; bool complete = true;
    while(true) {
        branching = branch;
        if(!execOne()) {
            tracing = true; std::string b0 = bad; execOne(); tracing = false; bad = b0;   // once more, recording the trace
            printf("{\"violation\":\"%s\",\"scenario\":\"%s\",\"trace\":[", bad.c_str(), s.name.c_str());
            size_t from = trace.size() > 400 ? trace.size() - 400 : 0;
            for(size_t i = from; i < trace.size(); ++i) printf("%s\"%s\"", i > from ? "," : "", trace[i].c_str());
            printf("]}\n"); fflush(stdout);
            return 1;
        }
        while(!path.empty() && path.back().c + 1 >= path.back().n) path.pop_back();
        if(path.empty()) break;
        path.back().c++;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if(t1.tv_sec - t0.tv_sec > limit) { complete = false; break; }
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    printf("{\"scenario\":\"%s\",\"complete\":%s,\"executions\":%llu,\"states\":%llu,\"distinct\":%zu,\"depth\":%zu,\"seconds\":%.2f}\n", s.name.c_str(), complete ? "true" : "false", (unsigned long long)(nExec - e0), (unsigned long long)(nStates - s0), seen.size(), maxDepth,
           t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) / 1e9);
    fflush(stdout);
    return 0;
}
static void quietly(const std::function<void()>& f) { bool b = branching; branching = false; f(); branching = b; }

// ---- memo table ------------------------------------------------------------------------------------------------------
static char* (*pLookup)(char*, int, int);
static u64 luStates, luOps, luHits, luMiss, luMaxDepth;
struct Key { int a, b; };
static std::vector<Key> K; static std::vector<char> tab; static constexpr size_t TAB = 16 * 1021;
static int val(int k) { return 1000 + k * 17; }
static std::unordered_set<u64> luSeen;
static std::vector<std::string> luTrace;
struct Pend { int k; char* e; };
static std::vector<Pend> pend;
struct Snap { std::vector<std::pair<u32, std::array<u64, 2>>> ents; std::vector<std::vector<char>> lib; };
static void luFail(const std::string& w) {
    printf("{\"violation\":\"%s\",\"scenario\":\"memo\",\"trace\":[", w.c_str());
    for(size_t i = 0; i < luTrace.size(); ++i) printf("%s\"%s\"", i ? "," : "", luTrace[i].c_str());
    printf("]}\n"); fflush(stdout); _exit(1);
}
static std::set<u32> touched;
static Snap snap() { Snap s; for(u32 i = 0; i < 1021; ++i) { std::array<u64, 2> v; memcpy(v.data(), &tab[i * 16], 16); if(v[0] || v[1]) s.ents.push_back({i, v}); } for(auto& g : segs) s.lib.emplace_back(g.p, g.p + g.n); return s; }
static void restore(const Snap& s) { memset(tab.data(), 0, TAB); for(auto& e : s.ents) memcpy(&tab[e.first * 16], e.second.data(), 16); for(size_t i = 0; i < segs.size(); ++i) memcpy(segs[i].p, s.lib[i].data(), segs[i].n); }
static void lu(int d, int maxd) {
    Snap s = snap();
    u64 h = 5; for(auto& e : s.ents) h = mix(mix(mix(h, e.first), e.second[0]), e.second[1]);
    for(size_t i = 0; i < segs.size(); ++i) { auto p = (u64*)s.lib[i].data(); for(size_t j = 0; j < s.lib[i].size() / 8; ++j) if(p[j]) h = mix(h, p[j] * 31 + j); }
    for(auto& p : pend) h = mix(mix(h, p.k), (u64)(p.e - tab.data()));
    h = mix(h, maxd - d);
    if(!luSeen.insert(h).second) return;
    ++luStates; luMaxDepth = std::max<u64>(luMaxDepth, d);
    if(d == maxd) return;
    for(int k = 0; k < (int)K.size(); ++k) {
        bool nested = false; for(auto& p : pend) if(p.k == k) nested = true;
        if(nested) continue;
        ++luOps;
        luTrace.push_back(fmt("f(%d, %d)", K[k].a, K[k].b));
        char* e = pLookup(tab.data(), K[k].a, K[k].b);
        bool inTab = e >= tab.data() && e + 16 <= tab.data() + TAB && (e - tab.data()) % 16 == 0;
        if(!inTab && !inLib(e)) luFail("the entry returned lies outside of the table");
        int v, has; memcpy(&v, e + 8, 4); memcpy(&has, e + 12, 4);
        if(has) {
            ++luHits;
            if(v != val(k)) luFail(fmt("f(%d, %d) is answered with %d, the value of another call or no value at all; expected %d", K[k].a, K[k].b, v, val(k)));
            lu(d + 1, maxd);
        } else {
            ++luMiss; pend.push_back({k, e}); lu(d + 1, maxd); pend.pop_back();
        }
        luTrace.pop_back();
        restore(s);
    }
    if(!pend.empty()) {   // the innermost pending evaluation ends
        ++luOps;
        Pend p = pend.back(); pend.pop_back(); int v = val(p.k), one = 1;
        luTrace.push_back(fmt("f(%d, %d) ends with %d", K[p.k].a, K[p.k].b, v));
        memcpy(p.e + 8, &v, 4); memcpy(p.e + 12, &one, 4);
        lu(d + 1, maxd);
        pend.push_back(p); luTrace.pop_back();
        restore(s);
    }
}
// keys that share the entry of (a, b), found by asking the library
static std::vector<Key> sharing(Key q, int n) {
    std::vector<Key> r; tab.assign(TAB, 0); for(auto& s : segs) memcpy(s.p, s.init.data(), s.n);
    char* e0 = pLookup(tab.data(), q.a, q.b);
    for(int a = q.a; a < q.a + 3 && (int)r.size() < n; ++a) for(int b = q.b + 1; b < q.b + 60000 && (int)r.size() < n; ++b) {
        tab.assign(TAB, 0); for(auto& s : segs) memcpy(s.p, s.init.data(), s.n);
        if(pLookup(tab.data(), a, b) == e0) { r.push_back({a, b}); if(a == q.a && (int)r.size() >= (n + 1) / 2) break; }
    }
    return r;
}
static int memo(bool quick) {
    tab.assign(TAB, 0);
    std::vector<std::vector<Key>> alph;
    auto sh = sharing({3, 5}, 3), sh0 = sharing({0, 0}, 3), shn = sharing({-7, INT_MIN}, 2);
    std::vector<Key> a1{{3, 5}}; a1.insert(a1.end(), sh.begin(), sh.end()); a1.push_back({5, 3}); alph.push_back(a1);
    std::vector<Key> a2{{0, 0}, {0, 1}, {1, 0}, {-1, -1}, {0, -1}}; alph.push_back(a2);
    std::vector<Key> a3{{INT_MIN, INT_MIN}, {INT_MAX, INT_MAX}, {INT_MIN, 0}, {0, INT_MIN}, {-1, INT_MAX}}; alph.push_back(a3);
    std::vector<Key> a4{{0, 0}}; a4.insert(a4.end(), sh0.begin(), sh0.end()); a4.push_back({INT_MIN, INT_MIN}); alph.push_back(a4);
    std::vector<Key> a5{{-7, INT_MIN}}; a5.insert(a5.end(), shn.begin(), shn.end()); a5.push_back({INT_MIN, INT_MIN}); a5.push_back({INT_MIN, -7}); alph.push_back(a5);
    std::vector<Key> a6{{1, 5}, {2, 5}, {65536 + 1, 5}, {1, 5 + 65536}, {1 << 30, 5}, {1, (1 << 30) + 5}}; alph.push_back(a6);
    std::vector<Key> a7{{INT_MIN, INT_MIN}};   // the key whose bits are all cleared by the library, with keys that live in the first entries
    for(int b = 0; b < 200000 && a7.size() < 4; ++b) { tab.assign(TAB, 0); for(auto& s : segs) memcpy(s.p, s.init.data(), s.n); if(pLookup(tab.data(), a7.size() & 1 ? 0 : -1, b) == tab.data()) a7.push_back({a7.size() & 1 ? 0 : -1, b}); }
    a7.push_back({0, 0}); alph.push_back(a7);
    int dep = quick ? 9 : 13;
    for(auto& a : alph) {
        K = a; luSeen.clear(); pend.clear(); luTrace.clear(); tab.assign(TAB, 0); for(auto& s : segs) memcpy(s.p, s.init.data(), s.n);
        u64 s0 = luStates;
        lu(0, dep);
        std::string ks; for(auto& k : a) ks += fmt("(%d,%d)", k.a, k.b);
        printf("{\"scenario\":\"memo %s\",\"complete\":true,\"states\":%llu,\"depth\":%d}\n", ks.c_str(), (unsigned long long)(luStates - s0), dep);
        fflush(stdout);
    }
    // long histories: every order of filling more keys than the table has entries
    for(int stride : {1, 2, 7, 1021, 1019, 1 << 16}) for(int arg = 0; arg < 2; ++arg) {
        tab.assign(TAB, 0); for(auto& s : segs) memcpy(s.p, s.init.data(), s.n);
        for(int round = 0; round < 3; ++round) for(int i = 0; i < 5000; ++i) {
            int x = i * stride, a = arg ? x : 11, b = arg ? 11 : x; ++luOps;
            char* e = pLookup(tab.data(), a, b); int v, has; memcpy(&v, e + 8, 4); memcpy(&has, e + 12, 4);
            luTrace = {fmt("keys (%d,%d) step %d, %d keys before", a, b, stride, i)};
            if(!((e >= tab.data() && e + 16 <= tab.data() + TAB) || inLib(e))) luFail("the entry returned lies outside of the table");
            if(has) { ++luHits; if(v != i + 1) luFail(fmt("f(%d, %d) is answered with %d, the value of another call; expected %d", a, b, v, i + 1)); }
            else { v = i + 1; has = 1; memcpy(e + 8, &v, 4); memcpy(e + 12, &has, 4); }
        }
    }
    printf("{\"summary\":1,\"states\":%llu,\"transitions\":%llu,\"hits\":%llu,\"misses\":%llu}\n", (unsigned long long)luStates, (unsigned long long)luOps, (unsigned long long)luHits, (unsigned long long)luMiss);
    return 0;
}

int main(int argc, char** argv) {
    vp_aux = hostAux + sizeof hostAux - 64;
    void* so = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if(!so) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
    { static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK; for(int g : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(g, &sa, nullptr); }
    std::string mode = argc > 2 ? argv[2] : "par"; bool quick = argc <= 3 || std::string(argv[3]) != "thorough";
    pFor = (decltype(pFor))dlsym(so, "cmmcParallelFor"); pInit = (decltype(pInit))dlsym(so, "cmmcInitRuntime"); pUninit = (decltype(pUninit))dlsym(so, "cmmcUninitRuntime");
    pLookup = (decltype(pLookup))dlsym(so, "cmmcCacheLookup");
    pRedI = (decltype(pRedI))dlsym(so, "cmmcReduceAddI32"); pRedF = (decltype(pRedF))dlsym(so, "cmmcReduceAddF32");
    struct link_map* lm; dlinfo(so, RTLD_DI_LINKMAP, &lm); static u64 loadAt; loadAt = lm->l_addr;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
        if(i->dlpi_addr != loadAt) return 0;
        u64 rs = 0, re = 0;
        for(int k = 0; k < i->dlpi_phnum; ++k) if(i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rs = i->dlpi_phdr[k].p_vaddr; re = (rs + i->dlpi_phdr[k].p_memsz) & ~4095ull; }
        for(int k = 0; k < i->dlpi_phnum; ++k) { auto& p = i->dlpi_phdr[k]; if(p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
            u64 b = p.p_vaddr, e = (b + p.p_memsz + 7) & ~7ull; if(re > b && rs <= b) b = std::min(e, re); b = (b + 7) & ~7ull; if(b < e) segs.push_back({(char*)(loadAt + b), e - b, {}}); }
        return 1; }, nullptr);
    if(getenv("RTDBG")) for(auto& s : segs) fprintf(stderr, "seg %lx %zu\n", (u64)s.p - loadAt, s.n);
    for(auto& s : segs) s.init.assign(s.p, s.p + s.n);
    if(mode == "memo") { if(!pLookup) { fprintf(stderr, "no cmmcCacheLookup\n"); return 3; } return memo(quick); }
    if(!pFor || !pInit || !pUninit || !pRedI || !pRedF) { fprintf(stderr, "library entry points missing\n"); return 3; }
    names[(u64)&payload] = "the data of the loop body";
    for(int i = 0; i < 64; ++i) names[(u64)&results[i]] = "the results of the loop body";
    int rc = 0;
    std::vector<std::pair<Scenario, int>> S;   // second: 1 = all interleavings
    // every size and position under the default schedule: coverage of the index range
    S.push_back({{"sizes", [] { quietly([] { for(i32 base : {0, -5, 3, 1000, INT_MIN, INT_MAX}) for(int n = 0; n <= 130; ++n) { i32 b = base == INT_MAX ? INT_MAX - n : base; callFor(b, b + n, n & 1); } }); }}, 0});
    S.push_back({{"large", [] { quietly([] { for(int n : {131, 200, 255, 256, 257, 1000, 1023, 1024, 4097, 65535, 65536, 1000003, 1 << 30, INT_MAX - 3, INT_MAX}) for(i32 b : {0, 1, -1, 2, -1000}) { if((long long)b + n > INT_MAX) continue; callFor(b, b + n, 0); } for(i32 b : {INT_MAX - 17, INT_MAX - 1000, INT_MAX - (1 << 20)}) callFor(b, INT_MAX, 1); callFor(5, 5, 0); callFor(5, 4, 0); callFor(INT_MAX, INT_MIN + 0, 0); }); }}, 0});
    // long histories: the thread count is tuned after many calls
    for(int n : {16, 17, 21, 23, 37, 64, 100, 1001}) S.push_back({{fmt("history size %d", n), [n] { quietly([n] { for(int i = 0; i < 420; ++i) callFor(i % 3, i % 3 + n, 0); }); }}, 0});
    for(int best = 0; best < 3; ++best) for(int n : {16, 23, 50, 333}) S.push_back({{fmt("history size %d, fastest %d", n, best), [n, best] { quietly([n, best] { for(int i = 0; i < 300; ++i) { clockInc = i >= 99 && (i - 99) / 20 == best ? 1 : 1000; callFor(-2, n - 2, i / 7 % 2); callFor(-2, n - 2, 3); } }); }}, 0});
    for(auto& r : std::vector<std::pair<i32, i32>>{{INT_MIN, INT_MAX}, {INT_MIN, 0}, {INT_MIN, INT_MAX - 5}, {-1, INT_MAX}, {INT_MIN + 3, 9}, {INT_MAX - 40, INT_MAX}, {INT_MIN, INT_MIN + 40}, {0, INT_MAX}})
        S.push_back({{fmt("history from %d to %d", r.first, r.second), [r] { quietly([r] { for(int i = 0; i < 200; ++i) callFor(r.first, r.second, 0); }); }}, 0});
    S.push_back({{"history of 20 bodies", [] { quietly([] { for(int r = 0; r < 200; ++r) for(int f = 0; f < 20; ++f) callFor(0, 40 + f, f); }); }}, 0});
    S.push_back({{"reductions", [] { quietly([] { for(int i = 0; i < 200; ++i) { callFor(-i, 30 + i, 22); callFor(-i, 30 + i, 23); } }); }}, 0});
    S.push_back({{"history of 24 bodies, uneven", [] { quietly([] { for(int r = 0; r < 400; ++r) for(int f = 0; f < 24; ++f) if(r % (f + 1) == 0) callFor(-f, 50, f); }); }}, 0});
    // all interleavings of the client with one or two workers (the other workers run at once, or as late as possible) ...
    struct Sc { std::string n; std::function<void()> f; int sz; };
    auto warm = [](int n, int sz, int fn) { for(int i = 0; i < n; ++i) callFor(0, sz, fn); };
    std::vector<Sc> base = {
        {"start and stop", [] {}, 3},
        {"one small call", [] { callFor(0, 7, 0); }, 3},
        {"one call, 4 chunks", [] { callFor(0, 16, 0); }, 2},
        {"one call, 3 chunks", [] { callFor(0, 21, 0); }, 2},
        {"two calls", [] { callFor(0, 21, 0); callFor(3, 24, 0); }, 2},
        {"two calls, two bodies", [] { callFor(0, 21, 0); callFor(1, 17, 1); }, 2},
        {"three calls", [] { callFor(0, 16, 0); callFor(1, 22, 1); callFor(2, 18, 0); }, 1},
        {"integer reduction", [] { callFor(0, 21, 22); }, 2},
        {"float reduction", [] { callFor(0, 21, 23); }, 2},
        {"tuned, 1 chunk", [warm] { quietly([&] { warm(100, 18, 0); }); callFor(0, 18, 0); }, 1},
        {"tuned, 2 chunks", [warm] { quietly([&] { warm(121, 18, 0); }); callFor(1, 19, 0); callFor(0, 18, 0); }, 1},
        {"tuned, 4 chunks", [warm] { quietly([&] { warm(141, 18, 1); }); callFor(1, 19, 1); }, 1},
        {"tuned, fastest", [warm] { quietly([&] { warm(170, 18, 1); }); callFor(1, 19, 1); }, 1},
    };
    struct Run { Scenario s; bool branch; u32 focus; bool eager; int pb; };
    std::vector<Run> R;
    for(auto& s : S) R.push_back({s.first, false, ~0u, true, -1});
    for(auto& b : base) {
        for(u32 m = 1; m < 16; ++m) {
            int bits = __builtin_popcount(m);
            if(bits > (quick ? std::min(b.sz, 2) : b.sz + 1)) continue;
            if(quick && bits == 2 && b.n.find("two calls") == 0 && m != 3 && m != 6) continue;
            for(int e = 0; e < 2; ++e) R.push_back({{fmt("%s; workers %x %s", b.n.c_str(), m, e ? "eager" : "lazy"), b.f}, true, m << 1 | 1, !!e, -1});
        }
    }
    // ... and all schedules of all threads with a bounded number of preemptions
    for(auto& b : base) if(b.n.find("tuned") && !(quick && b.n.find("t") == 0)) R.push_back({{fmt("%s; preemptions", b.n.c_str()), b.f}, true, ~0u, true, quick ? 1 : b.n[0] == 't' ? 2 : 3});
    double lim = quick ? 60 : 900;
    for(auto& r : R) {
        if(argc > 4 && r.s.name.find(argv[4]) == std::string::npos) continue;
        focus = r.focus; eager = r.eager; pbound = r.pb;
        rc |= explore(r.s, r.branch, lim);
        if(rc) break;
    }
    printf("{\"summary\":1,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"calls\":%llu,\"indices\":%llu}\n", (unsigned long long)nExec, (unsigned long long)nStates, (unsigned long long)nTrans, (unsigned long long)nCalls, (unsigned long long)nIdx);
    fflush(stdout);
    _exit(rc);
}
