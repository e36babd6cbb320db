// Bounded-exhaustive translation explorer.
//
// Reads jobs (source program, target configurations, entry functions with finite argument domains) and, for every
// job, compiles the program with the compiler under test and executes the emitted assembly on EVERY input vector of
// the domain, comparing each complete execution (return value, I/O history, final contents of all arrays passed in,
// preserved registers, stack discipline) with the definitional reference machine.  Inputs on which the reference
// machine finds undefined behaviour are counted and skipped.
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <mutex>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <spawn.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

#include "emu.hpp"
#include "sysy_ref.hpp"

extern char** environ;

// the repository's own runtime support (compiled from its working tree)
#ifndef NO_RT
struct LUTEntryRT { uint64_t key; int val; int hasVal; };
extern "C" LUTEntryRT* cmmcCacheLookup(LUTEntryRT* table, int key1, int key2);
extern "C" int32_t cmmcAddRec3SRem(int32_t x, int32_t rem);
#endif

using ref::Event;

struct Arg {
    char k;                                  // i f A F @
    std::vector<uint32_t> scalars;           // i/f
    std::vector<std::vector<uint32_t>> arrs; // A/F
    int alias = 0, aliasOff = 0;             // @
    size_t n() const { return k == '@' ? 1 : (k == 'A' || k == 'F') ? arrs.size() : scalars.size(); }
};
struct Fn { std::string name; std::vector<Arg> args; std::vector<std::vector<uint32_t>> inputs; std::vector<std::vector<size_t>> vecs; };
struct Cfg { std::string tgt; std::string opt; std::vector<std::string> extra; std::string text; };
struct Job {
    std::string name, src;
    std::vector<Cfg> cfgs;
    std::vector<Fn> fns;
    uint32_t stack = 128 * 1024;
    std::vector<std::string> par;   // parallel-for schedules
    bool expectReject = false;
    bool modelScan = false;
    bool known = false;              // holds units with recorded findings: does not count towards the report limit
    uint64_t refLimit = 2000000;
    int maxDepth = 1500;
};

static std::string CMMC, OUT, PROP;
static std::mutex outMu;
static std::atomic<uint64_t> nPrograms{0}, nCompiles{0}, nVectors{0}, nUndef{0}, nExec{0}, gSteps{0}, rSteps{0}, nViol{0}, nAsmLines{0};
static std::mutex outcomeMu;
static std::set<uint64_t> outcomes;
static std::vector<std::string> samples;
static std::map<std::string, uint64_t> mnems;
static double compileTimeout = 30;
static int maxViol = 60;
static bool noCheckMain = false;
static std::chrono::steady_clock::time_point deadline;
static bool hasDeadline = false;
static std::atomic<uint64_t> nSkippedJobs{0};

static uint64_t hashBytes(uint64_t h, const void* p, size_t n) { auto q = (const uint8_t*)p; for(size_t i = 0; i < n; ++i) h = (h ^ q[i]) * 1099511628211ull; return h; }

struct RunResult { int status = 0; bool timeout = false; int sig = 0; std::string out; };

static RunResult runProc(const std::vector<std::string>& args, const std::string& outFile, double limit) {
    RunResult r;
    std::vector<char*> av; for(auto& a : args) av.push_back(const_cast<char*>(a.c_str())); av.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, outFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t pid;
    if(posix_spawn(&pid, av[0], &fa, nullptr, av.data(), environ)) { fprintf(stderr, "spawn failed\n"); exit(3); }
    posix_spawn_file_actions_destroy(&fa);
    auto t0 = std::chrono::steady_clock::now();
    int st = 0;
    useconds_t us = 500;
    for(;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if(w == pid) break;
        if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.timeout = true; break; }
        usleep(us); if(us < 4000) us += us / 4;
    }
    if(WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.status = WEXITSTATUS(st);
    return r;
}
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

struct Outcome {
    bool undef = false; const char* why = nullptr;
    bool isVoid = false, isFloat = false;
    uint32_t ret = 0;
    std::vector<Event> trace;
    std::vector<std::vector<uint32_t>> arrs;
    std::vector<std::pair<std::string, std::vector<uint32_t>>> globals;   // final contents of the variables other translation units can see
    std::vector<char> globalFlt;
    uint64_t steps = 0;
};

static std::string fmtEvent(const Event& e) { char b[64]; if(e.k == 'f' || e.k == 'E') snprintf(b, sizeof b, "%c:%a", e.k, (double)ref::u2f(e.v)); else snprintf(b, sizeof b, "%c:%d", e.k, (int)e.v); return b; }
static bool fltSame(uint32_t a, uint32_t b) { if(a == b) return true; float x = ref::u2f(a), y = ref::u2f(b); return x == y || (x != x && y != y); }  // zeros of either sign are one value
static bool evSame(const Event& a, const Event& b) { if(a.k != b.k) return false; if(a.k == 'f' || a.k == 'E') return fltSame(a.v, b.v); return a.v == b.v; }

static std::string vecStr(const Fn& f, const std::vector<size_t>& ix) {
    std::string s = f.name + "(";
    for(size_t a = 0; a < f.args.size(); ++a) {
        if(a) s += ", ";
        auto& g = f.args[a]; char b[64];
        if(g.k == 'i') { snprintf(b, sizeof b, "%d", (int)g.scalars[ix[a]]); s += b; }
        else if(g.k == 'f') { snprintf(b, sizeof b, "%a", (double)ref::u2f(g.scalars[ix[a]])); s += b; }
        else if(g.k == '@') { s += "&arg" + std::to_string(g.alias) + "+" + std::to_string(g.aliasOff); }
        else { s += "{"; size_t n = 0; for(auto v : g.arrs[ix[a]]) { if(n++ >= 40) { s += " ..."; break; } if(g.k == 'A') s += " " + std::to_string((int)v); else { snprintf(b, sizeof b, " %a", (double)ref::u2f(v)); s += b; } } s += " }"; }
    }
    s += ")";
    if(!f.inputs.empty() && !f.inputs[ix.back()].empty()) { s += " stdin:"; for(auto v : f.inputs[ix.back()]) s += " " + std::to_string((int)v); }
    return s;
}

static Outcome runRef(ref::Program& P, const Job& J, const Fn& f, const std::vector<size_t>& ix) {
    Outcome o;
    ref::Program::Machine M(P);
    M.limit = J.refLimit; M.maxDepth = J.maxDepth;
    auto it = P.fmap.find(f.name);
    if(it == P.fmap.end()) { fprintf(stderr, "engine: no function %s in %s\n", f.name.c_str(), J.name.c_str()); exit(3); }
    auto fn = it->second;
    o.isVoid = fn->ret == ref::VOID; o.isFloat = fn->ret == ref::FLOAT;
    try {
        M.initGlobals();
        std::vector<ref::Val> av; std::vector<int> obj(f.args.size(), -1);
        if(fn->params.size() != f.args.size()) { fprintf(stderr, "engine: arity of %s in %s\n", f.name.c_str(), J.name.c_str()); exit(3); }
        for(size_t a = 0; a < f.args.size(); ++a) {
            auto& g = f.args[a]; ref::Val v;
            if(g.k == 'i') v.i = (int32_t)g.scalars[ix[a]];
            else if(g.k == 'f') v.f = ref::u2f(g.scalars[ix[a]]);
            else if(g.k == '@') { v.i = obj[(size_t)g.alias]; v.off = g.aliasOff; obj[a] = v.i; }
            else { auto& A = g.arrs[ix[a]]; v.i = M.alloc((int)A.size(), true, g.k == 'F'); obj[a] = v.i; auto b = M.objs[(size_t)v.i].base; for(size_t k = 0; k < A.size(); ++k) M.mem[b + k] = A[k]; }
            av.push_back(v);
        }
        if(!f.inputs.empty()) M.input = f.inputs[ix.back()];
        size_t nobj = M.objs.size(); (void)nobj;
        auto r = M.call(fn, av);
        o.ret = o.isFloat ? ref::f2u(r.f) : (uint32_t)r.i;
        o.trace = std::move(M.trace);
        for(size_t a = 0; a < f.args.size(); ++a) {
            std::vector<uint32_t> fin;
            if(f.args[a].k == 'A' || f.args[a].k == 'F') { auto& ob = M.objs[(size_t)obj[a]]; fin.assign(M.mem.begin() + ob.base, M.mem.begin() + ob.base + ob.size); }
            o.arrs.push_back(std::move(fin));
        }
        if(f.name != "main") for(auto g : P.globals) if(!g->ty.isConst) {
            auto& ob = M.objs[(size_t)M.gobj[(size_t)g->slot]];
            o.globals.emplace_back(g->name, std::vector<uint32_t>(M.mem.begin() + ob.base, M.mem.begin() + ob.base + ob.size)); o.globalFlt.push_back(g->ty.base == ref::FLOAT);
        }
    } catch(ref::Undef& u) { o.undef = true; o.why = u.why; }
    o.steps = M.steps; rSteps += M.steps;
    return o;
}

struct Guest {
    emu::Module mod;
    std::vector<uint8_t> mem;
};

// schedule of a parallel-for region: list of chunks in execution order
struct ParCtl { const std::vector<int>* order = nullptr; int threads = 2; };

static std::string runGuest(Guest& G, const Job& J, const Fn& f, const std::vector<size_t>& ix, const Outcome& R, const std::string& par, bool hidden, uint32_t& events) {
    events = 0;
    using namespace emu;
    auto& m = G.mod;
    uint32_t imgEnd = MEM_LO + (uint32_t)m.image.size();
    imgEnd = (imgEnd + 63u) & ~63u;
    uint32_t stackLo = imgEnd + 64, stackTop = (stackLo + J.stack) & ~63u;
    const uint32_t callerFrame = 1024;
    uint32_t scratch = stackTop + callerFrame, heap = scratch + 64 + 64;
    std::vector<uint32_t> arrAddr(f.args.size(), 0); std::vector<uint32_t> arrLen(f.args.size(), 0);
    uint32_t cur = heap;
    for(size_t a = 0; a < f.args.size(); ++a) if(f.args[a].k == 'A' || f.args[a].k == 'F') { arrAddr[a] = cur; arrLen[a] = 4u * (uint32_t)f.args[a].arrs[ix[a]].size(); cur = (cur + arrLen[a] + 32u + 15u) & ~15u; }
    uint32_t top = cur + 64;
    G.mem.resize(top - MEM_LO);
    memcpy(G.mem.data(), m.image.data(), m.image.size());
    memset(G.mem.data() + m.image.size(), 0xA5, G.mem.size() - m.image.size());
    for(auto& g : m.gaps) memset(&G.mem[g.first - MEM_LO], 0xA5, g.second);
    Machine M(m, G.mem);
    M.stackLo = stackLo;
    M.limit = R.steps * 400 + 3000000;
    // registers: distinct poison values
    for(int i = 0; i < 32; ++i) { M.c.x[i] = m.arch == RV ? (int64_t)(0x5a5a0000c0de0000ull + (uint64_t)i * 0x101) : (int64_t)(int32_t)(0xc0de0000u + (uint32_t)i * 0x101u); if(m.arch == ARM) M.c.x[i] = (uint32_t)M.c.x[i]; M.c.f[i] = 0x7fb00000u + (uint32_t)i; }
    if(m.arch != ARM) M.c.x[0] = 0;
    for(size_t a = 0; a < f.args.size(); ++a) {
        if(!arrAddr[a]) continue;
        auto& A = f.args[a].arrs[ix[a]];
        if(!A.empty()) memcpy(&G.mem[arrAddr[a] - MEM_LO], A.data(), A.size() * 4);
    }
    uint32_t sp = stackTop;
    // ---- argument passing by the documented ABI of each target
    struct Slot { uint32_t v; bool flt; bool ptr; };
    std::vector<Slot> sl;
    for(size_t a = 0; a < f.args.size(); ++a) {
        auto& g = f.args[a];
        if(g.k == 'i') sl.push_back({g.scalars[ix[a]], false, false}); else if(g.k == 'f') sl.push_back({g.scalars[ix[a]], true, false});
        else if(g.k == '@') { arrAddr[a] = arrAddr[(size_t)g.alias]; sl.push_back({arrAddr[(size_t)g.alias] + 4u * (uint32_t)g.aliasOff, false, true}); }
        else sl.push_back({arrAddr[a], false, true});
    }
    std::vector<std::pair<uint32_t, uint32_t>> outSlots;  // caller-frame words owned by the callee
    uint32_t off = 0;
    auto put = [&](uint32_t o, uint32_t v, bool wide) { memcpy(&G.mem[sp + o - MEM_LO], &v, 4); if(wide) { uint32_t h = 0; memcpy(&G.mem[sp + o + 4 - MEM_LO], &h, 4); } outSlots.push_back({sp + o, wide ? 8u : 4u}); };
    if(m.arch == RV) {
        int gi = 0, fi = 0;
        for(auto& s : sl) {
            if(s.flt) { if(fi < 8) { M.c.f[10 + fi++] = s.v; continue; } if(gi < 8) { M.c.x[10 + gi++] = (int32_t)s.v; continue; } put(off, s.v, false); outSlots.back().second = 8; off += 8; }
            else { int64_t v = s.ptr ? (int64_t)s.v : (int64_t)(int32_t)s.v; if(gi < 8) { M.c.x[10 + gi++] = v; continue; } memcpy(&G.mem[sp + off - MEM_LO], &v, 8); outSlots.push_back({sp + off, 8}); off += 8; }
        }
    } else if(m.arch == ARM) {
        int gi = 0, fi = 0;
        for(auto& s : sl) {
            if(s.flt) { if(fi < 16) M.c.f[fi++] = s.v; else { put(off, s.v, false); off += 4; } }
            else { if(gi < 4) M.c.x[gi++] = s.v; else { put(off, s.v, false); off += 4; } }
        }
    } else {
        outSlots.push_back({sp, 16});
        int k = 0;
        for(auto& s : sl) {
            uint32_t o = 4u * (uint32_t)k;
            if(s.flt && o < 8) M.c.f[12 + 2 * k] = s.v;
            else if(o < 16) M.c.x[4 + k] = (int32_t)s.v;
            else put(o, s.v, false);
            ++k;
        }
    }
    M.c.x[M.spReg()] = sp;
    if(m.arch == MIPS) M.c.x[28] = 0x12345678;
    std::vector<Event> tr; size_t ip = 0;
    static const std::vector<uint32_t> noIn;
    auto& in = f.inputs.empty() ? noIn : f.inputs[ix.back()];
    auto rd = [&]() -> uint32_t { if(ip >= in.size()) throw Trap("read past the end of the input"); return in[ip++]; };
    int parDepth = 0;
    M.ext = [&](Machine& mm, const std::string& s) {
        if((mm.sp() & (m.arch == RV ? 7u : m.arch == ARM ? 7u : 7u)) != 0) throw Trap("misaligned stack pointer at a call");
        CPU before = mm.c;
        auto done = [&](bool isInt, bool isFlt, uint32_t v) {
            int64_t ra = mm.c.x[m.arch == RV ? 1 : m.arch == ARM ? 14 : 31];
            mm.poisonCallerSaved();
            mm.c.x[m.arch == RV ? 1 : m.arch == ARM ? 14 : 31] = ra;
            if(isInt) mm.setIntRet((int32_t)v); if(isFlt) mm.setFloatRet(ref::u2f(v));
            if(isFlt) mm.c.f[m.arch == RV ? 10 : 0] = v;
        };
        auto fa0 = [&]() { return mm.c.f[m.arch == RV ? 10 : m.arch == ARM ? 0 : 12]; };
        auto ptr = [&](int k) -> uint32_t { return (uint32_t)mm.intArg(k); };
        if(s == "putint") { tr.push_back({'i', (uint32_t)mm.intArg(0)}); done(false, false, 0); }
        else if(s == "putch") { tr.push_back({'c', (uint32_t)mm.intArg(0) & 0xff}); done(false, false, 0); }
        else if(s == "putfloat") { tr.push_back({'f', fa0()}); done(false, false, 0); }
        else if(s == "getint" || s == "getch") { auto v = rd(); done(true, false, v); }
        else if(s == "getfloat") { auto v = rd(); done(false, true, v); }
        else if(s == "getarray" || s == "getfarray") { uint32_t p = ptr(0); int32_t n = (int32_t)rd(); for(int32_t i = 0; i < n; ++i) *mm.at<uint32_t>(p + 4u * (uint32_t)i) = rd(); done(true, false, (uint32_t)n); }
        else if(s == "putarray" || s == "putfarray") { int32_t n = mm.intArg(0); uint32_t p = ptr(1); bool fl = s == "putfarray"; tr.push_back({fl ? 'A' : 'a', (uint32_t)n}); for(int32_t i = 0; i < n; ++i) tr.push_back({fl ? 'E' : 'e', *mm.at<uint32_t>(p + 4u * (uint32_t)i)}); done(false, false, 0); }
        else if(s == "_sysy_starttime") { tr.push_back({'s', 0}); done(false, false, 0); }
        else if(s == "_sysy_stoptime") { tr.push_back({'S', 0}); done(false, false, 0); }
        else if(s == "memset" || s == "memcpy") {
            uint32_t d = ptr(0); uint32_t n = (uint32_t)mm.intArg(2);
            if(s == "memset") { for(uint32_t i = 0; i < n; ++i) *mm.at<uint8_t>(d + i) = (uint8_t)mm.intArg(1); } else { uint32_t q = ptr(1); for(uint32_t i = 0; i < n; ++i) *mm.at<uint8_t>(d + i) = *mm.at<uint8_t>(q + i); }
            done(true, false, d);
        }
#ifndef NO_RT
        else if(s == "cmmcCacheLookup") {
            uint32_t t = ptr(0); int32_t k1 = mm.intArg(1), k2 = mm.intArg(2);
            mm.at<uint64_t>(t); mm.at<uint64_t>(t + 1021u * 16u - 8u);
            auto base = (uint8_t*)&G.mem[t - MEM_LO];
            alignas(16) static thread_local uint8_t tmp[1021 * 16];
            memcpy(tmp, base, sizeof tmp);
            auto r = cmmcCacheLookup((LUTEntryRT*)tmp, k1, k2);
            auto o = (uint8_t*)r - tmp;
            if(o <= -65536 || o >= 65536) {
                // an entry of the runtime's own, outside every table: give the guest its copy (which must not claim to hold a value)
                memcpy(&G.mem[scratch - MEM_LO], r, 16);
                o = (long)scratch - (long)t;
            } else if(o < 0 || o >= (long)sizeof tmp || o % 16) throw Trap("cache lookup returned an address outside the table");
            memcpy(base, tmp, sizeof tmp);
            uint32_t res = t + (uint32_t)o;
            done(false, false, 0);
            if(m.arch == RV) mm.c.x[10] = (int64_t)res; else if(m.arch == ARM) mm.c.x[0] = res; else mm.c.x[2] = (int32_t)res;
        }
        else if(s == "cmmcAddRec3SRem") { auto a = mm.intArg(0), b = mm.intArg(1); if(b == 0 || (b == -1)) throw Trap("AddRec3SRem by zero"); done(true, false, (uint32_t)cmmcAddRec3SRem(a, b)); }
#endif
        else if(s == "cmmcReduceAddI32") { uint32_t p = ptr(0); *mm.at<uint32_t>(p) += (uint32_t)mm.intArg(1); done(false, false, 0); }
        else if(s == "cmmcReduceAddF32") { uint32_t p = ptr(0); uint32_t fv = fa0(); float x = ref::u2f(*mm.at<uint32_t>(p)) + ref::u2f(fv); *mm.at<uint32_t>(p) = ref::f2u(x); done(false, false, 0); }
        else if(s == "cmmcParallelFor") {
            int32_t beg = mm.intArg(0), end = mm.intArg(1); uint32_t fnA = ptr(2);
            if(fnA < CODE_BASE || (fnA & 3) || (fnA - CODE_BASE) / 4 >= m.code.size()) throw Trap("parallel-for body is not code");
            int32_t entry = (int32_t)((fnA - CODE_BASE) / 4);
            // schedule: string of digits "k:order" -> k chunks, executed in the given order
            std::vector<std::pair<int32_t, int32_t>> chunks;
            int k = 1; std::string ord = "0";
            auto c = par.find(':'); if(c != std::string::npos) { k = atoi(par.c_str()); ord = par.substr(c + 1); }
            int64_t n = (int64_t)end - beg;
            if(n > 0) {
                int64_t inc = std::max<int64_t>(1, (n + k - 1) / k);
                for(char d : ord) { int64_t lo = beg + inc * (d - '0'), hi = (d - '0') == k - 1 ? end : std::min<int64_t>(lo + inc, end); if(lo < hi) chunks.push_back({(int32_t)lo, (int32_t)hi}); }
            }
            if(++parDepth > 4) throw Trap("nested parallel-for");
            CPU sv = mm.c;
            for(auto& ch : chunks) {
                mm.poisonCallerSaved();
                CPU b2 = mm.c;
                if(m.arch == RV) { mm.c.x[10] = ch.first; mm.c.x[11] = ch.second; } else if(m.arch == ARM) { mm.c.x[0] = (uint32_t)ch.first; mm.c.x[1] = (uint32_t)ch.second; } else { mm.c.x[4] = ch.first; mm.c.x[5] = ch.second; }
                uint32_t osp = mm.sp(); mm.c.x[mm.spReg()] = (int64_t)((osp - 256u) & ~63u);
                b2.x[mm.spReg()] = mm.c.x[mm.spReg()];
                mm.callGuest(entry);
                std::string why; if(!mm.calleeSavedEq(b2, why)) throw Trap("parallel body does not preserve " + why);
                mm.c.x[mm.spReg()] = osp;
            }
            int32_t pc = mm.c.pc; (void)pc;
            mm.c = sv; --parDepth;
            done(false, false, 0);
        }
        else throw Trap("call to unknown external function " + s);
        std::string why;
        (void)before;
    };
    auto it = m.codeLabel.find(f.name);
    if(it == m.codeLabel.end()) return "function " + f.name + " is not defined in the emitted assembly";
    CPU before = M.c;
    std::string err;
    std::vector<uint8_t> callerCopy(G.mem.begin() + (long)(sp - MEM_LO), G.mem.begin() + (long)(sp - MEM_LO) + callerFrame);
    try { M.callGuest(it->second); }
    catch(Trap& t) { err = t.what(); }
    catch(StepLimit&) { err = "does not terminate within " + std::to_string(M.limit) + " steps (reference: " + std::to_string(R.steps) + ")"; }
    gSteps += M.steps; ++nExec;
    events = M.events;
    if(!err.empty()) return err;
    char b[256];
    if(!R.isVoid) {
        uint32_t rv = R.isFloat ? ref::f2u(M.floatRet()) : (uint32_t)M.intRet();
        if(R.isFloat) rv = M.c.f[m.arch == RV ? 10 : 0];
        if(R.isFloat ? !fltSame(rv, R.ret) : rv != R.ret) { if(R.isFloat) snprintf(b, sizeof b, "returned %a, expected %a", (double)ref::u2f(rv), (double)ref::u2f(R.ret)); else snprintf(b, sizeof b, "returned %d, expected %d", (int)rv, (int)R.ret); return b; }
        if(!R.isFloat && m.arch == RV && M.c.x[10] != (int64_t)(int32_t)M.c.x[10]) return "int result is not sign-extended in a0";
    }
    for(size_t i = 0; i < std::max(tr.size(), R.trace.size()); ++i) {
        if(i >= tr.size()) return "I/O history stops after " + std::to_string(i) + " events; expected " + fmtEvent(R.trace[i]);
        if(i >= R.trace.size()) return "extra I/O event " + fmtEvent(tr[i]) + " at position " + std::to_string(i);
        if(!evSame(tr[i], R.trace[i])) return "I/O event " + std::to_string(i) + " is " + fmtEvent(tr[i]) + ", expected " + fmtEvent(R.trace[i]);
    }
    for(size_t a = 0; a < f.args.size(); ++a) {
        if(f.args[a].k != 'A' && f.args[a].k != 'F') continue;
        for(size_t i = 0; i < R.arrs[a].size(); ++i) {
            uint32_t v; memcpy(&v, &G.mem[arrAddr[a] + 4 * i - MEM_LO], 4);
            if(f.args[a].k == 'F' ? !fltSame(v, R.arrs[a][i]) : v != R.arrs[a][i]) { snprintf(b, sizeof b, "array argument %d element %d is 0x%x, expected 0x%x", (int)a, (int)i, v, R.arrs[a][i]); return b; }
        }
        for(uint32_t i = 0; i < 16; ++i) if(G.mem[arrAddr[a] + arrLen[a] + i - MEM_LO] != 0xA5) return "write past the end of array argument " + std::to_string(a);
    }
    if(!hidden) for(size_t k = 0; k < R.globals.size(); ++k) {
        auto& g = R.globals[k]; auto d = m.dataLabel.find(g.first);
        if(d == m.dataLabel.end()) continue;
        for(size_t i = 0; i < g.second.size(); ++i) {
            uint32_t v = *M.at<uint32_t>(d->second + 4u * (uint32_t)i);
            if(R.globalFlt[k] ? !fltSame(v, g.second[i]) : v != g.second[i]) { snprintf(b, sizeof b, "global %s element %d is 0x%x afterwards, expected 0x%x", g.first.c_str(), (int)i, v, g.second[i]); return b; }
        }
    }
    for(uint32_t i = 0; i < 64; ++i) if(G.mem[heap - 64 + i - MEM_LO] != 0xA5 && heap - 64 + i >= stackTop + callerFrame) return "write before the first array argument";
    for(auto& g : m.gaps) for(uint32_t i = 0; i < g.second; ++i) if(G.mem[g.first + i - MEM_LO] != 0xA5) return "write outside every data object";
    std::string why;
    if(!M.calleeSavedEq(before, why)) return "callee-saved register " + why + " not preserved";
    for(auto& s : outSlots) memcpy(&callerCopy[s.first - sp], &G.mem[s.first - MEM_LO], s.second);
    if(memcmp(callerCopy.data(), &G.mem[sp - MEM_LO], callerFrame)) return "the caller's stack frame was overwritten";
    return "";
}

static std::vector<std::vector<size_t>> product(const Fn& f) {
    std::vector<std::vector<size_t>> r;
    std::vector<size_t> n; for(auto& a : f.args) n.push_back(a.n());
    if(!f.inputs.empty()) n.push_back(f.inputs.size());
    std::vector<size_t> ix(n.size(), 0);
    for(;;) {
        r.push_back(ix);
        size_t k = n.size();
        while(k > 0) { --k; if(++ix[k] < n[k]) break; ix[k] = 0; if(k == 0) return r; }
        if(n.empty()) return r;
    }
}

static void violation(const Job& J, const std::string& cfg, const std::string& fn, const std::string& vec, const std::string& what, const std::string& asmText) {
    std::lock_guard<std::mutex> g(outMu);
    static uint64_t serial = 0;
    if(!J.known && (int)++nViol > maxViol) return;
    auto k = ++serial;
    std::string path = OUT + "/viol-" + std::to_string(k) + ".txt";
    std::ofstream o(path);
    o << "property: " << PROP << "\njob: " << J.name << "\nconfig: " << cfg << "\ninput: " << vec << "\nobserved: " << what << "\n\n--- source\n" << J.src << "\n--- emitted assembly\n" << asmText << "\n";
    o.close();
    std::string w = what + " | " + vec; for(auto& c : w) if((unsigned char)c < 32 || c == '"' || c == '\\') c = ' ';
    if(w.size() > 600) w.resize(600);
    printf("{\"violation\":\"%s\",\"job\":\"%s\",\"fn\":\"%s\",\"cfg\":\"%s\",\"replay\":\"%s\"}\n", w.c_str(), J.name.c_str(), fn.c_str(), cfg.c_str(), path.c_str()); fflush(stdout);
}

static std::string cfgStr(const Cfg& c) { return c.text; }

// A mismatch in an execution that went through an instruction sequence with a recorded meaning (emu.hpp, events): reported with a
// label, once per label and target; the caller decides whether that label is a recorded defect. Exploration of the other inputs goes on.
static std::map<std::string, uint64_t> labelCount;
static void labelled(const Job& J, const std::string& cfg, const std::string& fn, const std::string& vec, const std::string& what, uint32_t ev) {
    std::string l = ev & emu::Machine::EvQuotient ? "unextended-quotient" : ev & emu::Machine::EvBranchDiff ? "branch-on-wrapped-difference" : ev & emu::Machine::EvShiftAdd ? "unextended-shift-add" : ev & emu::Machine::EvWrappedBound ? "wrapped-bound" : "moved-value-overflow-flag";
    std::lock_guard<std::mutex> g(outMu);
    if(labelCount[l + cfg.substr(0, cfg.find(':'))]++) return;
    std::string w = what + " | " + vec; for(auto& c : w) if((unsigned char)c < 32 || c == '"' || c == '\\') c = ' ';
    printf("{\"label\":\"%s\",\"what\":\"%s\",\"job\":\"%s\",\"fn\":\"%s\",\"cfg\":\"%s\"}\n", l.c_str(), w.substr(0, 500).c_str(), J.name.c_str(), fn.c_str(), cfg.c_str()); fflush(stdout);
}


static bool compileTo(const Job& J, const Cfg& c, const std::string& tmp, std::string& text, std::string& err, double limit, const std::vector<std::string>& more = {}) {
    std::string in = tmp + ".sy", out = tmp + ".s", log = tmp + ".log";
    { std::ofstream f(in); f << J.src; }
    unlink(out.c_str());
    std::vector<std::string> a = {CMMC, "-t", c.tgt, "-O", c.opt, "--with-runtime=false", "-w", "0", "-o", out};
    for(auto& e : c.extra) a.push_back(e);
    for(auto& e : more) a.push_back(e);
    a.push_back(in);
    auto r = runProc(a, log, limit);
    ++nCompiles;
    if(r.timeout) { err = "compiler did not finish within " + std::to_string((int)limit) + " s"; return false; }
    if(r.sig) { err = "compiler killed by signal " + std::to_string(r.sig) + ": " + slurp(log).substr(0, 400); return false; }
    if(r.status) { err = "compiler exit status " + std::to_string(r.status) + ": " + slurp(log).substr(0, 400); return false; }
    text = slurp(out);
    if(text.empty()) { err = "compiler produced no output: " + slurp(log).substr(0, 400); return false; }
    return true;
}

static std::string renderTrace(const std::vector<Event>& tr) {
    std::string exp; char b[64];
    for(auto& e : tr) switch(e.k) {
        case 'i': exp += std::to_string((int)e.v); break; case 'c': exp += (char)e.v; break;
        case 'f': snprintf(b, sizeof b, "%a", (double)ref::u2f(e.v)); exp += b; break;
        case 'a': case 'A': exp += std::to_string((int)e.v) + ":"; break; case 'e': exp += " " + std::to_string((int)e.v); break;
        case 'E': snprintf(b, sizeof b, " %a", (double)ref::u2f(e.v)); exp += b; break;
    }
    return exp;
}
static std::string normOut(const std::string& s) {
    std::string t; bool sp = false;
    for(char ch : s) { if(ch == ' ' || ch == '\n' || ch == '\r') { sp = true; continue; } if(sp && !t.empty()) t += ' '; sp = false; t += ch; }
    for(size_t q; (q = t.find("-0x0p+0")) != std::string::npos;) t.erase(q, 1);   // zeros of either sign are one value
    return t;
}
static std::string interpExec(const std::string& src, const Cfg& c, const std::string& tmp, const std::string& inp, const std::string& exp, double limit) {
    { std::ofstream o(tmp + ".in"); o << inp; }
    { std::ofstream o(tmp + ".sy"); o << src; }
    std::string log = tmp + ".log", out = tmp + ".out"; unlink(out.c_str());
    std::vector<std::string> a = {CMMC, "-t", "sim", "-O", c.opt, "-w", "0", "--execute-input=" + tmp + ".in", "-o", out};
    for(auto& e : c.extra) a.push_back(e);
    a.push_back(tmp + ".sy");
    auto r = runProc(a, log, limit);
    ++nExec;
    if(r.timeout) return "interpreter did not finish within " + std::to_string((int)limit) + " s";
    if(r.sig) return "interpreter killed by signal " + std::to_string(r.sig) + ": " + slurp(log).substr(0, 300);
    auto g = normOut(slurp(out) + "\n" + std::to_string(r.status & 0xff)), e = normOut(exp);
    if(g == e) return "";
    size_t d = 0; while(d < g.size() && d < e.size() && g[d] == e[d]) ++d;
    auto cut = [&](const std::string& x) { size_t b = d > 60 ? d - 60 : 0; return (b ? "..." : "") + x.substr(b, 140); };
    std::string l = slurp(log); if(l.find("{\"time\"") == 0) l = "";
    return "interpreter produced '" + cut(g) + "', expected '" + cut(e) + "' " + l.substr(0, 200);
}
static std::string interpRun(const Job& J, const Cfg& c, const std::string& tmp, const Fn& f, const std::vector<size_t>& ix, const Outcome& R, double limit) {
    // whole program through the built-in interpreter: stdin as text, stdout compared with the rendered trace
    std::string inp; if(!f.inputs.empty()) for(auto v : f.inputs[ix.back()]) inp += std::to_string((int)v) + "\n";
    return interpExec(J.src, c, tmp, inp, renderTrace(R.trace) + "\n" + std::to_string(R.ret & 0xff), limit);
}
// The functions of a module, driven by a main that reads a function number and the arguments of each call, one line of output per
// call. One execution of the interpreter covers every defined input vector of every function.
struct InterpBatch { std::string src, inp, exp; size_t calls = 0; };
static InterpBatch interpBatch(const Job& J, ref::Program& P, const std::vector<std::vector<std::vector<size_t>>>& V, const std::vector<std::vector<Outcome>>& R, int onlyFn, long onlyVec) {
    InterpBatch B; B.src = J.src + "\nint main(){int zz_s=getint();while(zz_s>=0){";
    char b[64];
    for(size_t k = 0; k < J.fns.size(); ++k) {
        if(onlyFn >= 0 && (int)k != onlyFn) continue;
        auto& f = J.fns[k]; auto fn = P.fmap.at(f.name);
        std::string body = "if(zz_s==" + std::to_string(k) + "){", call = f.name + "(", after;
        for(size_t a = 0; a < f.args.size(); ++a) {
            auto& g = f.args[a]; std::string n = "zz_" + std::to_string(a);
            if(a) call += ",";
            if(g.k == 'i') { body += "int " + n + "=getint();"; call += n; }
            else if(g.k == 'f') { body += "float " + n + "=getfloat();"; call += n; }
            else if(g.k == '@') { if(g.aliasOff) { fprintf(stderr, "engine: overlap with an offset is not expressible in %s\n", J.name.c_str()); exit(3); } call += "zz_" + std::to_string(g.alias); }
            else {
                size_t m = 1; for(auto& A : g.arrs) m = std::max(m, A.size());
                bool fl = g.k == 'F';
                body += std::string(fl ? "float " : "int ") + n + "[" + std::to_string(m) + "];int " + n + "n=" + (fl ? "getfarray(" : "getarray(") + n + ");";
                after += std::string(fl ? "putfarray(" : "putarray(") + n + "n," + n + ");";
                call += n;
            }
        }
        call += ")";
        if(fn->ret == ref::VOID) body += call + ";"; else if(fn->ret == ref::FLOAT) body += "float zz_r=" + call + ";putch(10);putfloat(zz_r);"; else body += "int zz_r=" + call + ";putch(10);putint(zz_r);";
        B.src += body + "putch(10);" + after + "}";
        for(size_t v = 0; v < V[k].size(); ++v) {
            if(R[k][v].undef || (onlyVec >= 0 && (long)v != onlyVec)) continue;
            auto& ix = V[k][v]; auto& o = R[k][v];
            if(!f.inputs.empty()) { fprintf(stderr, "engine: %s reads input and cannot be batched\n", f.name.c_str()); exit(3); }
            B.inp += std::to_string(k) + "\n"; ++B.calls;
            B.exp += renderTrace(o.trace);
            if(fn->ret == ref::FLOAT) { snprintf(b, sizeof b, "\n%a\n", (double)ref::u2f(o.ret)); B.exp += b; } else if(fn->ret == ref::VOID) B.exp += "\n"; else B.exp += "\n" + std::to_string((int)o.ret) + "\n";
            for(size_t a = 0; a < f.args.size(); ++a) {
                auto& g = f.args[a];
                if(g.k == 'i') B.inp += std::to_string((int)g.scalars[ix[a]]) + "\n";
                else if(g.k == 'f') { snprintf(b, sizeof b, "%a\n", (double)ref::u2f(g.scalars[ix[a]])); B.inp += b; }
                else if(g.k == 'A' || g.k == 'F') {
                    auto& A = g.arrs[ix[a]]; B.inp += std::to_string(A.size()) + "\n"; B.exp += std::to_string(A.size()) + ":";
                    for(size_t q = 0; q < A.size(); ++q) {
                        if(g.k == 'A') { B.inp += std::to_string((int)A[q]) + " "; B.exp += " " + std::to_string((int)o.arrs[a][q]); }
                        else { snprintf(b, sizeof b, "%a ", (double)ref::u2f(A[q])); B.inp += b; snprintf(b, sizeof b, " %a", (double)ref::u2f(o.arrs[a][q])); B.exp += b; }
                    }
                    B.inp += "\n"; B.exp += "\n";
                }
            }
        }
    }
    B.src += "zz_s=getint();}return 0;}\n"; B.inp += "-1\n"; B.exp += "\n0";
    return B;
}

static void runJob(const Job& J, const std::string& tmp) {
    ++nPrograms;
    std::unique_ptr<ref::Program> P;
    try { P = std::make_unique<ref::Program>(J.src); }
    catch(std::exception& e) { fprintf(stderr, "engine: reference front end rejects %s: %s\n%s\n", J.name.c_str(), e.what(), J.src.c_str()); exit(3); }
    catch(ref::Undef& u) { fprintf(stderr, "engine: reference front end: undefined constant in %s: %s\n", J.name.c_str(), u.why); exit(3); }
    std::vector<std::vector<Outcome>> R(J.fns.size());
    std::vector<std::vector<std::vector<size_t>>> V(J.fns.size());
    std::set<uint64_t> localOut;
    uint64_t jobH = hashBytes(1469598103934665603ull, J.name.data(), J.name.size());
    for(size_t k = 0; k < J.fns.size(); ++k) {
        V[k] = product(J.fns[k]);
        for(auto& ix : V[k]) {
            R[k].push_back(runRef(*P, J, J.fns[k], ix)); auto& o = R[k].back();
            ++nVectors; if(o.undef) { ++nUndef; continue; }
            uint64_t h = hashBytes(jobH, J.fns[k].name.data(), J.fns[k].name.size()); h = hashBytes(h, &o.ret, 4);
            for(auto& e : o.trace) { h = hashBytes(h, &e.k, 1); h = hashBytes(h, &e.v, 4); }
            for(auto& A : o.arrs) h = hashBytes(h, A.data(), A.size() * 4);
            localOut.insert(h);
        }
    }
    { std::lock_guard<std::mutex> g(outcomeMu); outcomes.insert(localOut.begin(), localOut.end()); }
    for(auto& c : J.cfgs) {
        if((int)nViol > maxViol) return;
        if(c.tgt == "sim" && J.fns.size() && J.fns[0].name != "main") {
            auto B = interpBatch(J, *P, V, R, -1, -1);
            nExec += B.calls;
            auto e = interpExec(B.src, c, tmp, B.inp, B.exp, compileTimeout);
            if(e.empty()) continue;
            bool found = false;
            for(size_t k = 0; k < J.fns.size(); ++k) {
                auto K = interpBatch(J, *P, V, R, (int)k, -1);
                if(interpExec(K.src, c, tmp, K.inp, K.exp, compileTimeout * 4).empty()) continue;
                for(size_t v = 0; v < V[k].size(); ++v) {
                    if(R[k][v].undef) continue;
                    auto K1 = interpBatch(J, *P, V, R, (int)k, (long)v);
                    auto e1 = interpExec(K1.src, c, tmp, K1.inp, K1.exp, compileTimeout * 4);
                    if(!e1.empty()) { violation(J, cfgStr(c), J.fns[k].name, vecStr(J.fns[k], V[k][v]), e1, ""); found = true; break; }
                }
            }
            if(!found && !interpExec(B.src, c, tmp, B.inp, B.exp, compileTimeout * 4).empty()) violation(J, cfgStr(c), "", "all vectors", e, "");
            continue;
        }
        if(c.tgt == "sim") {
            for(size_t k = 0; k < J.fns.size(); ++k) for(size_t v = 0; v < V[k].size(); ++v) {
                if(R[k][v].undef) continue;
                auto e = interpRun(J, c, tmp, J.fns[k], V[k][v], R[k][v], compileTimeout);
                if(!e.empty()) { auto e2 = interpRun(J, c, tmp, J.fns[k], V[k][v], R[k][v], compileTimeout * 4); if(!e2.empty()) { violation(J, cfgStr(c), J.fns[k].name, vecStr(J.fns[k], V[k][v]), e2, ""); goto next; } }
            }
            next: continue;
        }
        std::string text, err;
        if(!compileTo(J, c, tmp, text, err, compileTimeout)) {
            std::string t2, e2;
            if(!compileTo(J, c, tmp, t2, e2, compileTimeout * 5)) { violation(J, cfgStr(c), "", "compile", e2, ""); continue; }
            text = t2;
        }
        auto G = std::make_unique<Guest>();
        G->mod.arch = c.tgt == "riscv" ? emu::RV : c.tgt == "arm" ? emu::ARM : emu::MIPS;
        try { emu::parseModule(G->mod, text); }
        catch(emu::Trap& t) { violation(J, cfgStr(c), "", "assemble", std::string("emitted assembly is not valid: ") + t.what(), text); continue; }
        nAsmLines += G->mod.code.size();
        { std::map<std::string, uint64_t> loc; for(auto& s : G->mod.src) { auto sp = s.find(' '); ++loc[c.tgt + " " + s.substr(0, sp)]; } std::lock_guard<std::mutex> g(outcomeMu); for(auto& kv : loc) mnems[kv.first] += kv.second; }
        bool hid = false; for(auto& e : c.extra) hid |= e == "-H" || e == "--hide-symbol";
        for(size_t k = 0; k < J.fns.size(); ++k) {
            bool bad = false;
            for(size_t v = 0; v < V[k].size() && !bad; ++v) {
                if(R[k][v].undef) continue;
                size_t np = J.par.empty() ? 1 : J.par.size();
                for(size_t q = 0; q < np && !bad; ++q) {
                    std::string par = J.par.empty() ? "" : J.par[q];
                    uint32_t ev = 0; auto e = runGuest(*G, J, J.fns[k], V[k][v], R[k][v], par, hid, ev);
                    if(!e.empty()) {
                        // replay before report
                        uint32_t ev2 = 0; auto e2 = runGuest(*G, J, J.fns[k], V[k][v], R[k][v], par, hid, ev2);
                        if(e2 != e) { fprintf(stderr, "engine: replay diverged: %s / %s\n", e.c_str(), e2.c_str()); exit(3); }
                        if(ev) { labelled(J, cfgStr(c), J.fns[k].name, vecStr(J.fns[k], V[k][v]), e, ev); continue; }
                        violation(J, cfgStr(c) + (par.empty() ? "" : " schedule " + par), J.fns[k].name, vecStr(J.fns[k], V[k][v]), e, text); bad = true;
                    }
                }
            }
        }
    }
    {
        std::lock_guard<std::mutex> g(outcomeMu);
        if(samples.size() < 3 && !J.fns.empty() && !V[0].empty()) {
            size_t v = V[0].size() / 2; auto& o = R[0][v];
            std::string s = J.name + ": " + vecStr(J.fns[0], V[0][v]) + (o.undef ? std::string(" -> undefined (") + o.why + "), skipped" : " -> ret " + std::to_string((int)o.ret) + ", " + std::to_string(o.trace.size()) + " I/O events");
            std::string cfgs; for(auto& c : J.cfgs) cfgs += " " + c.text;
            samples.push_back(s + " on" + cfgs);
        }
    }
}

static std::vector<uint32_t> parseList(const std::string& s) {
    std::vector<uint32_t> r; std::stringstream ss(s); std::string t;
    while(std::getline(ss, t, ',')) if(!t.empty()) r.push_back((uint32_t)strtoll(t.c_str(), nullptr, 0));
    return r;
}

static std::vector<Job> readJobs(std::istream& in) {
    std::vector<Job> js; std::string l; Job* J = nullptr;
    while(std::getline(in, l)) {
        std::stringstream ss(l); std::string w; ss >> w;
        if(w == "JOB") { js.emplace_back(); J = &js.back(); ss >> J->name; }
        else if(w == "CFG") { std::string c; ss >> c; Cfg g; g.text = l.substr(4); auto p = c.find(':'); g.tgt = c.substr(0, p); g.opt = c.substr(p + 1); while(ss >> c) g.extra.push_back(c); J->cfgs.push_back(g); }
        else if(w == "SRC") { size_t n; ss >> n; J->src.resize(n); in.read(&J->src[0], (long)n); std::getline(in, l); }
        else if(w == "STACK") ss >> J->stack;
        else if(w == "LIMIT") ss >> J->refLimit;
        else if(w == "DEPTH") ss >> J->maxDepth;
        else if(w == "KNOWN") J->known = true;
        else if(w == "PAR") { std::string c; while(ss >> c) J->par.push_back(c); }
        else if(w == "FN") { J->fns.emplace_back(); ss >> J->fns.back().name; }
        else if(w == "ARG") {
            std::string k, rest; ss >> k; std::getline(ss, rest); Arg a; a.k = k[0];
            auto q = rest.find_first_not_of(' '); rest = q == std::string::npos ? "" : rest.substr(q);
            if(a.k == 'i' || a.k == 'f') a.scalars = parseList(rest);
            else if(a.k == '@') { auto p = rest.find('+'); a.alias = atoi(rest.c_str()); a.aliasOff = p == std::string::npos ? 0 : atoi(rest.c_str() + p + 1); }
            else { std::stringstream s2(rest); std::string t; while(std::getline(s2, t, '/')) a.arrs.push_back(parseList(t)); if(a.arrs.empty()) a.arrs.push_back({}); }
            J->fns.back().args.push_back(a);
        } else if(w == "IN") { std::string rest; std::getline(ss, rest); std::stringstream s2(rest); std::string t; auto& f = J->fns.back(); while(std::getline(s2, t, '/')) { auto q = t.find_first_not_of(' '); f.inputs.push_back(q == std::string::npos ? std::vector<uint32_t>{} : parseList(t.substr(q))); } }
        else if(w == "END" || w.empty()) {}
        else { fprintf(stderr, "bad job line: %s\n", l.c_str()); exit(3); }
    }
    return js;
}

static std::vector<Job> jobs;
static std::atomic<size_t> nextJob{0};
static void* worker(void* p) {
    size_t id = (size_t)p;
    std::string tmp = OUT + "/w" + std::to_string(id);
    for(;;) {
        size_t k = nextJob++;
        if(k >= jobs.size()) return nullptr;
        if(hasDeadline && std::chrono::steady_clock::now() > deadline) { ++nSkippedJobs; continue; }
        runJob(jobs[k], tmp);
    }
}

static std::string jstr(const std::string& s) { std::string r = "\""; for(char c : s) { if(c == '"' || c == '\\') r += '\\'; if(c == '\n') { r += "\\n"; continue; } r += c; } return r + "\""; }

int main(int argc, char** argv) {
    int nthr = (int)std::thread::hardware_concurrency(); std::string jf;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "--cmmc") CMMC = argv[++i]; else if(a == "--out") OUT = argv[++i]; else if(a == "--prop") PROP = argv[++i]; else if(a == "--jobs") jf = argv[++i];
        else if(a == "--threads") nthr = atoi(argv[++i]); else if(a == "--ctimeout") compileTimeout = atof(argv[++i]);
        else if(a == "--deadline") { hasDeadline = true; deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(atof(argv[++i]) * 1000)); }
    }
    mkdir(OUT.c_str(), 0755);
    std::ifstream f(jf); jobs = readJobs(f);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1024ul << 20);
    std::vector<pthread_t> th((size_t)nthr);
    for(size_t i = 0; i < th.size(); ++i) if(pthread_create(&th[i], &at, worker, (void*)i)) { fprintf(stderr, "thread\n"); return 3; }
    for(auto& t : th) pthread_join(t, nullptr);
    std::string sm = "["; for(size_t i = 0; i < samples.size(); ++i) sm += (i ? "," : "") + jstr(samples[i]); sm += "]";
    std::string mn = "{"; { bool first = true; for(auto& kv : mnems) { mn += (first ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second); first = false; } } mn += "}";
    printf("{\"stats\":1,\"programs\":%llu,\"compiles\":%llu,\"vectors\":%llu,\"undef\":%llu,\"executions\":%llu,\"guest_steps\":%llu,\"ref_steps\":%llu,\"violations\":%llu,\"outcomes\":%zu,\"asm_lines\":%llu,\"skipped_jobs\":%llu,\"samples\":%s,\"mnemonics\":%s}\n",
        (unsigned long long)nPrograms, (unsigned long long)nCompiles, (unsigned long long)nVectors, (unsigned long long)nUndef, (unsigned long long)nExec, (unsigned long long)gSteps, (unsigned long long)rSteps, (unsigned long long)nViol, outcomes.size(), (unsigned long long)nAsmLines, (unsigned long long)nSkippedJobs, sm.c_str(), mn.c_str());
    return 0;
}
