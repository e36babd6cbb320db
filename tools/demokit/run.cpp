// runs main() of an emitted assembly file on the target machine model: run riscv|arm|mips file.s [inputs...]; prints the output and "=> exit code"
#include "emu.hpp"
#include <fstream>
#include <sstream>
using namespace emu;
int main(int argc, char** argv) {
    std::string t = argv[1];
    std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf();
    Module m; m.arch = t == "riscv" ? RV : t == "arm" ? ARM : MIPS;
    try { parseModule(m, ss.str()); } catch(Trap& e) { printf("bad assembly: %s\n", e.what()); return 1; }
    std::vector<int> in; for(int i = 3; i < argc; ++i) in.push_back(atoi(argv[i]));
    size_t ip = 0;
    uint32_t end = (MEM_LO + (uint32_t)m.image.size() + 63u) & ~63u, stackLo = end + 64, top = stackLo + (1u << 22);
    std::vector<uint8_t> mem(top + 4096 - MEM_LO, 0xA5);
    memcpy(mem.data(), m.image.data(), m.image.size());
    Machine M(m, mem); M.stackLo = stackLo; M.limit = 400000000;
    for(int i = 0; i < 32; ++i) M.c.x[i] = (int32_t)(0xc0de0000u + (uint32_t)i * 0x101u);
    if(m.arch != ARM) M.c.x[0] = 0;
    M.c.x[M.spReg()] = top;
    M.ext = [&](Machine& mm, const std::string& s) {
        int rar = m.arch == RV ? 1 : m.arch == ARM ? 14 : 31; int64_t ra = mm.c.x[rar];
        int32_t a0 = mm.intArg(0); auto fl = mm.c.f[m.arch == RV ? 10 : m.arch == ARM ? 0 : 12];
        auto ret = [&](bool i, int32_t v) { mm.poisonCallerSaved(); mm.c.x[rar] = ra; if(i) mm.setIntRet(v); };
        if(s == "putint") { printf("%d", a0); ret(false, 0); }
        else if(s == "putch") { putchar(a0); ret(false, 0); }
        else if(s == "putfloat") { float x; memcpy(&x, &fl, 4); printf("%a", x); ret(false, 0); }
        else if(s == "putarray") { uint32_t p = (uint32_t)mm.intArg(1); printf("%d:", a0); for(int i = 0; i < a0; ++i) printf(" %d", *mm.at<int32_t>(p + 4u * (uint32_t)i)); puts(""); ret(false, 0); }
        else if(s == "getint" || s == "getch") { if(ip >= in.size()) throw Trap("read past the end"); ret(true, in[ip++]); }
        else if(s == "memset") { for(int i = 0; i < mm.intArg(2); ++i) *mm.at<uint8_t>((uint32_t)a0 + (uint32_t)i) = (uint8_t)mm.intArg(1); ret(true, a0); }
        else throw Trap("unknown external function " + s);
    };
    auto it = m.codeLabel.find("main");
    if(it == m.codeLabel.end()) { puts("no main"); return 1; }
    try { M.callGuest(it->second); } catch(Trap& e) { printf("\n=> trap: %s\n", e.what()); return 0; } catch(StepLimit&) { puts("\n=> does not end"); return 0; }
    if((uint32_t)M.c.x[M.spReg()] != top) puts("\n=> stack pointer not restored");
    printf("\n=> %d\n", (int)(uint8_t)(m.arch == MIPS ? M.c.x[2] : m.arch == RV ? M.c.x[10] : M.c.x[0]));
}
