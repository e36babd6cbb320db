// Text-level emulators for the assembly dialects emitted by the compiler: RV64GC+Zba+Zbb,
// ARMv7-A (A32, VFPv4) and MIPS32.  They check every access (bounds, alignment), immediate
// ranges are checked by the real assembler in a separate check.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace emu {

struct Trap : std::runtime_error { using std::runtime_error::runtime_error; };
struct StepLimit {};

enum Arch { RV, ARM, MIPS };

constexpr uint32_t MEM_LO = 0x00010000u;
constexpr uint32_t CODE_BASE = 0x40000000u;
constexpr uint32_t EXIT_ADDR = 0x3ffffff0u;

struct Inst {
    uint16_t op = 0;
    uint8_t cond = 14;  // ARM: AL
    uint8_t setf = 0;
    int16_t rd = 0, rs1 = 0, rs2 = 0, rs3 = 0;
    uint8_t shop = 0;   // ARM operand-2 shift kind: 0 none,1 lsl,2 lsr,3 asr,4 ror
    int8_t shreg = -1;
    uint8_t useImm = 0;
    int64_t imm = 0;
    int32_t tgt = -1;   // code index, or -2-k for external k
    uint32_t line = 0;
};

enum OpRV : uint16_t {
    R_BAD, R_NOP, R_ADDI, R_SLTI, R_SLTIU, R_ANDI, R_ORI, R_XORI, R_SLLI, R_SRLI, R_SRAI, R_ADDIW, R_SLLIW, R_SRLIW, R_SRAIW, R_LUI, R_AUIPC,
    R_LI, R_ADD, R_SUB, R_SLT, R_SLTU, R_AND, R_OR, R_XOR, R_SLL, R_SRL, R_SRA, R_ADDW, R_SUBW, R_SLLW, R_SRLW, R_SRAW, R_MUL, R_MULH, R_MULHU, R_MULHSU,
    R_MULW, R_DIV, R_DIVU, R_REM, R_REMU, R_DIVW, R_DIVUW, R_REMW, R_REMUW, R_BEQ, R_BNE, R_BLT, R_BGE, R_BLTU, R_BGEU, R_BLE, R_BGT, R_BLEU, R_BGTU,
    R_J, R_JAL, R_RET, R_JR, R_LB, R_LBU, R_LH, R_LHU, R_LW, R_LWU, R_LD, R_SB, R_SH, R_SW, R_SD, R_FLW, R_FSW, R_AMOADDW,
    R_FADD, R_FSUB, R_FMUL, R_FDIV, R_FMIN, R_FMAX, R_FNEG, R_FABS, R_FMV, R_FSGNJ, R_FCVTWS, R_FCVTSW, R_FCVTWUS, R_FCVTSWU, R_FMVXW, R_FMVWX, R_FEQ, R_FLT, R_FLE, R_FCLASS, R_FMADD, R_FMSUB, R_FNMADD, R_FNMSUB,
    R_ADDUW, R_SH1ADD, R_SH2ADD, R_SH3ADD, R_SH1ADDUW, R_SH2ADDUW, R_SH3ADDUW, R_SLLIUW, R_ANDN, R_ORN, R_XNOR, R_MIN, R_MAX, R_MINU, R_MAXU, R_ROL, R_ROLW, R_ROR, R_RORI, R_RORIW, R_RORW, R_SEXTB, R_SEXTH, R_SEXTW, R_ZEXTH, R_ZEXTW, R_ZEXTB,
    R_CLZ, R_CLZW, R_CTZ, R_CTZW, R_CPOP, R_CPOPW, R_ORCB, R_REV8, R_UNIMP, R_NOT, R_NEG, R_NEGW, R_SEQZ, R_SNEZ, R_SLTZ, R_SGTZ, R_BEQZ, R_BNEZ, R_BLTZ, R_BGEZ, R_BLEZ, R_BGTZ, R_LA
};
enum OpARM : uint16_t {
    A_BAD = 300, A_ADD, A_SUB, A_AND, A_ORR, A_EOR, A_ORN, A_BIC, A_RSB, A_ADC, A_SBC, A_MOV, A_MVN, A_CMP, A_CMN, A_TST, A_TEQ, A_ASR, A_LSL, A_LSR, A_ROR, A_MUL, A_SMMUL, A_SMMLA, A_MLA, A_MLS, A_SXTB, A_SXTH, A_UXTB, A_UXTH, A_SDIV, A_UDIV, A_CLZ, A_B, A_BL, A_BX,
    A_LDR, A_LDRB, A_LDRSB, A_LDRH, A_LDRSH, A_STR, A_STRB, A_STRH, A_VLDR, A_VSTR, A_MOVW, A_MOVT, A_VADD, A_VSUB, A_VMUL, A_VNMUL, A_VDIV, A_VMLA, A_VMLS, A_VNMLA, A_VNMLS, A_VFMA, A_VFMS, A_VFNMA, A_VFNMS, A_VNEG, A_VABS, A_VSQRT, A_VCMP, A_VCMPZ, A_VMRS, A_VCVTF32S32, A_VCVTS32F32, A_VMOVFF, A_VMOVFR, A_VMOVRF, A_VMOVFI, A_PUSH, A_POP, A_VPUSH, A_VPOP, A_USAT, A_SSAT, A_INST, A_NOP, A_SEL
};
enum OpMIPS : uint16_t {
    M_BAD = 600, M_ADDU, M_AND, M_NOR, M_OR, M_SLLV, M_SRAV, M_SRLV, M_SUBU, M_XOR, M_ADDIU, M_ANDI, M_ORI, M_XORI, M_SLL, M_SRA, M_SRL, M_ADDS, M_SUBS, M_MULS, M_DIVS, M_ABSS, M_NEGS, M_BREAK, M_B, M_BC1F, M_BC1T, M_BEQ, M_BNE, M_BGEZ, M_BGTZ, M_BLEZ, M_BLTZ, M_CEQ, M_CUEQ, M_COLT, M_COLE, M_CULT, M_CULE, M_CVTSW, M_TRUNCWS, M_MULT, M_MULTU, M_DIV, M_DIVU, M_JAL, M_JR,
    M_LB, M_LBU, M_LH, M_LHU, M_LW, M_SB, M_SH, M_SW, M_LWC1, M_SWC1, M_MFC1, M_MTC1, M_MFHI, M_MFLO, M_MOVS, M_SLT, M_SLTU, M_SLTI, M_SLTIU, M_LUI, M_LI, M_NOP, M_MOVE, M_MOVN, M_MOVZ, M_MOVF, M_MOVT, M_MOVTS, M_MOVFS, M_MOVZS, M_MOVNS, M_MUL, M_SYSCALL, M_J
};

struct Module {
    Arch arch;
    std::vector<Inst> code;
    std::vector<std::string> src;                        // text of each instruction
    std::unordered_map<std::string, int32_t> codeLabel;  // label -> code index
    std::unordered_map<std::string, uint32_t> dataLabel; // label -> address
    std::vector<std::string> externs;
    std::vector<uint8_t> image;                          // data image starting at MEM_LO
    struct Fix { uint32_t off; std::string sym; std::string sub; };
    std::vector<Fix> fixes;
    std::unordered_map<std::string, std::string> pcrelSym; // RV: label of an auipc -> its symbol
    std::vector<std::pair<uint32_t, uint32_t>> gaps;       // padding between data objects (addr,len)
    std::vector<std::pair<uint32_t, uint32_t>> rodata;     // address ranges [lo,hi) that must not be written
    std::string error;

    uint32_t symAddr(const std::string& s) const {
        auto d = dataLabel.find(s);
        if(d != dataLabel.end()) return d->second;
        auto c = codeLabel.find(s);
        if(c != codeLabel.end()) return CODE_BASE + 4u * (uint32_t)c->second;
        throw Trap("undefined symbol " + s);
    }
    int32_t target(const std::string& s) {
        auto c = codeLabel.find(s);
        if(c != codeLabel.end()) return c->second;
        for(size_t i = 0; i < externs.size(); ++i) if(externs[i] == s) return -2 - (int32_t)i;
        externs.push_back(s);
        return -2 - (int32_t)(externs.size() - 1);
    }
};

// ---------------------------------------------------------------- parsing helpers
inline std::string_view trim(std::string_view s) {
    while(!s.empty() && (s.front() == ' ' || s.front() == '\t')) s.remove_prefix(1);
    while(!s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\r')) s.remove_suffix(1);
    return s;
}
inline std::vector<std::string> splitOps(std::string_view s) {
    std::vector<std::string> r; int br = 0; std::string cur;
    for(char c : s) {
        if(c == '[' || c == '{') ++br;
        if(c == ']' || c == '}') --br;
        if(c == ',' && !br) { r.emplace_back(trim(cur)); cur.clear(); } else cur += c;
    }
    auto t = trim(cur);
    if(!t.empty()) r.emplace_back(t);
    return r;
}
inline bool parseInt(std::string_view s, int64_t& v) {
    if(s.empty()) return false;
    if(s[0] == '#') s.remove_prefix(1);
    if(s.empty()) return false;
    bool neg = false; size_t i = 0;
    if(s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; ++i; }
    if(i >= s.size() || !isdigit((unsigned char)s[i])) return false;
    uint64_t x = 0;
    if(s.size() > i + 2 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) {
        for(i += 2; i < s.size(); ++i) { char c = (char)tolower(s[i]); if(isdigit((unsigned char)c)) x = x * 16 + (uint64_t)(c - '0'); else if(c >= 'a' && c <= 'f') x = x * 16 + (uint64_t)(c - 'a' + 10); else return false; }
    } else for(; i < s.size(); ++i) { if(!isdigit((unsigned char)s[i])) return false; x = x * 10 + (uint64_t)(s[i] - '0'); }
    v = neg ? -(int64_t)x : (int64_t)x;
    return true;
}

struct Parser {
    Module& m;
    explicit Parser(Module& mm) : m(mm) {}
    int reg(const std::string& s) const {
        static const std::unordered_map<std::string, int> rv = [] {
            std::unordered_map<std::string, int> r;
            const char* n[] = {"zero","ra","sp","gp","tp","t0","t1","t2","s0","s1","a0","a1","a2","a3","a4","a5","a6","a7","s2","s3","s4","s5","s6","s7","s8","s9","s10","s11","t3","t4","t5","t6"};
            for(int i = 0; i < 32; ++i) { r[n[i]] = i; r["x" + std::to_string(i)] = i; r["f" + std::to_string(i)] = 100 + i; }
            r["fp"] = 8;
            const char* f[] = {"ft0","ft1","ft2","ft3","ft4","ft5","ft6","ft7","fs0","fs1","fa0","fa1","fa2","fa3","fa4","fa5","fa6","fa7","fs2","fs3","fs4","fs5","fs6","fs7","fs8","fs9","fs10","fs11","ft8","ft9","ft10","ft11"};
            for(int i = 0; i < 32; ++i) r[f[i]] = 100 + i;
            return r;
        }();
        static const std::unordered_map<std::string, int> arm = [] {
            std::unordered_map<std::string, int> r;
            for(int i = 0; i < 16; ++i) r["r" + std::to_string(i)] = i;
            r["sp"] = 13; r["lr"] = 14; r["pc"] = 15; r["ip"] = 12; r["fp"] = 11;
            for(int i = 0; i < 32; ++i) r["s" + std::to_string(i)] = 100 + i;
            r["APSR_nzcv"] = 200; r["FPSCR"] = 201;
            return r;
        }();
        static const std::unordered_map<std::string, int> mips = [] {
            std::unordered_map<std::string, int> r;
            const char* n[] = {"zero","at","v0","v1","a0","a1","a2","a3","t0","t1","t2","t3","t4","t5","t6","t7","s0","s1","s2","s3","s4","s5","s6","s7","t8","t9","k0","k1","gp","sp","fp","ra"};
            for(int i = 0; i < 32; ++i) { r[std::string("$") + n[i]] = i; r["$" + std::to_string(i)] = i; r["$f" + std::to_string(i)] = 100 + i; }
            r["$s8"] = 30;
            return r;
        }();
        auto& t = m.arch == RV ? rv : m.arch == ARM ? arm : mips;
        auto it = t.find(s);
        if(it == t.end()) return -1;
        return it->second;
    }
    int gpr(const std::string& s) const { int r = reg(s); if(r < 0 || r >= 100) throw Trap("bad GPR '" + s + "'"); return r; }
    int fpr(const std::string& s) const { int r = reg(s); if(r < 100 || r >= 140) throw Trap("bad FPR '" + s + "'"); return r - 100; }
    int64_t imm(const std::string& s) const { int64_t v; if(!parseInt(s, v)) throw Trap("bad immediate '" + s + "'"); return v; }
    // RV/MIPS "imm(reg)" or "%xx(sym)(reg)"
    void memOp(const std::string& s, int& base, int64_t& off) {
        auto p = s.rfind('(');
        if(p == std::string::npos || s.back() != ')') throw Trap("bad memory operand '" + s + "'");
        base = gpr(s.substr(p + 1, s.size() - p - 2));
        auto o = s.substr(0, p);
        off = o.empty() ? 0 : immReloc(o);
    }
    int64_t immReloc(const std::string& s) {
        if(s[0] == '%') {
            auto p = s.find('('); auto kind = s.substr(1, p - 1);
            auto q = s.find(')'); auto sym = s.substr(p + 1, q - p - 1);
            int64_t extra = 0;
            if(q + 1 < s.size()) { std::string t = s.substr(q + 1); if(t[0] == '+') t = t.substr(1); extra = imm(t); }
            auto plus = sym.find('+'); if(plus != std::string::npos) { extra += imm(sym.substr(plus + 1)); sym = sym.substr(0, plus); }
            if(kind == "pcrel_hi" || kind == "hi") { uint32_t a = (uint32_t)(m.symAddr(sym) + extra); return (int64_t)(((uint64_t)a + 0x800u) >> 12); }
            if(kind == "pcrel_lo") {
                auto it = m.pcrelSym.find(sym);
                if(it == m.pcrelSym.end()) throw Trap("pcrel_lo of unknown label " + sym);
                uint32_t a = (uint32_t)(m.symAddr(it->second) + extra); return (int32_t)(a << 20) >> 20;
            }
            if(kind == "lo") { uint32_t a = (uint32_t)(m.symAddr(sym) + extra); return (int32_t)(a << 20) >> 20; }
            throw Trap("bad reloc " + s);
        }
        return imm(s);
    }
    static int64_t mipsHi(uint32_t a) { return (int64_t)((((uint64_t)a + 0x8000u) >> 16) & 0xffff); }
    int64_t immRelocM(const std::string& s) {
        if(s[0] == '%') {
            auto p = s.find('('); auto kind = s.substr(1, p - 1); auto sym = s.substr(p + 1, s.size() - p - 2);
            uint32_t a = m.symAddr(sym);
            if(kind == "hi") return mipsHi(a);
            if(kind == "lo") return (int16_t)(a & 0xffff);
            throw Trap("bad reloc " + s);
        }
        return imm(s);
    }
    void decodeRV(Inst& I, const std::string& mn, const std::vector<std::string>& o);
    void decodeARM(Inst& I, const std::string& mn, const std::vector<std::string>& o);
    void decodeMIPS(Inst& I, const std::string& mn, const std::vector<std::string>& o);
};

inline void parseModule(Module& m, const std::string& text) {
    struct Pending { std::string mn, ops; uint32_t line; };
    std::vector<Pending> pend;
    bool inText = true; bool ro = false;
    uint32_t cur = MEM_LO + 64;  // leave a guard
    m.image.assign(64, 0);
    size_t pos = 0; uint32_t line = 0;
    auto ensure = [&](uint32_t a) { if(m.image.size() < a - MEM_LO) m.image.resize(a - MEM_LO, 0); };
    std::vector<std::string> pendingLabels; 
    while(pos < text.size()) {
        auto e = text.find('\n', pos); if(e == std::string::npos) e = text.size();
        std::string_view l(text.data() + pos, e - pos); pos = e + 1; ++line;
        // comments
        char cm = m.arch == ARM ? '@' : '#';
        { auto c = l.find(cm); if(c != std::string_view::npos) l = l.substr(0, c); }
        l = trim(l);
        while(true) {
            auto c = l.find(':');
            if(c == std::string_view::npos) break;
            bool ok = c > 0;
            for(size_t i = 0; i < c; ++i) if(!(isalnum((unsigned char)l[i]) || l[i] == '_' || l[i] == '.' || l[i] == '$')) ok = false;
            if(!ok) break;
            std::string name(l.substr(0, c));
            if(inText) { if(m.codeLabel.count(name) || m.dataLabel.count(name)) throw Trap("duplicate label " + name); m.codeLabel[name] = (int32_t)pend.size(); pendingLabels.push_back(name); }
            else { if(m.codeLabel.count(name) || m.dataLabel.count(name)) throw Trap("duplicate label " + name); 
                   // guard gap between objects
                   uint32_t g = 16; m.gaps.push_back({cur, g}); 
                   cur += g; cur = (cur + 15u) & ~15u; m.dataLabel[name] = cur; ensure(cur); }
            l = trim(l.substr(c + 1));
        }
        if(l.empty()) continue;
        size_t sp = 0; while(sp < l.size() && l[sp] != ' ' && l[sp] != '\t') ++sp;
        std::string mn(l.substr(0, sp)); std::string rest(trim(l.substr(sp)));
        if(mn[0] == '.' && mn != ".inst") {
            if(mn == ".text") inText = true;
            else if(mn == ".data" || mn == ".bss") { inText = false; ro = false; }
            else if(mn == ".section") { inText = rest.substr(0, 5) == ".text"; ro = rest.substr(0, 7) == ".rodata"; }
            else if(mn == ".4byte" || mn == ".word") {
                if(inText) throw Trap("data in text");
                cur = (cur + 3u) & ~3u; ensure(cur + 4);
                for(auto& x : splitOps(rest)) {
                    ensure(cur + 4); int64_t v;
                    if(parseInt(x, v)) { uint32_t u = (uint32_t)v; memcpy(&m.image[cur - MEM_LO], &u, 4); }
                    else { auto mi = x.find('-'); if(mi == std::string::npos) m.fixes.push_back({cur - MEM_LO, x, ""}); else m.fixes.push_back({cur - MEM_LO, std::string(trim(x.substr(0, mi))), std::string(trim(x.substr(mi + 1)))}); }
                    cur += 4;
                }
                if(ro) m.rodata.push_back({cur - 4, cur});
            } else if(mn == ".byte") { for(auto& x : splitOps(rest)) { ensure(cur + 1); int64_t v; if(!parseInt(x, v)) throw Trap("bad .byte"); m.image[cur - MEM_LO] = (uint8_t)v; ++cur; } }
            else if(mn == ".zero" || mn == ".space" || mn == ".skip") { if(inText) throw Trap("data in text"); int64_t v; if(!parseInt(rest, v)) throw Trap("bad .zero"); if(v > 64000000 || v < 0) throw Trap("huge data"); ensure(cur + (uint32_t)v); if(ro && v) m.rodata.push_back({cur, cur + (uint32_t)v}); cur += (uint32_t)v; }
            continue;
        }
        if(!inText) throw Trap("instruction in data section: " + std::string(l));
        if(mn == "auipc") { for(auto& nm : pendingLabels) { auto p = rest.find("%pcrel_hi("); if(p != std::string::npos) { auto q = rest.find(')', p); m.pcrelSym[nm] = rest.substr(p + 10, q - p - 10); } } }
        pendingLabels.clear();
        pend.push_back({std::move(mn), std::move(rest), line});
    }
    ensure(cur + 64);
    for(auto& f : m.fixes) { uint32_t v = m.symAddr(f.sym); if(!f.sub.empty()) v -= m.symAddr(f.sub); memcpy(&m.image[f.off], &v, 4); }
    m.code.resize(pend.size()); m.src.resize(pend.size());
    Parser P(m);
    for(size_t i = 0; i < pend.size(); ++i) {
        auto& I = m.code[i]; I.line = pend[i].line; m.src[i] = pend[i].mn + " " + pend[i].ops;
        auto ops = splitOps(pend[i].ops);
        try {
            if(m.arch == RV) P.decodeRV(I, pend[i].mn, ops); else if(m.arch == ARM) P.decodeARM(I, pend[i].mn, ops); else P.decodeMIPS(I, pend[i].mn, ops);
        } catch(Trap& t) { throw Trap("line " + std::to_string(I.line) + ": '" + m.src[i] + "': " + t.what()); }
          catch(std::out_of_range&) { throw Trap("line " + std::to_string(I.line) + ": '" + m.src[i] + "': missing operand"); }
    }
}

// ---------------------------------------------------------------- RISC-V decode
inline void Parser::decodeRV(Inst& I, const std::string& mn, const std::vector<std::string>& o) {
    struct D { uint16_t op; char f; };
    static const std::unordered_map<std::string, D> T = {
        {"add",{R_ADD,'R'}},{"sub",{R_SUB,'R'}},{"slt",{R_SLT,'R'}},{"sltu",{R_SLTU,'R'}},{"and",{R_AND,'R'}},{"or",{R_OR,'R'}},{"xor",{R_XOR,'R'}},{"sll",{R_SLL,'R'}},{"srl",{R_SRL,'R'}},{"sra",{R_SRA,'R'}},
        {"addw",{R_ADDW,'R'}},{"subw",{R_SUBW,'R'}},{"sllw",{R_SLLW,'R'}},{"srlw",{R_SRLW,'R'}},{"sraw",{R_SRAW,'R'}},{"mul",{R_MUL,'R'}},{"mulh",{R_MULH,'R'}},{"mulhu",{R_MULHU,'R'}},{"mulhsu",{R_MULHSU,'R'}},{"mulw",{R_MULW,'R'}},
        {"div",{R_DIV,'R'}},{"divu",{R_DIVU,'R'}},{"rem",{R_REM,'R'}},{"remu",{R_REMU,'R'}},{"divw",{R_DIVW,'R'}},{"divuw",{R_DIVUW,'R'}},{"remw",{R_REMW,'R'}},{"remuw",{R_REMUW,'R'}},
        {"addi",{R_ADDI,'I'}},{"slti",{R_SLTI,'I'}},{"sltiu",{R_SLTIU,'I'}},{"andi",{R_ANDI,'I'}},{"ori",{R_ORI,'I'}},{"xori",{R_XORI,'I'}},{"addiw",{R_ADDIW,'I'}},
        {"slli",{R_SLLI,'s'}},{"srli",{R_SRLI,'s'}},{"srai",{R_SRAI,'s'}},{"slliw",{R_SLLIW,'w'}},{"srliw",{R_SRLIW,'w'}},{"sraiw",{R_SRAIW,'w'}},{"slli.uw",{R_SLLIUW,'s'}},{"rori",{R_RORI,'s'}},{"roriw",{R_RORIW,'w'}},
        {"lui",{R_LUI,'U'}},{"auipc",{R_AUIPC,'U'}},{"li",{R_LI,'U'}},{"la",{R_LA,'A'}},
        {"beq",{R_BEQ,'B'}},{"bne",{R_BNE,'B'}},{"blt",{R_BLT,'B'}},{"bge",{R_BGE,'B'}},{"bltu",{R_BLTU,'B'}},{"bgeu",{R_BGEU,'B'}},{"ble",{R_BLE,'B'}},{"bgt",{R_BGT,'B'}},{"bleu",{R_BLEU,'B'}},{"bgtu",{R_BGTU,'B'}},
        {"beqz",{R_BEQ,'Z'}},{"bnez",{R_BNE,'Z'}},{"bltz",{R_BLT,'Z'}},{"bgez",{R_BGE,'Z'}},{"blez",{R_BLE,'Z'}},{"bgtz",{R_BGT,'Z'}},
        {"j",{R_J,'J'}},{"jal",{R_JAL,'J'}},{"call",{R_JAL,'J'}},{"ret",{R_RET,'N'}},{"jr",{R_JR,'1'}},{"nop",{R_NOP,'N'}},{"unimp",{R_UNIMP,'N'}},
        {"lb",{R_LB,'L'}},{"lbu",{R_LBU,'L'}},{"lh",{R_LH,'L'}},{"lhu",{R_LHU,'L'}},{"lw",{R_LW,'L'}},{"lwu",{R_LWU,'L'}},{"ld",{R_LD,'L'}},{"sb",{R_SB,'L'}},{"sh",{R_SH,'L'}},{"sw",{R_SW,'L'}},{"sd",{R_SD,'L'}},
        {"flw",{R_FLW,'l'}},{"fsw",{R_FSW,'l'}},{"amoadd.w.aqrl",{R_AMOADDW,'M'}},
        {"fadd.s",{R_FADD,'F'}},{"fsub.s",{R_FSUB,'F'}},{"fmul.s",{R_FMUL,'F'}},{"fdiv.s",{R_FDIV,'F'}},{"fmin.s",{R_FMIN,'F'}},{"fmax.s",{R_FMAX,'F'}},{"fsgnj.s",{R_FSGNJ,'F'}},
        {"fneg.s",{R_FNEG,'f'}},{"fabs.s",{R_FABS,'f'}},{"fmv.s",{R_FMV,'f'}},{"fcvt.w.s",{R_FCVTWS,'x'}},{"fcvt.wu.s",{R_FCVTWUS,'x'}},{"fmv.x.w",{R_FMVXW,'x'}},{"fclass.s",{R_FCLASS,'x'}},
        {"fcvt.s.w",{R_FCVTSW,'y'}},{"fcvt.s.wu",{R_FCVTSWU,'y'}},{"fmv.w.x",{R_FMVWX,'y'}},{"feq.s",{R_FEQ,'c'}},{"flt.s",{R_FLT,'c'}},{"fle.s",{R_FLE,'c'}},
        {"fmadd.s",{R_FMADD,'4'}},{"fmsub.s",{R_FMSUB,'4'}},{"fnmadd.s",{R_FNMADD,'4'}},{"fnmsub.s",{R_FNMSUB,'4'}},
        {"add.uw",{R_ADDUW,'R'}},{"sh1add",{R_SH1ADD,'R'}},{"sh2add",{R_SH2ADD,'R'}},{"sh3add",{R_SH3ADD,'R'}},{"sh1add.uw",{R_SH1ADDUW,'R'}},{"sh2add.uw",{R_SH2ADDUW,'R'}},{"sh3add.uw",{R_SH3ADDUW,'R'}},
        {"andn",{R_ANDN,'R'}},{"orn",{R_ORN,'R'}},{"xnor",{R_XNOR,'R'}},{"min",{R_MIN,'R'}},{"max",{R_MAX,'R'}},{"minu",{R_MINU,'R'}},{"maxu",{R_MAXU,'R'}},{"rol",{R_ROL,'R'}},{"rolw",{R_ROLW,'R'}},{"ror",{R_ROR,'R'}},{"rorw",{R_RORW,'R'}},
        {"sext.b",{R_SEXTB,'2'}},{"sext.h",{R_SEXTH,'2'}},{"sext.w",{R_SEXTW,'2'}},{"zext.h",{R_ZEXTH,'2'}},{"zext.w",{R_ZEXTW,'2'}},{"zext.b",{R_ZEXTB,'2'}},{"clz",{R_CLZ,'2'}},{"clzw",{R_CLZW,'2'}},{"ctz",{R_CTZ,'2'}},{"ctzw",{R_CTZW,'2'}},{"cpop",{R_CPOP,'2'}},{"cpopw",{R_CPOPW,'2'}},{"orc.b",{R_ORCB,'2'}},{"rev8",{R_REV8,'2'}},
        {"mv",{R_ADDI,'2'}},{"not",{R_NOT,'2'}},{"neg",{R_NEG,'2'}},{"negw",{R_NEGW,'2'}},{"seqz",{R_SEQZ,'2'}},{"snez",{R_SNEZ,'2'}},{"sltz",{R_SLTZ,'2'}},{"sgtz",{R_SGTZ,'2'}}};
    auto it = T.find(mn);
    if(it == T.end()) { I.op = R_BAD; return; }
    I.op = it->second.op;
    auto range = [&](int64_t v, int64_t lo, int64_t hi) { if(v < lo || v > hi) throw Trap("immediate out of range"); };
    switch(it->second.f) {
        case 'R': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.rs2 = (int16_t)gpr(o.at(2)); break;
        case '2': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); break;
        case 'I': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.imm = immReloc(o.at(2)); range(I.imm, -2048, 2047); break;
        case 's': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.imm = imm(o.at(2)); range(I.imm, 0, 63); break;
        case 'w': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.imm = imm(o.at(2)); range(I.imm, 0, 31); break;
        case 'U': I.rd = (int16_t)gpr(o.at(0)); I.imm = immReloc(o.at(1)); if(I.op == R_LUI) { range(I.imm, 0, 0xfffff); } break;
        case 'A': I.rd = (int16_t)gpr(o.at(0)); I.imm = m.symAddr(o.at(1)); break;
        case 'B': I.rs1 = (int16_t)gpr(o.at(0)); I.rs2 = (int16_t)gpr(o.at(1)); I.tgt = m.target(o.at(2)); break;
        case 'Z': I.rs1 = (int16_t)gpr(o.at(0)); I.rs2 = 0; I.tgt = m.target(o.at(1)); break;
        case 'J': I.tgt = m.target(o.at(0)); break;
        case 'N': break;
        case '1': I.rs1 = (int16_t)gpr(o.at(0)); break;
        case 'L': { I.rd = (int16_t)gpr(o.at(0)); int b; memOp(o.at(1), b, I.imm); I.rs1 = (int16_t)b; range(I.imm, -2048, 2047); break; }
        case 'l': { I.rd = (int16_t)fpr(o.at(0)); int b; memOp(o.at(1), b, I.imm); I.rs1 = (int16_t)b; range(I.imm, -2048, 2047); break; }
        case 'M': { I.rd = (int16_t)gpr(o.at(0)); I.rs2 = (int16_t)gpr(o.at(1)); int b; memOp(o.at(2), b, I.imm); I.rs1 = (int16_t)b; break; }
        case 'F': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); I.rs2 = (int16_t)fpr(o.at(2)); break;
        case 'f': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); break;
        case 'x': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); if(I.op == R_FCVTWS || I.op == R_FCVTWUS) I.imm = o.size() > 2 && o[2] == "rtz"; break;
        case 'y': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); break;
        case 'c': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); I.rs2 = (int16_t)fpr(o.at(2)); break;
        case '4': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); I.rs2 = (int16_t)fpr(o.at(2)); I.rs3 = (int16_t)fpr(o.at(3)); break;
    }
}

// ---------------------------------------------------------------- ARM decode
inline bool armModImm(uint32_t v) { for(int r = 0; r < 32; r += 2) { uint32_t x = r ? (v << r) | (v >> (32 - r)) : v; if(x < 256) return true; } return false; }
inline void Parser::decodeARM(Inst& I, const std::string& mn0, const std::vector<std::string>& o) {
    static const char* CC[] = {"eq","ne","hs","lo","mi","pl","vs","vc","hi","ls","ge","lt","gt","le"};
    std::string mn = mn0, suffix;
    auto dot = mn.find('.');
    if(dot != std::string::npos && mn != ".inst") { suffix = mn.substr(dot); mn = mn.substr(0, dot); }
    struct D { uint16_t op; char f; };
    static const std::unordered_map<std::string, D> T = {
        {"add",{A_ADD,'d'}},{"sub",{A_SUB,'d'}},{"and",{A_AND,'d'}},{"orr",{A_ORR,'d'}},{"eor",{A_EOR,'d'}},{"bic",{A_BIC,'d'}},{"rsb",{A_RSB,'d'}},{"adc",{A_ADC,'d'}},{"sbc",{A_SBC,'d'}},
        {"mov",{A_MOV,'m'}},{"mvn",{A_MVN,'m'}},{"cmp",{A_CMP,'c'}},{"cmn",{A_CMN,'c'}},{"tst",{A_TST,'c'}},{"teq",{A_TEQ,'c'}},
        {"asr",{A_ASR,'s'}},{"lsl",{A_LSL,'s'}},{"lsr",{A_LSR,'s'}},{"ror",{A_ROR,'s'}},{"mul",{A_MUL,'3'}},{"smmul",{A_SMMUL,'3'}},{"smmla",{A_SMMLA,'4'}},{"mla",{A_MLA,'4'}},{"mls",{A_MLS,'4'}},
        {"sxtb",{A_SXTB,'2'}},{"sxth",{A_SXTH,'2'}},{"uxtb",{A_UXTB,'2'}},{"uxth",{A_UXTH,'2'}},{"sdiv",{A_SDIV,'3'}},{"udiv",{A_UDIV,'3'}},{"clz",{A_CLZ,'2'}},
        {"b",{A_B,'b'}},{"bl",{A_BL,'b'}},{"bx",{A_BX,'x'}},
        {"ldr",{A_LDR,'l'}},{"ldrb",{A_LDRB,'l'}},{"ldrsb",{A_LDRSB,'l'}},{"ldrh",{A_LDRH,'l'}},{"ldrsh",{A_LDRSH,'l'}},{"str",{A_STR,'l'}},{"strb",{A_STRB,'l'}},{"strh",{A_STRH,'l'}},
        {"vldr",{A_VLDR,'v'}},{"vstr",{A_VSTR,'v'}},{"movw",{A_MOVW,'w'}},{"movt",{A_MOVT,'w'}},
        {"push",{A_PUSH,'p'}},{"pop",{A_POP,'p'}},{"vpush",{A_VPUSH,'P'}},{"vpop",{A_VPOP,'P'}},{"usat",{A_USAT,'S'}},{"ssat",{A_SSAT,'S'}},{"nop",{A_NOP,'n'}},
        {"vmov",{A_VMOVFF,'V'}},{"vcmp",{A_VCMP,'C'}},{"vmrs",{A_VMRS,'n'}},
        {"vadd",{A_VADD,'F'}},{"vsub",{A_VSUB,'F'}},{"vmul",{A_VMUL,'F'}},{"vnmul",{A_VNMUL,'F'}},{"vdiv",{A_VDIV,'F'}},{"vmla",{A_VMLA,'F'}},{"vmls",{A_VMLS,'F'}},{"vnmla",{A_VNMLA,'F'}},{"vnmls",{A_VNMLS,'F'}},
        {"vfma",{A_VFMA,'F'}},{"vfms",{A_VFMS,'F'}},{"vfnma",{A_VFNMA,'F'}},{"vfnms",{A_VFNMS,'F'}},{"vneg",{A_VNEG,'f'}},{"vabs",{A_VABS,'f'}},{"vsqrt",{A_VSQRT,'f'}},{"vcvt",{A_VCVTF32S32,'f'}}};
    if(mn == ".inst") { I.op = A_INST; return; }
    auto look = [&](const std::string& s) { return T.find(s); };
    // resolution order: exact; +cond; +s; +s+cond / cond+... ('bls','bleq' etc.: exact "bl" must not eat "ble")
    auto it = look(mn);
    if(it == T.end() && mn.size() > 2) {
        std::string tail = mn.substr(mn.size() - 2);
        int cc = -1;
        for(int i = 0; i < 14; ++i) if(tail == CC[i]) cc = i;
        if(cc >= 0) {
            auto base = mn.substr(0, mn.size() - 2);
            it = look(base);
            if(it != T.end()) I.cond = (uint8_t)cc;
            else if(!base.empty() && base.back() == 's') { it = look(base.substr(0, base.size() - 1)); if(it != T.end()) { I.cond = (uint8_t)cc; I.setf = 1; } }
        }
        if(it == T.end() && mn.back() == 's') { it = look(mn.substr(0, mn.size() - 1)); if(it != T.end()) I.setf = 1; }
    }
    if(it == T.end()) { I.op = A_BAD; return; }
    I.op = it->second.op;
    auto op2 = [&](size_t i) {
        auto& s = o.at(i);
        if(s[0] == '#') {
            I.useImm = 1; I.imm = imm(s);
            uint32_t u = (uint32_t)I.imm;
            if(!armModImm(u)) throw Trap("operand-2 immediate not encodable");
        } else {
            I.rs2 = (int16_t)gpr(s);
            if(o.size() > i + 1) {
                auto& t = o.at(i + 1); auto sp = t.find(' ');
                if(sp == std::string::npos) throw Trap("bad shift " + t);
                auto k = t.substr(0, sp); std::string v(trim(t.substr(sp)));
                I.shop = k == "lsl" ? 1 : k == "lsr" ? 2 : k == "asr" ? 3 : k == "ror" ? 4 : 0;
                if(!I.shop) throw Trap("bad shift " + t);
                if(v[0] == '#') { I.imm = imm(v); if(I.imm < 0 || I.imm > 32) throw Trap("bad shift amount"); } else I.shreg = (int8_t)gpr(v);
            }
        }
    };
    switch(it->second.f) {
        case 'd': 
            I.rd = (int16_t)gpr(o.at(0));
            if(o.size() == 2) { I.rs1 = I.rd; op2(1); } else { I.rs1 = (int16_t)gpr(o.at(1)); op2(2); }
            // add/sub with a negative encodable immediate is accepted by the assembler as the dual
            break;
        case 'm': I.rd = (int16_t)gpr(o.at(0)); 
            if(o.at(1)[0] == '#') { I.useImm = 1; I.imm = imm(o[1]); uint32_t u = (uint32_t)I.imm; if(!armModImm(u) && !armModImm(~u) && !(I.op == A_MOV && u < 65536)) throw Trap("mov immediate not encodable"); }
            else op2(1);
            break;
        case 'c': I.rs1 = (int16_t)gpr(o.at(0)); op2(1); break;
        case 's': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); if(o.at(2)[0] == '#') { I.useImm = 1; I.imm = imm(o[2]); if(I.imm < 0 || I.imm > 32 || (I.imm == 32 && (I.op == A_LSL || I.op == A_ROR))) throw Trap("shift amount"); } else I.rs2 = (int16_t)gpr(o[2]); break;
        case '3': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.rs2 = (int16_t)gpr(o.at(2)); break;
        case '4': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.rs2 = (int16_t)gpr(o.at(2)); I.rs3 = (int16_t)gpr(o.at(3)); break;
        case '2': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); break;
        case 'b': I.tgt = m.target(o.at(0)); break;
        case 'x': I.rs1 = (int16_t)gpr(o.at(0)); break;
        case 'l': case 'v': {
            I.rd = (int16_t)(it->second.f == 'v' ? fpr(o.at(0)) : gpr(o.at(0)));
            if(o.size() != 2) throw Trap("addressing mode");
            std::string s = o.at(1); if(s.front() != '[' || s.back() != ']') throw Trap("bad address"); s = s.substr(1, s.size() - 2);
            auto q = splitOps(s);
            I.rs1 = (int16_t)gpr(q.at(0)); I.useImm = 1; I.imm = 0;
            if(q.size() > 1) {
                if(q[1][0] == '#') {
                    I.imm = imm(q[1]); int64_t a = I.imm < 0 ? -I.imm : I.imm;
                    if(it->second.f == 'v') { if(a > 1020 || a % 4) throw Trap("vldr offset"); }
                    else if(I.op == A_LDR || I.op == A_STR || I.op == A_LDRB || I.op == A_STRB) { if(a > 4095) throw Trap("ldr offset"); }
                    else if(a > 255) throw Trap("ldrh offset");
                } else {
                    I.useImm = 0; I.rs2 = (int16_t)gpr(q[1]);
                    if(q.size() > 2) { if(q[2].substr(0, 5) != "lsl #") throw Trap("bad index shift"); I.imm = imm(q[2].substr(4)); if(I.imm < 0 || I.imm > 31) throw Trap("index shift"); if(!(I.op == A_LDR || I.op == A_STR || I.op == A_LDRB || I.op == A_STRB) && I.imm) throw Trap("ldrh index shift"); }
                }
            }
            break;
        }
        case 'w': {
            I.rd = (int16_t)gpr(o.at(0)); auto& s = o.at(1);
            if(s.substr(0, 9) == "#:lower16") I.imm = m.symAddr(s.substr(10)) & 0xffff;
            else if(s.substr(0, 9) == "#:upper16") I.imm = m.symAddr(s.substr(10)) >> 16;
            else { I.imm = imm(s); if(I.imm < 0 || I.imm > 65535) throw Trap("imm16"); }
            break;
        }
        case 'p': case 'P': {
            std::string s = o.at(0); if(s.front() != '{') throw Trap("reglist"); s = s.substr(1, s.size() - 2); uint64_t mask = 0; int last = -1; bool contig = true;
            for(auto& r : splitOps(s)) { int x = it->second.f == 'p' ? gpr(r) : fpr(r); if(x <= last) throw Trap("reglist order"); if(last >= 0 && x != last + 1) contig = false; last = x; mask |= 1ull << x; }
            if(it->second.f == 'P' && !contig) throw Trap("VFP register list is not contiguous");
            if(!mask) throw Trap("empty register list");
            I.imm = (int64_t)mask; break;
        }
        case 'S': I.rd = (int16_t)gpr(o.at(0)); I.imm = imm(o.at(1)); I.rs1 = (int16_t)gpr(o.at(2)); break;
        case 'n': break;
        case 'F': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); I.rs2 = (int16_t)fpr(o.at(2)); break;
        case 'f': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); if(I.op == A_VCVTF32S32) { if(suffix == ".f32.s32") {} else if(suffix == ".s32.f32") I.op = A_VCVTS32F32; else I.op = A_BAD; } break;
        case 'C': I.rs1 = (int16_t)fpr(o.at(0)); if(o.at(1)[0] == '#') I.op = A_VCMPZ; else I.rs2 = (int16_t)fpr(o.at(1)); break;
        case 'V': {
            int a = reg(o.at(0));
            if(o.at(1)[0] == '#') { I.op = A_VMOVFI; I.rd = (int16_t)fpr(o[0]); float f = strtof(o[1].c_str() + 1, nullptr); uint32_t u; memcpy(&u, &f, 4); I.imm = u; 
                uint32_t e = (u >> 23) & 0xff; if((u & 0x7ffff) || !(e >= 124 && e <= 131)) throw Trap("vmov immediate not encodable"); }
            else { int b = reg(o.at(1)); if(a < 0 || b < 0) throw Trap("vmov operands"); if(a >= 100 && b >= 100) { I.op = A_VMOVFF; I.rd = (int16_t)(a - 100); I.rs1 = (int16_t)(b - 100); } else if(a >= 100) { I.op = A_VMOVFR; I.rd = (int16_t)(a - 100); I.rs1 = (int16_t)b; } else { I.op = A_VMOVRF; I.rd = (int16_t)a; I.rs1 = (int16_t)(b - 100); if(b < 100) throw Trap("vmov operands"); } }
            break;
        }
    }
}

// ---------------------------------------------------------------- MIPS decode
inline void Parser::decodeMIPS(Inst& I, const std::string& mn, const std::vector<std::string>& o) {
    struct D { uint16_t op; char f; };
    static const std::unordered_map<std::string, D> T = {
        {"addu",{M_ADDU,'R'}},{"and",{M_AND,'R'}},{"nor",{M_NOR,'R'}},{"or",{M_OR,'R'}},{"sllv",{M_SLLV,'R'}},{"srav",{M_SRAV,'R'}},{"srlv",{M_SRLV,'R'}},{"subu",{M_SUBU,'R'}},{"xor",{M_XOR,'R'}},{"slt",{M_SLT,'R'}},{"sltu",{M_SLTU,'R'}},{"movn",{M_MOVN,'R'}},{"movz",{M_MOVZ,'R'}},{"mul",{M_MUL,'R'}},
        {"addiu",{M_ADDIU,'I'}},{"slti",{M_SLTI,'I'}},{"sltiu",{M_SLTIU,'I'}},{"andi",{M_ANDI,'u'}},{"ori",{M_ORI,'u'}},{"xori",{M_XORI,'u'}},{"sll",{M_SLL,'s'}},{"sra",{M_SRA,'s'}},{"srl",{M_SRL,'s'}},
        {"add.s",{M_ADDS,'F'}},{"sub.s",{M_SUBS,'F'}},{"mul.s",{M_MULS,'F'}},{"div.s",{M_DIVS,'F'}},{"abs.s",{M_ABSS,'f'}},{"neg.s",{M_NEGS,'f'}},{"mov.s",{M_MOVS,'f'}},{"cvt.s.w",{M_CVTSW,'f'}},{"trunc.w.s",{M_TRUNCWS,'f'}},
        {"break",{M_BREAK,'N'}},{"nop",{M_NOP,'N'}},{"syscall",{M_SYSCALL,'N'}},{"b",{M_B,'J'}},{"j",{M_J,'J'}},{"bc1f",{M_BC1F,'J'}},{"bc1t",{M_BC1T,'J'}},{"jal",{M_JAL,'J'}},{"jr",{M_JR,'1'}},
        {"beq",{M_BEQ,'B'}},{"bne",{M_BNE,'B'}},{"bgez",{M_BGEZ,'Z'}},{"bgtz",{M_BGTZ,'Z'}},{"blez",{M_BLEZ,'Z'}},{"bltz",{M_BLTZ,'Z'}},
        {"c.eq.s",{M_CEQ,'c'}},{"c.ueq.s",{M_CUEQ,'c'}},{"c.olt.s",{M_COLT,'c'}},{"c.ole.s",{M_COLE,'c'}},{"c.ult.s",{M_CULT,'c'}},{"c.ule.s",{M_CULE,'c'}},{"c.lt.s",{M_COLT,'c'}},{"c.le.s",{M_COLE,'c'}},
        {"mult",{M_MULT,'m'}},{"multu",{M_MULTU,'m'}},{"div",{M_DIV,'d'}},{"divu",{M_DIVU,'d'}},{"mfhi",{M_MFHI,'r'}},{"mflo",{M_MFLO,'r'}},
        {"lb",{M_LB,'L'}},{"lbu",{M_LBU,'L'}},{"lh",{M_LH,'L'}},{"lhu",{M_LHU,'L'}},{"lw",{M_LW,'L'}},{"sb",{M_SB,'L'}},{"sh",{M_SH,'L'}},{"sw",{M_SW,'L'}},{"lwc1",{M_LWC1,'l'}},{"swc1",{M_SWC1,'l'}},
        {"mfc1",{M_MFC1,'x'}},{"mtc1",{M_MTC1,'x'}},{"lui",{M_LUI,'U'}},{"li",{M_LI,'U'}},{"move",{M_MOVE,'2'}},{"movf",{M_MOVF,'t'}},{"movt",{M_MOVT,'t'}},{"movt.s",{M_MOVTS,'T'}},{"movf.s",{M_MOVFS,'T'}},{"movz.s",{M_MOVZS,'y'}},{"movn.s",{M_MOVNS,'y'}}};
    auto it = T.find(mn);
    if(it == T.end()) { I.op = M_BAD; return; }
    I.op = it->second.op;
    auto range = [&](int64_t v, int64_t lo, int64_t hi) { if(v < lo || v > hi) throw Trap("immediate out of range"); };
    auto mem = [&](const std::string& s) {
        auto p = s.rfind('('); if(p == std::string::npos || s.back() != ')') throw Trap("bad memory operand");
        I.rs1 = (int16_t)gpr(s.substr(p + 1, s.size() - p - 2)); auto q = s.substr(0, p); I.imm = q.empty() ? 0 : immRelocM(q); range(I.imm, -32768, 32767);
    };
    auto fcc = [&](const std::string& s) { if(s != "$fcc0" && s != "$0" && s != "0") throw Trap("bad condition register " + s); };
    switch(it->second.f) {
        case 'R': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.rs2 = (int16_t)gpr(o.at(2)); break;
        case 'I': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.imm = immRelocM(o.at(2)); range(I.imm, -32768, 32767); break;
        case 'u': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.imm = immRelocM(o.at(2)); range(I.imm, 0, 65535); break;
        case 's': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); I.imm = imm(o.at(2)); range(I.imm, 0, 31); break;
        case 'F': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); I.rs2 = (int16_t)fpr(o.at(2)); break;
        case 'f': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); break;
        case 'N': break;
        case 'J': I.tgt = m.target(o.at(0)); break;
        case '1': I.rs1 = (int16_t)gpr(o.at(0)); break;
        case 'B': I.rs1 = (int16_t)gpr(o.at(0)); I.rs2 = (int16_t)gpr(o.at(1)); I.tgt = m.target(o.at(2)); break;
        case 'Z': I.rs1 = (int16_t)gpr(o.at(0)); I.tgt = m.target(o.at(1)); break;
        case 'c': I.rs1 = (int16_t)fpr(o.at(0)); I.rs2 = (int16_t)fpr(o.at(1)); break;
        case 'm': I.rs1 = (int16_t)gpr(o.at(0)); I.rs2 = (int16_t)gpr(o.at(1)); break;
        case 'd': if(gpr(o.at(0)) != 0) throw Trap("div form"); I.rs1 = (int16_t)gpr(o.at(1)); I.rs2 = (int16_t)gpr(o.at(2)); break;
        case 'r': I.rd = (int16_t)gpr(o.at(0)); break;
        case 'L': I.rd = (int16_t)gpr(o.at(0)); mem(o.at(1)); break;
        case 'l': I.rd = (int16_t)fpr(o.at(0)); mem(o.at(1)); break;
        case 'x': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); break;
        case 'U': I.rd = (int16_t)gpr(o.at(0)); I.imm = immRelocM(o.at(1)); if(I.op == M_LUI) range(I.imm, 0, 65535); else range(I.imm, INT32_MIN, 0xffffffffll); break;
        case '2': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); break;
        case 't': I.rd = (int16_t)gpr(o.at(0)); I.rs1 = (int16_t)gpr(o.at(1)); if(o.size() > 2) fcc(o[2]); break;
        case 'T': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); if(o.size() > 2) fcc(o[2]); break;
        case 'y': I.rd = (int16_t)fpr(o.at(0)); I.rs1 = (int16_t)fpr(o.at(1)); I.rs2 = (int16_t)gpr(o.at(2)); break;
    }
}

// ---------------------------------------------------------------- machine
struct CPU {
    int64_t x[32];        // RV/MIPS GPR (MIPS: sign extended 32-bit) / ARM r0-15 in low 32 bits
    uint32_t f[32];
    uint32_t hi = 0, lo = 0; bool fcc = false;
    bool N = false, Z = false, C = false, V = false; bool fN = false, fZ = false, fC = false, fV = false;
    int32_t pc = 0;
};

struct Machine {
    const Module& m;
    std::vector<uint8_t>& mem;   // [MEM_LO, MEM_LO + size)
    CPU c;
    uint64_t steps = 0, limit = 5000000;
    std::function<void(Machine&, const std::string&)> ext;   // external call
    uint32_t stackLo = 0;
    Machine(const Module& mm, std::vector<uint8_t>& b) : m(mm), mem(b) { memset(&c, 0, sizeof c); }
    [[noreturn]] void trap(const std::string& s) const {
        std::string w = s;
        int pc = c.pc;
        if(pc >= 0 && pc < (int)m.src.size()) w += " at line " + std::to_string(m.code[(size_t)pc].line) + " '" + m.src[(size_t)pc] + "'";
        throw Trap(w);
    }
    template <class T> T* at(uint64_t a) {
        if(a < MEM_LO || a + sizeof(T) > MEM_LO + mem.size()) trap("invalid memory access at " + std::to_string(a));
        if(a % sizeof(T)) trap("misaligned access at " + std::to_string(a));
        return reinterpret_cast<T*>(&mem[(size_t)(a - MEM_LO)]);
    }
    template <class T> T* at8(uint64_t a) {  // ld/sd
        return at<T>(a);
    }
    static float u2f(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
    static uint32_t f2u(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
    float F(int i) const { return u2f(c.f[i]); }
    void setF(int i, float v) { c.f[i] = f2u(v); }
    int spReg() const { return m.arch == RV ? 2 : m.arch == ARM ? 13 : 29; }
    uint32_t sp() const { return (uint32_t)c.x[spReg()]; }
    int32_t intArg(int k) { 
        if(m.arch == RV) { if(k < 8) return (int32_t)c.x[10 + k]; return *at<int32_t>(sp() + 8u * (uint32_t)(k - 8)); }
        if(m.arch == ARM) { if(k < 4) return (int32_t)c.x[k]; return *at<int32_t>(sp() + 4u * (uint32_t)(k - 4)); }
        if(k < 4) return (int32_t)c.x[4 + k]; return *at<int32_t>(sp() + 4u * (uint32_t)k);
    }
    float floatArg0() { return m.arch == RV ? F(10) : m.arch == ARM ? F(0) : F(12); }
    void setIntRet(int32_t v) { if(m.arch == RV) c.x[10] = v; else if(m.arch == ARM) c.x[0] = (uint32_t)v; else c.x[2] = v; }
    void setFloatRet(float v) { if(m.arch == RV) setF(10, v); else setF(0, v); }
    int32_t intRet() const { return m.arch == RV ? (int32_t)c.x[10] : m.arch == ARM ? (int32_t)c.x[0] : (int32_t)c.x[2]; }
    float floatRet() const { return m.arch == RV ? F(10) : F(0); }
    void poisonCallerSaved() {
        const int64_t P = (int64_t)(int32_t)0xBAD0BEEF; const uint32_t PF = 0x7fbadbad;
        if(m.arch == RV) {
            static const int r[] = {5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 28, 29, 30, 31};
            for(int i : r) c.x[i] = (int64_t)0xBAD0BEEFBAD0BEEFull;
            for(int i = 0; i < 32; ++i) if(!(i == 8 || i == 9 || (i >= 18 && i <= 27))) c.f[i] = PF;
        } else if(m.arch == ARM) {
            for(int i : {0, 1, 2, 3, 12}) c.x[i] = (uint32_t)P;
            for(int i = 0; i < 16; ++i) c.f[i] = PF;
            c.N = c.Z = c.C = c.V = true;
        } else {
            for(int i : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25}) c.x[i] = P;
            for(int i = 0; i < 20; ++i) c.f[i] = PF;
            c.hi = c.lo = (uint32_t)P;
        }
    }
    bool calleeSavedEq(const CPU& a, std::string& why) const {
        auto chk = [&](int i, const char* n) { int64_t p = c.x[i], q = a.x[i]; if(m.arch == ARM) { p = (uint32_t)p; q = (uint32_t)q; } if(p != q) { why = std::string(n) + std::to_string(i); return false; } return true; };
        auto chf = [&](int i) { if(c.f[i] != a.f[i]) { why = "f" + std::to_string(i); return false; } return true; };
        if(m.arch == RV) { for(int i : {2, 3, 4, 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}) if(!chk(i, "x")) return false; for(int i : {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}) if(!chf(i)) return false; }
        else if(m.arch == ARM) { for(int i : {4, 5, 6, 7, 8, 9, 10, 11, 13}) if(!chk(i, "r")) return false; for(int i = 16; i < 32; ++i) if(!chf(i)) return false; }
        else { for(int i : {16, 17, 18, 19, 20, 21, 22, 23, 28, 29, 30}) if(!chk(i, "$")) return false; for(int i = 20; i < 32; i += 2) if(!chf(i)) return false; }
        return true;
    }
    // calls the guest function at code index `entry`; returns when it returns to EXIT_ADDR
    void callGuest(int32_t entry) {
        int32_t savePc = c.pc;
        int ra = m.arch == RV ? 1 : m.arch == ARM ? 14 : 31;
        int64_t saveRa = c.x[ra];
        c.x[ra] = EXIT_ADDR; c.pc = entry;
        if(m.arch == RV) runRV(); else if(m.arch == ARM) runARM(); else runMIPS();
        c.pc = savePc; c.x[ra] = saveRa;
    }
    void tick() { if(++steps > limit) throw StepLimit{}; }
    bool jumpTo(uint64_t a) {  // true when exiting
        if(a == EXIT_ADDR) return true;
        if(a < CODE_BASE || (a & 3) || (a - CODE_BASE) / 4 >= m.code.size()) trap("jump to invalid address " + std::to_string(a));
        c.pc = (int32_t)((a - CODE_BASE) / 4); return false;
    }
    void branch(const Inst& I) { if(I.tgt < 0) trap("branch to external symbol"); c.pc = I.tgt; }
    void callExt(int32_t tgt) { ext(*this, m.externs[(size_t)(-2 - tgt)]); }
    void store32chk(uint64_t a) { for(auto& r : m.rodata) if(a >= r.first && a < r.second) trap("write to read-only data"); }
    // provenance of register values, used only to attribute mismatches to recorded defects (see labels in engine.cpp)
    uint32_t tagS = 0, tagW = 0, events = 0; // tagS: sign bit of a wide product; tagW: wrapped sum or difference
    bool movV = false; // the flags come from a flag-setting move, which keeps V
    enum { EvQuotient = 1, EvBranchDiff = 2, EvWrappedBound = 4, EvShiftAdd = 8, EvMovFlags = 16 };
    void runRV(); void runARM(); void runMIPS();
    bool stepRV(); 
};

inline int clz64(uint64_t v) { return v ? __builtin_clzll(v) : 64; }
inline int ctz64(uint64_t v) { return v ? __builtin_ctzll(v) : 64; }

inline int32_t cvtRTZ(float f) { if(f != f) return INT32_MAX; if(f >= 2147483648.0f) return INT32_MAX; if(f < -2147483648.0f) return INT32_MIN; return (int32_t)f; }

inline void Machine::runRV() { while(!stepRV()) {} }

// executes one instruction; true when the outermost call returned
inline bool Machine::stepRV() {
    tick();
    if(c.pc < 0 || c.pc >= (int32_t)m.code.size()) trap("execution fell off the end of the code");
    const Inst& I = m.code[(size_t)c.pc];
    auto& x = c.x;
    const int64_t a = x[I.rs1], b = x[I.rs2];
    auto W = [&](int64_t v) { if(I.rd) x[I.rd] = v; tagS &= ~(1u << (I.rd & 31)); tagW &= ~(1u << (I.rd & 31)); };
    auto SW = [](uint32_t v) { return (int64_t)(int32_t)v; };
    const uint32_t aw = (uint32_t)a, bw = (uint32_t)b;
    bool taken = false;
    switch(I.op) {
        case R_NOP: break;
        case R_ADDI: W((int64_t)((uint64_t)a + (uint64_t)I.imm)); break;
        case R_SLTI: W(a < I.imm); break;
        case R_SLTIU: W((uint64_t)a < (uint64_t)I.imm); break;
        case R_ANDI: W(a & I.imm); break;
        case R_ORI: W(a | I.imm); break;
        case R_XORI: W(a ^ I.imm); break;
        case R_SLLI: W((int64_t)((uint64_t)a << I.imm)); break;
        case R_SRLI: W((int64_t)((uint64_t)a >> I.imm)); if(I.imm == 63) tagS |= 1u << I.rd; break;
        case R_SRAI: W(a >> I.imm); break;
        case R_ADDIW: { bool o = (int64_t)(int32_t)aw + I.imm != (int64_t)SW(aw + (uint32_t)I.imm); W(SW(aw + (uint32_t)I.imm)); if(o) tagW |= 1u << I.rd; break; }
        case R_SLLIW: W(SW(aw << I.imm)); break;
        case R_SRLIW: W(SW(aw >> I.imm)); if(I.imm == 31) tagS |= 1u << I.rd; break;
        case R_SRAIW: W((int64_t)((int32_t)aw >> I.imm)); break;
        case R_LUI: W(SW((uint32_t)I.imm << 12)); break;
        case R_AUIPC: W((int64_t)((uint64_t)I.imm << 12)); break;
        case R_LI: case R_LA: W(I.imm); break;
        case R_ADD: { bool q = ((tagS >> I.rs1) | (tagS >> I.rs2)) & 1; int64_t r = (int64_t)((uint64_t)a + (uint64_t)b); if(q && r != (int32_t)r) events |= EvQuotient; W(r); break; }
        case R_SUB: W((int64_t)((uint64_t)a - (uint64_t)b)); break;
        case R_SLT: W(a < b); break;
        case R_SLTU: W((uint64_t)a < (uint64_t)b); break;
        case R_AND: W(a & b); break;
        case R_OR: W(a | b); break;
        case R_XOR: W(a ^ b); break;
        case R_SLL: W((int64_t)((uint64_t)a << (b & 63))); break;
        case R_SRL: W((int64_t)((uint64_t)a >> (b & 63))); break;
        case R_SRA: W(a >> (b & 63)); break;
        case R_ADDW: W(SW(aw + bw)); break;
        case R_SUBW: W(SW(aw - bw)); break;
        case R_SLLW: W(SW(aw << (b & 31))); break;
        case R_SRLW: W(SW(aw >> (b & 31))); break;
        case R_SRAW: W((int64_t)((int32_t)aw >> (b & 31))); break;
        case R_MUL: W((int64_t)((uint64_t)a * (uint64_t)b)); break;
        case R_MULH: W((int64_t)(((__int128)a * (__int128)b) >> 64)); break;
        case R_MULHU: W((int64_t)(((unsigned __int128)(uint64_t)a * (uint64_t)b) >> 64)); break;
        case R_MULHSU: W((int64_t)(((__int128)a * (unsigned __int128)(uint64_t)b) >> 64)); break;
        case R_MULW: W(SW(aw * bw)); break;
        case R_DIV: W(b == 0 ? -1 : (a == INT64_MIN && b == -1) ? a : a / b); break;
        case R_DIVU: W(b == 0 ? -1 : (int64_t)((uint64_t)a / (uint64_t)b)); break;
        case R_REM: W(b == 0 ? a : (a == INT64_MIN && b == -1) ? 0 : a % b); break;
        case R_REMU: W(b == 0 ? a : (int64_t)((uint64_t)a % (uint64_t)b)); break;
        case R_DIVW: { int32_t p = (int32_t)aw, q = (int32_t)bw; W(q == 0 ? -1 : (p == INT32_MIN && q == -1) ? p : p / q); break; }
        case R_DIVUW: W(bw == 0 ? -1 : SW(aw / bw)); break;
        case R_REMW: { int32_t p = (int32_t)aw, q = (int32_t)bw; W(q == 0 ? p : (p == INT32_MIN && q == -1) ? 0 : p % q); break; }
        case R_REMUW: W(bw == 0 ? SW(aw) : SW(aw % bw)); break;
        case R_BEQ: taken = a == b; goto br;
        case R_BNE: taken = a != b; goto br;
        case R_BLT: taken = a < b; goto br;
        case R_BGE: taken = a >= b; goto br;
        case R_BLTU: taken = (uint64_t)a < (uint64_t)b; goto br;
        case R_BGEU: taken = (uint64_t)a >= (uint64_t)b; goto br;
        case R_BLE: taken = a <= b; goto br;
        case R_BGT: taken = a > b; goto br;
        case R_BLEU: taken = (uint64_t)a <= (uint64_t)b; goto br;
        case R_BGTU: taken = (uint64_t)a > (uint64_t)b; goto br;
        br: if(taken) { branch(I); return false; } break;
        case R_J: if(I.tgt < -1) { callExt(I.tgt); return jumpTo((uint64_t)x[1]); } branch(I); return false;
        case R_JAL:
            if(I.tgt < -1) { x[1] = CODE_BASE + 4 * (c.pc + 1); callExt(I.tgt); x[1] = CODE_BASE + 4 * (c.pc + 1); break; }
            x[1] = CODE_BASE + 4 * (c.pc + 1); branch(I); return false;
        case R_RET: return jumpTo((uint64_t)x[1]);
        case R_JR: return jumpTo((uint64_t)a);
        case R_LB: W(*at<int8_t>((uint64_t)(a + I.imm))); break;
        case R_LBU: W(*at<uint8_t>((uint64_t)(a + I.imm))); break;
        case R_LH: W(*at<int16_t>((uint64_t)(a + I.imm))); break;
        case R_LHU: W(*at<uint16_t>((uint64_t)(a + I.imm))); break;
        case R_LW: W(*at<int32_t>((uint64_t)(a + I.imm))); break;
        case R_LWU: W(*at<uint32_t>((uint64_t)(a + I.imm))); break;
        case R_LD: W(*at8<int64_t>((uint64_t)(a + I.imm))); break;
        case R_SB: store32chk((uint64_t)(a + I.imm)); *at<uint8_t>((uint64_t)(a + I.imm)) = (uint8_t)x[I.rd]; break;
        case R_SH: store32chk((uint64_t)(a + I.imm)); *at<uint16_t>((uint64_t)(a + I.imm)) = (uint16_t)x[I.rd]; break;
        case R_SW: store32chk((uint64_t)(a + I.imm)); *at<uint32_t>((uint64_t)(a + I.imm)) = (uint32_t)x[I.rd]; break;
        case R_SD: store32chk((uint64_t)(a + I.imm)); *at8<uint64_t>((uint64_t)(a + I.imm)) = (uint64_t)x[I.rd]; break;
        case R_FLW: c.f[I.rd] = *at<uint32_t>((uint64_t)(a + I.imm)); break;
        case R_FSW: store32chk((uint64_t)(a + I.imm)); *at<uint32_t>((uint64_t)(a + I.imm)) = c.f[I.rd]; break;
        case R_AMOADDW: { auto p = at<uint32_t>((uint64_t)(a + I.imm)); uint32_t o = *p; *p = o + bw; W(SW(o)); break; }
        case R_FADD: setF(I.rd, F(I.rs1) + F(I.rs2)); break;
        case R_FSUB: setF(I.rd, F(I.rs1) - F(I.rs2)); break;
        case R_FMUL: setF(I.rd, F(I.rs1) * F(I.rs2)); break;
        case R_FDIV: setF(I.rd, F(I.rs1) / F(I.rs2)); break;
        case R_FMIN: setF(I.rd, fminf(F(I.rs1), F(I.rs2))); break;
        case R_FMAX: setF(I.rd, fmaxf(F(I.rs1), F(I.rs2))); break;
        case R_FNEG: c.f[I.rd] = c.f[I.rs1] ^ 0x80000000u; break;
        case R_FABS: c.f[I.rd] = c.f[I.rs1] & 0x7fffffffu; break;
        case R_FMV: c.f[I.rd] = c.f[I.rs1]; break;
        case R_FSGNJ: c.f[I.rd] = (c.f[I.rs1] & 0x7fffffffu) | (c.f[I.rs2] & 0x80000000u); break;
        case R_FCVTWS: if(I.imm) W(cvtRTZ(F(I.rs1))); else { float r = nearbyintf(F(I.rs1)); W(cvtRTZ(r)); } break;
        case R_FCVTSW: setF(I.rd, (float)(int32_t)aw); break;
        case R_FCVTSWU: setF(I.rd, (float)aw); break;
        case R_FCVTWUS: { float v = F(I.rs1); W(SW(v != v ? 0xffffffffu : v <= -1 ? 0u : v >= 4294967296.0f ? 0xffffffffu : (uint32_t)v)); break; }
        case R_FMVXW: W(SW(c.f[I.rs1])); break;
        case R_FMVWX: c.f[I.rd] = aw; break;
        case R_FEQ: W(F(I.rs1) == F(I.rs2)); break;
        case R_FLT: W(F(I.rs1) < F(I.rs2)); break;
        case R_FLE: W(F(I.rs1) <= F(I.rs2)); break;
        case R_FMADD: setF(I.rd, fmaf(F(I.rs1), F(I.rs2), F(I.rs3))); break;
        case R_FMSUB: setF(I.rd, fmaf(F(I.rs1), F(I.rs2), -F(I.rs3))); break;
        case R_FNMADD: setF(I.rd, fmaf(-F(I.rs1), F(I.rs2), -F(I.rs3))); break;
        case R_FNMSUB: setF(I.rd, fmaf(-F(I.rs1), F(I.rs2), F(I.rs3))); break;
        case R_ADDUW: W((int64_t)((uint64_t)b + aw)); break;
        case R_SH1ADD: W((int64_t)((uint64_t)b + ((uint64_t)a << 1))); if(x[I.rd] != (int32_t)x[I.rd]) events |= EvShiftAdd; break;
        case R_SH2ADD: W((int64_t)((uint64_t)b + ((uint64_t)a << 2))); if(x[I.rd] != (int32_t)x[I.rd]) events |= EvShiftAdd; break;
        case R_SH3ADD: W((int64_t)((uint64_t)b + ((uint64_t)a << 3))); if(x[I.rd] != (int32_t)x[I.rd]) events |= EvShiftAdd; break;
        case R_SH1ADDUW: W((int64_t)((uint64_t)b + ((uint64_t)aw << 1))); break;
        case R_SH2ADDUW: W((int64_t)((uint64_t)b + ((uint64_t)aw << 2))); break;
        case R_SH3ADDUW: W((int64_t)((uint64_t)b + ((uint64_t)aw << 3))); break;
        case R_SLLIUW: W((int64_t)((uint64_t)aw << I.imm)); break;
        case R_ANDN: W(a & ~b); break;
        case R_ORN: W(a | ~b); break;
        case R_XNOR: W(~(a ^ b)); break;
        case R_MIN: if(((tagW >> I.rs1) | (tagW >> I.rs2)) & 1) events |= EvWrappedBound; W(a < b ? a : b); break;
        case R_MAX: if(((tagW >> I.rs1) | (tagW >> I.rs2)) & 1) events |= EvWrappedBound; W(a > b ? a : b); break;
        case R_MINU: W((uint64_t)a < (uint64_t)b ? a : b); break;
        case R_MAXU: W((uint64_t)a > (uint64_t)b ? a : b); break;
        case R_ROL: { int s = b & 63; uint64_t u = (uint64_t)a; W((int64_t)(s ? (u << s) | (u >> (64 - s)) : u)); break; }
        case R_ROR: { int s = b & 63; uint64_t u = (uint64_t)a; W((int64_t)(s ? (u >> s) | (u << (64 - s)) : u)); break; }
        case R_RORI: { int s = (int)I.imm; uint64_t u = (uint64_t)a; W((int64_t)(s ? (u >> s) | (u << (64 - s)) : u)); break; }
        case R_ROLW: { int s = b & 31; W(SW(s ? (aw << s) | (aw >> (32 - s)) : aw)); break; }
        case R_RORW: { int s = b & 31; W(SW(s ? (aw >> s) | (aw << (32 - s)) : aw)); break; }
        case R_RORIW: { int s = (int)I.imm; W(SW(s ? (aw >> s) | (aw << (32 - s)) : aw)); break; }
        case R_SEXTB: W((int8_t)a); break;
        case R_SEXTH: W((int16_t)a); break;
        case R_SEXTW: W((int32_t)a); break;
        case R_ZEXTB: W((uint8_t)a); break;
        case R_ZEXTH: W((uint16_t)a); break;
        case R_ZEXTW: W((int64_t)aw); break;
        case R_CLZ: W(clz64((uint64_t)a)); break;
        case R_CLZW: W(aw ? __builtin_clz(aw) : 32); break;
        case R_CTZ: W(ctz64((uint64_t)a)); break;
        case R_CTZW: W(aw ? __builtin_ctz(aw) : 32); break;
        case R_CPOP: W(__builtin_popcountll((uint64_t)a)); break;
        case R_CPOPW: W(__builtin_popcount(aw)); break;
        case R_ORCB: { uint64_t r = 0; for(int i = 0; i < 8; ++i) if(((uint64_t)a >> (8 * i)) & 0xff) r |= 0xffull << (8 * i); W((int64_t)r); break; }
        case R_REV8: W((int64_t)__builtin_bswap64((uint64_t)a)); break;
        case R_NOT: W(~a); break;
        case R_NEG: W((int64_t)(0 - (uint64_t)a)); break;
        case R_NEGW: W(SW(0u - aw)); break;
        case R_SEQZ: W(a == 0); break;
        case R_SNEZ: W(a != 0); break;
        case R_SLTZ: W(a < 0); break;
        case R_SGTZ: W(a > 0); break;
        case R_UNIMP: trap("executed unimp");
        default: trap("unknown instruction");
    }
    ++c.pc;
    return false;
}

inline void Machine::runARM() {
    auto& x = c.x;
    for(;;) {
        tick();
        if(c.pc < 0 || c.pc >= (int32_t)m.code.size()) trap("execution fell off the end of the code");
        const Inst& I = m.code[(size_t)c.pc];
        if(I.cond != 14) {
            bool ok = true;
            switch(I.cond) {
                case 0: ok = c.Z; break; case 1: ok = !c.Z; break; case 2: ok = c.C; break; case 3: ok = !c.C; break;
                case 4: ok = c.N; break; case 5: ok = !c.N; break; case 6: ok = c.V; break; case 7: ok = !c.V; break;
                case 8: ok = c.C && !c.Z; break; case 9: ok = !c.C || c.Z; break; case 10: ok = c.N == c.V; break; case 11: ok = c.N != c.V; break;
                case 12: ok = !c.Z && c.N == c.V; break; case 13: ok = c.Z || c.N != c.V; break;
            }
            if(I.cond >= 12 && movV && c.V) events |= EvMovFlags;
            if(!ok) { ++c.pc; continue; }
        }
        const uint32_t a = (uint32_t)x[I.rs1];
        bool sc = c.C;
        auto shift = [&](uint32_t v, int kind, uint32_t s) -> uint32_t {
            switch(kind) {
                case 1: if(s == 0) return v; if(s < 32) { sc = (v >> (32 - s)) & 1; return v << s; } sc = s == 32 ? (v & 1) : 0; return 0;
                case 2: if(s == 0) return v; if(s < 32) { sc = (v >> (s - 1)) & 1; return v >> s; } sc = s == 32 ? (v >> 31) : 0; return 0;
                case 3: if(s == 0) return v; if(s < 32) { sc = (v >> (s - 1)) & 1; return (uint32_t)((int32_t)v >> s); } sc = v >> 31; return (uint32_t)((int32_t)v >> 31);
                case 4: { if(s == 0) return v; s &= 31; uint32_t r = s ? (v >> s) | (v << (32 - s)) : v; sc = r >> 31; return r; }
            }
            return v;
        };
        auto op2 = [&]() -> uint32_t {
            if(I.useImm) return (uint32_t)I.imm;
            uint32_t v = (uint32_t)x[I.rs2];
            if(I.shop) return shift(v, I.shop, I.shreg >= 0 ? ((uint32_t)x[I.shreg] & 0xff) : (uint32_t)I.imm);
            return v;
        };
        auto W = [&](uint32_t v) { x[I.rd] = v; tagW &= ~(1u << (I.rd & 31)); };
        auto nz = [&](uint32_t v) { c.N = v >> 31; c.Z = v == 0; };
        auto addc = [&](uint32_t p, uint32_t q, uint32_t ci, bool setf) { uint64_t u = (uint64_t)p + q + ci; uint32_t r = (uint32_t)u; if(setf) { movV = false; nz(r); c.C = u >> 32; c.V = (~(p ^ q) & (p ^ r)) >> 31; } return r; };
        switch(I.op) {
            case A_NOP: break;
            case A_ADD: { uint32_t q = op2(), r = addc(a, q, 0, I.setf); W(r); if((~(a ^ q) & (a ^ r)) >> 31) tagW |= 1u << (I.rd & 31); break; }
            case A_SUB: { uint32_t q = ~op2(), r = addc(a, q, 1, I.setf); W(r); if((~(a ^ q) & (a ^ r)) >> 31) tagW |= 1u << (I.rd & 31); break; }
            case A_RSB: W(addc(~a, op2(), 1, I.setf)); break;
            case A_ADC: W(addc(a, op2(), c.C, I.setf)); break;
            case A_SBC: W(addc(a, ~op2(), c.C, I.setf)); break;
            case A_CMP: if(((tagW >> I.rs1) & 1) || (!I.useImm && ((tagW >> (I.rs2 & 31)) & 1))) events |= EvWrappedBound; addc(a, ~op2(), 1, true); break;
            case A_CMN: addc(a, op2(), 0, true); break;
            case A_AND: { uint32_t r = a & op2(); W(r); if(I.setf) { movV = false; nz(r); c.C = sc; } break; }
            case A_ORR: { uint32_t r = a | op2(); W(r); if(I.setf) { movV = false; nz(r); c.C = sc; } break; }
            case A_EOR: { uint32_t r = a ^ op2(); W(r); if(I.setf) { movV = false; nz(r); c.C = sc; } break; }
            case A_BIC: { uint32_t r = a & ~op2(); W(r); if(I.setf) { movV = false; nz(r); c.C = sc; } break; }
            case A_TST: { uint32_t r = a & op2(); nz(r); c.C = sc; break; }
            case A_TEQ: { uint32_t r = a ^ op2(); nz(r); c.C = sc; break; }
            case A_MOV: { uint32_t r = op2(); if(I.rd == 15) { if(jumpTo(r)) return; continue; } W(r); if(I.setf) { movV = true; nz(r); c.C = sc; } break; }
            case A_MVN: { uint32_t r = ~op2(); W(r); if(I.setf) { movV = false; nz(r); c.C = sc; } break; }
            case A_ASR: case A_LSL: case A_LSR: case A_ROR: { int k = I.op == A_LSL ? 1 : I.op == A_LSR ? 2 : I.op == A_ASR ? 3 : 4; uint32_t s = I.useImm ? (uint32_t)I.imm : ((uint32_t)x[I.rs2] & 0xff); uint32_t r = shift(a, k, s); W(r); if(I.setf) { nz(r); c.C = sc; } break; }
            case A_MUL: { uint32_t r = a * (uint32_t)x[I.rs2]; W(r); if(I.setf) nz(r); break; }
            case A_SMMUL: W((uint32_t)(((int64_t)(int32_t)a * (int32_t)x[I.rs2]) >> 32)); break;
            case A_SMMLA: { int64_t p = (int64_t)(int32_t)a * (int32_t)x[I.rs2]; int64_t r = (int64_t)((uint64_t)(uint32_t)x[I.rs3] << 32) + p; W((uint32_t)((uint64_t)r >> 32)); break; }
            case A_MLA: W(a * (uint32_t)x[I.rs2] + (uint32_t)x[I.rs3]); break;
            case A_MLS: W((uint32_t)x[I.rs3] - a * (uint32_t)x[I.rs2]); break;
            case A_SXTB: W((uint32_t)(int8_t)a); break;
            case A_SXTH: W((uint32_t)(int16_t)a); break;
            case A_UXTB: W((uint8_t)a); break;
            case A_UXTH: W((uint16_t)a); break;
            case A_SDIV: { int32_t p = (int32_t)a, q = (int32_t)x[I.rs2]; W(q == 0 ? 0u : (p == INT32_MIN && q == -1) ? a : (uint32_t)(p / q)); break; }
            case A_UDIV: { uint32_t q = (uint32_t)x[I.rs2]; W(q ? a / q : 0); break; }
            case A_CLZ: W(a ? (uint32_t)__builtin_clz(a) : 32); break;
            case A_B: if(I.tgt < -1) { callExt(I.tgt); if(jumpTo((uint32_t)x[14])) return; continue; } branch(I); continue;
            case A_BL:
                if(I.tgt < -1) { x[14] = CODE_BASE + 4 * (c.pc + 1); callExt(I.tgt); x[14] = CODE_BASE + 4 * (c.pc + 1); break; }
                x[14] = CODE_BASE + 4 * (c.pc + 1); branch(I); continue;
            case A_BX: if(jumpTo(a)) return; continue;
            case A_LDR: case A_LDRB: case A_LDRSB: case A_LDRH: case A_LDRSH: case A_STR: case A_STRB: case A_STRH: case A_VLDR: case A_VSTR: {
                uint32_t ad = I.useImm ? a + (uint32_t)I.imm : a + ((uint32_t)x[I.rs2] << I.imm);
                switch(I.op) {
                    case A_LDR: W(*at<uint32_t>(ad)); break; case A_LDRB: W(*at<uint8_t>(ad)); break; case A_LDRSB: W((uint32_t)*at<int8_t>(ad)); break;
                    case A_LDRH: W(*at<uint16_t>(ad)); break; case A_LDRSH: W((uint32_t)*at<int16_t>(ad)); break;
                    case A_STR: store32chk(ad); *at<uint32_t>(ad) = (uint32_t)x[I.rd]; break; case A_STRB: store32chk(ad); *at<uint8_t>(ad) = (uint8_t)x[I.rd]; break; case A_STRH: store32chk(ad); *at<uint16_t>(ad) = (uint16_t)x[I.rd]; break;
                    case A_VLDR: c.f[I.rd] = *at<uint32_t>(ad); break; default: store32chk(ad); *at<uint32_t>(ad) = c.f[I.rd]; break;
                }
                break;
            }
            case A_MOVW: W((uint32_t)I.imm); break;
            case A_MOVT: W(((uint32_t)x[I.rd] & 0xffff) | ((uint32_t)I.imm << 16)); break;
            case A_VADD: setF(I.rd, F(I.rs1) + F(I.rs2)); break;
            case A_VSUB: setF(I.rd, F(I.rs1) - F(I.rs2)); break;
            case A_VMUL: setF(I.rd, F(I.rs1) * F(I.rs2)); break;
            case A_VNMUL: setF(I.rd, -(F(I.rs1) * F(I.rs2))); break;
            case A_VDIV: setF(I.rd, F(I.rs1) / F(I.rs2)); break;
            case A_VMLA: { volatile float p = F(I.rs1) * F(I.rs2); setF(I.rd, F(I.rd) + p); break; }
            case A_VMLS: { volatile float p = F(I.rs1) * F(I.rs2); setF(I.rd, F(I.rd) - p); break; }
            case A_VNMLA: { volatile float p = F(I.rs1) * F(I.rs2); setF(I.rd, -F(I.rd) - p); break; }
            case A_VNMLS: { volatile float p = F(I.rs1) * F(I.rs2); setF(I.rd, -F(I.rd) + p); break; }
            case A_VFMA: setF(I.rd, fmaf(F(I.rs1), F(I.rs2), F(I.rd))); break;
            case A_VFMS: setF(I.rd, fmaf(-F(I.rs1), F(I.rs2), F(I.rd))); break;
            case A_VFNMA: setF(I.rd, fmaf(-F(I.rs1), F(I.rs2), -F(I.rd))); break;
            case A_VFNMS: setF(I.rd, fmaf(F(I.rs1), F(I.rs2), -F(I.rd))); break;
            case A_VNEG: c.f[I.rd] = c.f[I.rs1] ^ 0x80000000u; break;
            case A_VABS: c.f[I.rd] = c.f[I.rs1] & 0x7fffffffu; break;
            case A_VSQRT: setF(I.rd, sqrtf(F(I.rs1))); break;
            case A_VCMP: case A_VCMPZ: { float p = F(I.rs1), q = I.op == A_VCMPZ ? 0.0f : F(I.rs2);
                if(p != p || q != q) { c.fN = 0; c.fZ = 0; c.fC = 1; c.fV = 1; } else if(p == q) { c.fN = 0; c.fZ = 1; c.fC = 1; c.fV = 0; } else if(p < q) { c.fN = 1; c.fZ = 0; c.fC = 0; c.fV = 0; } else { c.fN = 0; c.fZ = 0; c.fC = 1; c.fV = 0; } break; }
            case A_VMRS: movV = false; c.N = c.fN; c.Z = c.fZ; c.C = c.fC; c.V = c.fV; break;
            case A_VCVTF32S32: setF(I.rd, (float)(int32_t)c.f[I.rs1]); break;
            case A_VCVTS32F32: { float v = F(I.rs1); c.f[I.rd] = v != v ? 0u : (uint32_t)cvtRTZ(v); break; }
            case A_VMOVFF: c.f[I.rd] = c.f[I.rs1]; break;
            case A_VMOVFR: c.f[I.rd] = a; break;
            case A_VMOVRF: W(c.f[I.rs1]); break;
            case A_VMOVFI: c.f[I.rd] = (uint32_t)I.imm; break;
            case A_PUSH: { int n = __builtin_popcountll((uint64_t)I.imm); uint32_t s = (uint32_t)x[13] - 4u * (uint32_t)n; uint32_t p = s; for(int r = 0; r < 16; ++r) if((I.imm >> r) & 1) { *at<uint32_t>(p) = (uint32_t)x[r]; p += 4; } x[13] = s; break; }
            case A_POP: { uint32_t p = (uint32_t)x[13]; bool pcw = false; uint32_t np = 0; uint32_t nsp = p + 4u * (uint32_t)__builtin_popcountll((uint64_t)I.imm); for(int r = 0; r < 16; ++r) if((I.imm >> r) & 1) { uint32_t v = *at<uint32_t>(p); p += 4; if(r == 15) { pcw = true; np = v; } else x[r] = v; } x[13] = nsp; if(pcw) { if(jumpTo(np)) return; continue; } break; }
            case A_VPUSH: { int n = __builtin_popcountll((uint64_t)I.imm); uint32_t s = (uint32_t)x[13] - 4u * (uint32_t)n; uint32_t p = s; for(int r = 0; r < 32; ++r) if((I.imm >> r) & 1) { *at<uint32_t>(p) = c.f[r]; p += 4; } x[13] = s; break; }
            case A_VPOP: { uint32_t p = (uint32_t)x[13]; for(int r = 0; r < 32; ++r) if((I.imm >> r) & 1) { c.f[r] = *at<uint32_t>(p); p += 4; } x[13] = p; break; }
            case A_USAT: { int32_t v = (int32_t)a; int64_t mx = (1ll << I.imm) - 1; W((uint32_t)(v < 0 ? 0 : v > mx ? mx : v)); break; }
            case A_SSAT: { int32_t v = (int32_t)a; int64_t mx = (1ll << (I.imm - 1)) - 1, mn = -mx - 1; W((uint32_t)(v < mn ? mn : v > mx ? mx : v)); break; }
            case A_INST: trap("executed undefined instruction");
            default: trap("unknown instruction");
        }
        if(I.rd == 15 && I.op < A_LDR && I.op != A_CMP && I.op != A_CMN && I.op != A_TST && I.op != A_TEQ && I.op != A_NOP) trap("write to pc");
        ++c.pc;
    }
}

inline void Machine::runMIPS() {
    auto& x = c.x;
    // branch delay slots: the slot instruction executes before the branch takes effect
    int32_t delayed = -1; bool hasDelay = false, exitAfter = false; int32_t extCall = 0;
    for(;;) {
        tick();
        if(c.pc < 0 || c.pc >= (int32_t)m.code.size()) trap("execution fell off the end of the code");
        const Inst& I = m.code[(size_t)c.pc];
        const uint32_t a = (uint32_t)x[I.rs1], b = (uint32_t)x[I.rs2];
        auto W = [&](uint32_t v) { if(I.rd) x[I.rd] = (int32_t)v; tagW &= ~(1u << (I.rd & 31)); };
        auto ov = [&](uint32_t p, uint32_t q, uint32_t r) { if((~(p ^ q) & (p ^ r)) >> 31) tagW |= 1u << (I.rd & 31); };
        bool nowDelay = false; int32_t nt = -1; bool ne = false; int32_t nx = 0;
        auto go = [&](bool t) { nowDelay = true; if(t) { if(I.tgt < 0) trap("branch to external symbol"); nt = I.tgt; } else nt = c.pc + 2; };
        switch(I.op) {
            case M_NOP: break;
            case M_ADDU: W(a + b); ov(a, b, a + b); break; case M_SUBU: W(a - b); if(((a ^ b) & (a ^ (a - b))) >> 31) tagW |= 1u << (I.rd & 31); break; case M_AND: W(a & b); break; case M_OR: W(a | b); break; case M_NOR: W(~(a | b)); break; case M_XOR: W(a ^ b); break;
            case M_SLLV: W(a << (b & 31)); break; case M_SRLV: W(a >> (b & 31)); break; case M_SRAV: W((uint32_t)((int32_t)a >> (b & 31))); break;
            case M_MUL: W(a * b); break;
            case M_ADDIU: W(a + (uint32_t)I.imm); ov(a, (uint32_t)I.imm, a + (uint32_t)I.imm); break; case M_ANDI: W(a & (uint32_t)I.imm); break; case M_ORI: W(a | (uint32_t)I.imm); break; case M_XORI: W(a ^ (uint32_t)I.imm); break;
            case M_SLL: W(a << I.imm); break; case M_SRL: W(a >> I.imm); break; case M_SRA: W((uint32_t)((int32_t)a >> I.imm)); break;
            case M_SLT: W((int32_t)a < (int32_t)b); break; case M_SLTU: W(a < b); break; case M_SLTI: W((int32_t)a < (int32_t)I.imm); break; case M_SLTIU: W(a < (uint32_t)I.imm); break;
            case M_LUI: W((uint32_t)I.imm << 16); break; case M_LI: W((uint32_t)I.imm); break; case M_MOVE: W(a); break;
            case M_MOVN: if(b) W(a); break; case M_MOVZ: if(!b) W(a); break; case M_MOVF: if(!c.fcc) W(a); break; case M_MOVT: if(c.fcc) W(a); break;
            case M_MOVTS: if(c.fcc) c.f[I.rd] = c.f[I.rs1]; break; case M_MOVFS: if(!c.fcc) c.f[I.rd] = c.f[I.rs1]; break; case M_MOVZS: if(!b) c.f[I.rd] = c.f[I.rs1]; break; case M_MOVNS: if(b) c.f[I.rd] = c.f[I.rs1]; break;
            case M_ADDS: setF(I.rd, F(I.rs1) + F(I.rs2)); break; case M_SUBS: setF(I.rd, F(I.rs1) - F(I.rs2)); break; case M_MULS: setF(I.rd, F(I.rs1) * F(I.rs2)); break; case M_DIVS: setF(I.rd, F(I.rs1) / F(I.rs2)); break;
            case M_ABSS: c.f[I.rd] = c.f[I.rs1] & 0x7fffffffu; break; case M_NEGS: c.f[I.rd] = c.f[I.rs1] ^ 0x80000000u; break; case M_MOVS: c.f[I.rd] = c.f[I.rs1]; break;
            case M_CVTSW: setF(I.rd, (float)(int32_t)c.f[I.rs1]); break; case M_TRUNCWS: c.f[I.rd] = (uint32_t)cvtRTZ(F(I.rs1)); break;
            case M_BREAK: trap("executed break");
            case M_B: case M_J: if(I.tgt < -1) { nowDelay = true; nx = I.tgt; nt = (int32_t)(((uint32_t)x[31] - CODE_BASE) / 4); if((uint32_t)x[31] == EXIT_ADDR) ne = true; } else go(true); break;
            case M_BC1F: go(!c.fcc); break; case M_BC1T: go(c.fcc); break;
            case M_BEQ: go(a == b); break; case M_BNE: go(a != b); break; case M_BGEZ: if((tagW >> I.rs1) & 1) events |= EvBranchDiff; go((int32_t)a >= 0); break; case M_BGTZ: if((tagW >> I.rs1) & 1) events |= EvBranchDiff; go((int32_t)a > 0); break; case M_BLEZ: if((tagW >> I.rs1) & 1) events |= EvBranchDiff; go((int32_t)a <= 0); break; case M_BLTZ: if((tagW >> I.rs1) & 1) events |= EvBranchDiff; go((int32_t)a < 0); break;
            case M_CEQ: c.fcc = F(I.rs1) == F(I.rs2); break; case M_CUEQ: c.fcc = !(F(I.rs1) < F(I.rs2) || F(I.rs1) > F(I.rs2)); break; case M_COLT: c.fcc = F(I.rs1) < F(I.rs2); break; case M_COLE: c.fcc = F(I.rs1) <= F(I.rs2); break; case M_CULT: c.fcc = !(F(I.rs1) >= F(I.rs2)); break; case M_CULE: c.fcc = !(F(I.rs1) > F(I.rs2)); break;
            case M_MULT: { int64_t p = (int64_t)(int32_t)a * (int32_t)b; c.lo = (uint32_t)p; c.hi = (uint32_t)((uint64_t)p >> 32); break; }
            case M_MULTU: { uint64_t p = (uint64_t)a * b; c.lo = (uint32_t)p; c.hi = (uint32_t)(p >> 32); break; }
            case M_DIV: { int32_t p = (int32_t)a, q = (int32_t)b; if(q == 0) { c.lo = c.hi = 0xdeadbeef; } else if(p == INT32_MIN && q == -1) { c.lo = a; c.hi = 0; } else { c.lo = (uint32_t)(p / q); c.hi = (uint32_t)(p % q); } break; }
            case M_DIVU: if(b) { c.lo = a / b; c.hi = a % b; } break;
            case M_MFHI: W(c.hi); break; case M_MFLO: W(c.lo); break;
            case M_JAL: x[31] = CODE_BASE + 4 * (c.pc + 2); nowDelay = true; if(I.tgt < -1) { nx = I.tgt; nt = c.pc + 2; } else nt = I.tgt; break;
            case M_JR: nowDelay = true; if(a == EXIT_ADDR) ne = true; else { if(a < CODE_BASE || (a & 3) || (a - CODE_BASE) / 4 >= m.code.size()) trap("jump to invalid address"); nt = (int32_t)((a - CODE_BASE) / 4); } break;
            case M_LB: W((uint32_t)*at<int8_t>((uint32_t)(a + (uint32_t)I.imm))); break; case M_LBU: W(*at<uint8_t>((uint32_t)(a + (uint32_t)I.imm))); break; case M_LH: W((uint32_t)*at<int16_t>((uint32_t)(a + (uint32_t)I.imm))); break; case M_LHU: W(*at<uint16_t>((uint32_t)(a + (uint32_t)I.imm))); break; case M_LW: W(*at<uint32_t>((uint32_t)(a + (uint32_t)I.imm))); break;
            case M_SB: store32chk(a + (uint32_t)I.imm); *at<uint8_t>((uint32_t)(a + (uint32_t)I.imm)) = (uint8_t)x[I.rd]; break; case M_SH: store32chk(a + (uint32_t)I.imm); *at<uint16_t>((uint32_t)(a + (uint32_t)I.imm)) = (uint16_t)x[I.rd]; break; case M_SW: store32chk(a + (uint32_t)I.imm); *at<uint32_t>((uint32_t)(a + (uint32_t)I.imm)) = (uint32_t)x[I.rd]; break;
            case M_LWC1: c.f[I.rd] = *at<uint32_t>((uint32_t)(a + (uint32_t)I.imm)); break; case M_SWC1: store32chk(a + (uint32_t)I.imm); *at<uint32_t>((uint32_t)(a + (uint32_t)I.imm)) = c.f[I.rd]; break;
            case M_MFC1: W(c.f[I.rs1]); break; case M_MTC1: c.f[I.rs1] = (uint32_t)x[I.rd]; break;
            default: trap("unknown instruction");
        }
        if(hasDelay) {
            if(nowDelay) trap("branch in a delay slot");
            hasDelay = false;
            if(extCall) { int32_t t = extCall; extCall = 0; int64_t ra = x[31]; callExt(t); x[31] = ra; }
            if(exitAfter) return;
            c.pc = delayed; continue;
        }
        if(nowDelay) { hasDelay = true; delayed = nt; exitAfter = ne; extCall = nx; ++c.pc; continue; }
        ++c.pc;
    }
}

}  // namespace emu
