// Reference semantics of the SysY source language: an independent parser and definitional
// evaluator.  It shares no code with /repo.  Executions that the language leaves undefined
// (signed overflow, division by zero, out-of-range shift, out-of-bounds access, read of an
// uninitialised variable, float->int out of range, missing return value that is used, step
// limit) raise Undef and are not compared against the compiler.
#pragma once
#include <cmath>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace ref {

struct Undef { const char* why; };
struct SyntaxError : std::runtime_error { using std::runtime_error::runtime_error; };

enum Base { INT, FLOAT, VOID };
struct Type {
    Base base = INT;
    bool arr = false;                // array or pointer-to (param)
    std::vector<int> dims;           // dims[0] == -1 for pointer params
    bool isConst = false;
    bool scalar() const { return !arr; }
    int elems(size_t from = 0) const { int n = 1; for(size_t i = from; i < dims.size(); ++i) n *= dims[i]; return n; }
};

struct Val {
    int32_t i = 0;   // int value or object index for addresses
    float f = 0;
    int32_t off = 0; // address offset (words)
};

enum Op {
    E_INT, E_FLT, E_VAR, E_INDEX, E_CALL, E_ADD, E_SUB, E_MUL, E_DIV, E_REM, E_LT, E_LE, E_GT, E_GE, E_EQ, E_NE, E_AND, E_OR,
    E_BAND, E_BOR, E_XOR, E_SHL, E_SHR, E_NEG, E_POS, E_NOT, E_BNOT, E_ASSIGN, E_CASSIGN, E_PREINC, E_PREDEC, E_POSTINC,
    E_POSTDEC, E_COND, E_COMMA, E_I2F, E_F2I, E_STR,
    S_EXPR, S_BLOCK, S_IF, S_WHILE, S_DO, S_FOR, S_BREAK, S_CONTINUE, S_RETURN, S_DECL, S_EMPTY
};

struct Func;
struct Var {
    std::string name;
    Type ty;
    bool global = false;
    int slot = -1;
    struct Init* init = nullptr;
    bool hasInit = false;
};
struct Node {
    Op op;
    Type ty;
    int32_t ival = 0;
    float fval = 0;
    Var* var = nullptr;
    Func* fn = nullptr;
    Op sub = E_ADD;
    std::vector<Node*> k;
    std::vector<Var*> vars;
    int line = 0;
};
struct Init { Node* e = nullptr; std::vector<Init*> list; bool isList = false; };
struct Func {
    std::string name;
    Base ret = INT;
    std::vector<Var*> params;
    Node* body = nullptr;
    int nslots = 0;
    int builtin = -1;
};

enum { B_GETINT, B_GETCH, B_GETFLOAT, B_GETARRAY, B_GETFARRAY, B_PUTINT, B_PUTCH, B_PUTFLOAT, B_PUTARRAY, B_PUTFARRAY, B_START, B_STOP };

struct Event {
    char k;          // i c f (putint putch putfloat) a A (putarray n / farray n), s/S start/stop
    uint32_t v;
    bool operator==(const Event& o) const { return k == o.k && v == o.v; }
    bool operator!=(const Event& o) const { return !(*this == o); }
};
inline uint32_t f2u(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float u2f(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }

struct Tok { int k; std::string s; int32_t i = 0; float f = 0; int line = 1; };  // k: 0 eof 1 id 2 int 3 float 4 punct

struct Program {
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<std::unique_ptr<Var>> varsPool;
    std::vector<std::unique_ptr<Init>> inits;
    std::vector<std::unique_ptr<Func>> funcs;
    std::map<std::string, Func*> fmap;
    std::vector<Var*> globals;
    std::vector<Tok> toks;
    size_t p = 0;
    std::vector<std::map<std::string, Var*>> scopes;
    Func* cur = nullptr;
    int localDepth = 0;

    // ---------- lexer ----------
    void lex(const std::string& s) {
        size_t i = 0, n = s.size();
        int line = 1;
        auto push = [&](Tok t) { t.line = line; toks.push_back(std::move(t)); };
        while(i < n) {
            char c = s[i];
            if(c == '\n') { ++line; ++i; continue; }
            if(c == ' ' || c == '\t' || c == '\r') { ++i; continue; }
            if(c == '/' && i + 1 < n && s[i + 1] == '/') { while(i < n && s[i] != '\n') ++i; continue; }
            if(c == '/' && i + 1 < n && s[i + 1] == '*') {
                i += 2;
                while(i + 1 < n && !(s[i] == '*' && s[i + 1] == '/')) { if(s[i] == '\n') ++line; ++i; }
                if(i + 1 >= n) throw SyntaxError("comment");
                i += 2; continue;
            }
            if(isalpha((unsigned char)c) || c == '_') {
                size_t j = i; while(j < n && (isalnum((unsigned char)s[j]) || s[j] == '_')) ++j;
                push({1, s.substr(i, j - i)}); i = j; continue;
            }
            if(isdigit((unsigned char)c) || (c == '.' && i + 1 < n && isdigit((unsigned char)s[i + 1]))) {
                size_t j = i; bool flt = false;
                if(c == '0' && i + 1 < n && (s[i + 1] == 'x' || s[i + 1] == 'X')) {
                    j = i + 2;
                    while(j < n && (isxdigit((unsigned char)s[j]) || s[j] == '.' || s[j] == 'p' || s[j] == 'P' || ((s[j] == '+' || s[j] == '-') && (s[j - 1] == 'p' || s[j - 1] == 'P')))) { if(s[j] == '.' || s[j] == 'p' || s[j] == 'P') flt = true; ++j; }
                } else {
                    while(j < n && (isdigit((unsigned char)s[j]) || s[j] == '.' || s[j] == 'e' || s[j] == 'E' || ((s[j] == '+' || s[j] == '-') && (s[j - 1] == 'e' || s[j - 1] == 'E')))) { if(s[j] == '.' || s[j] == 'e' || s[j] == 'E') flt = true; ++j; }
                }
                std::string t = s.substr(i, j - i);
                if(flt) {
                    Tok k{3, t}; k.f = strtof(t.c_str(), nullptr);
                    if(j < n && (s[j] == 'f' || s[j] == 'F')) ++j;
                    push(k);
                } else {
                    unsigned long long v = strtoull(t.c_str(), nullptr, 0);
                    // SysY: 2147483648 only as operand of unary minus; hex constants wrap
                    Tok k{2, t}; k.i = (int32_t)(uint32_t)v; push(k);
                }
                i = j; continue;
            }
            if(c == '"') { size_t j = i + 1; while(j < n && s[j] != '"') ++j; push({5, s.substr(i + 1, j - i - 1)}); i = j + 1; continue; }
            static const char* P3[] = {"<<=", ">>="};
            static const char* P2[] = {"&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "++", "--"};
            bool ok = false;
            for(auto q : P3) if(!s.compare(i, 3, q)) { push({4, q}); i += 3; ok = true; break; }
            if(ok) continue;
            for(auto q : P2) if(!s.compare(i, 2, q)) { push({4, q}); i += 2; ok = true; break; }
            if(ok) continue;
            if(strchr("+-*/%<>=!&|^~?:;,()[]{}.", c)) { push({4, std::string(1, c)}); ++i; continue; }
            throw SyntaxError("bad char");
        }
        push({0, ""});
    }
    bool is(const char* s) const { return (toks[p].k == 4 || toks[p].k == 1) && toks[p].s == s; }
    bool eat(const char* s) { if(is(s)) { ++p; return true; } return false; }
    void need(const char* s) { if(!eat(s)) throw SyntaxError("line " + std::to_string(toks[p].line) + ": expected " + s + " got '" + toks[p].s + "'"); }
    Node* mk(Op op, std::vector<Node*> k = {}, Base b = INT) {
        nodes.push_back(std::make_unique<Node>());
        auto n = nodes.back().get(); n->op = op; n->k = std::move(k); n->ty.base = b; n->line = toks.empty() ? 0 : toks[p].line; return n;
    }
    Node* conv(Node* n, Base b) {
        if(n->ty.arr) throw SyntaxError("array used as a value");
        if(n->ty.base == VOID) throw SyntaxError("void value used");
        if(n->ty.base == b) return n;
        return mk(b == FLOAT ? E_I2F : E_F2I, {n}, b);
    }
    Var* find(const std::string& s) {
        for(size_t i = scopes.size(); i-- > 0;) { auto it = scopes[i].find(s); if(it != scopes[i].end()) return it->second; }
        return nullptr;
    }
    // ---------- expressions ----------
    Node* primary() {
        auto& t = toks[p];
        if(t.k == 2) { auto n = mk(E_INT); n->ival = t.i; ++p; return n; }
        if(t.k == 3) { auto n = mk(E_FLT, {}, FLOAT); n->fval = t.f; ++p; return n; }
        if(t.k == 5) { auto n = mk(E_STR); ++p; return n; }
        if(t.k == 4 && t.s == "(") { ++p; auto n = commaExpr(); need(")"); return n; }
        if(t.k == 1) {
            std::string name = t.s; ++p;
            if(is("(")) {
                ++p; std::vector<Node*> args;
                if(!is(")")) { do args.push_back(assignExpr()); while(eat(",")); }
                need(")");
                auto it = fmap.find(name);
                if(it == fmap.end()) throw SyntaxError("undefined function " + name);
                auto f = it->second;
                auto n = mk(E_CALL, {}, f->ret); n->fn = f;
                if(args.size() != f->params.size()) throw SyntaxError("arg count");
                for(size_t i = 0; i < args.size(); ++i) {
                    auto pt = f->params[i]->ty;
                    if(pt.arr) { if(!args[i]->ty.arr || args[i]->ty.base != pt.base) throw SyntaxError("array arg"); n->k.push_back(args[i]); }
                    else n->k.push_back(conv(args[i], pt.base));
                }
                return n;
            }
            auto v = find(name);
            if(!v) throw SyntaxError("undefined variable " + name);
            auto n = mk(E_VAR); n->var = v; n->ty = v->ty; return n;
        }
        throw SyntaxError("line " + std::to_string(t.line) + ": unexpected '" + t.s + "'");
    }
    Node* postfix() {
        auto n = primary();
        for(;;) {
            if(is("[")) {
                ++p; auto i = conv(commaExpr(), INT); need("]");
                if(!n->ty.arr) throw SyntaxError("index non-array");
                auto m = mk(E_INDEX, {n, i}); m->ty = n->ty;
                m->ty.dims.erase(m->ty.dims.begin()); m->ty.arr = !m->ty.dims.empty();
                n = m;
            } else if(is("++") || is("--")) { bool inc = is("++"); ++p; lval(n); n = mk(inc ? E_POSTINC : E_POSTDEC, {n}, n->ty.base); }
            else return n;
        }
    }
    void lval(Node* n) { if((n->op != E_VAR && n->op != E_INDEX) || n->ty.arr) throw SyntaxError("not an lvalue"); if(n->ty.isConst) throw SyntaxError("assign to const"); }
    Node* unary() {
        if(eat("+")) { auto e = unary(); return mk(E_POS, {conv(e, e->ty.base)}, e->ty.base); }
        if(eat("-")) { auto e = unary(); return mk(E_NEG, {conv(e, e->ty.base)}, e->ty.base); }
        if(eat("!")) { auto e = unary(); return mk(E_NOT, {conv(e, e->ty.base)}, INT); }
        if(eat("~")) { auto e = unary(); return mk(E_BNOT, {conv(e, INT)}, INT); }
        if(is("++") || is("--")) { bool inc = is("++"); ++p; auto e = unary(); lval(e); return mk(inc ? E_PREINC : E_PREDEC, {e}, e->ty.base); }
        if(is("(") && (toks[p + 1].s == "int" || toks[p + 1].s == "float") && toks[p + 2].s == ")") {
            Base b = toks[p + 1].s == "int" ? INT : FLOAT; p += 3; return conv(unary(), b);
        }
        return postfix();
    }
    Node* bin(Op op, Node* a, Node* b) {
        switch(op) {
            case E_AND: case E_OR: return mk(op, {conv(a, a->ty.base), conv(b, b->ty.base)}, INT);
            case E_BAND: case E_BOR: case E_XOR: case E_SHL: case E_SHR: case E_REM: 
                if(a->ty.base != INT || b->ty.base != INT) throw SyntaxError("int operator on float");
                return mk(op, {conv(a, INT), conv(b, INT)}, INT);
            default: break;
        }
        Base c = (a->ty.base == FLOAT || b->ty.base == FLOAT) ? FLOAT : INT;
        bool cmp = op == E_LT || op == E_LE || op == E_GT || op == E_GE || op == E_EQ || op == E_NE;
        auto n = mk(op, {conv(a, c), conv(b, c)}, cmp ? INT : c);
        n->sub = c == FLOAT ? E_FLT : E_INT;
        return n;
    }
    Node* binary(int minp) {
        static const std::unordered_map<std::string, std::pair<int, Op>> T = {
            {"||", {1, E_OR}}, {"&&", {2, E_AND}}, {"|", {3, E_BOR}}, {"^", {4, E_XOR}}, {"&", {5, E_BAND}}, {"==", {6, E_EQ}}, {"!=", {6, E_NE}},
            {"<", {7, E_LT}}, {"<=", {7, E_LE}}, {">", {7, E_GT}}, {">=", {7, E_GE}}, {"<<", {8, E_SHL}}, {">>", {8, E_SHR}},
            {"+", {9, E_ADD}}, {"-", {9, E_SUB}}, {"*", {10, E_MUL}}, {"/", {10, E_DIV}}, {"%", {10, E_REM}}};
        auto a = unary();
        for(;;) {
            if(toks[p].k != 4) return a;
            auto it = T.find(toks[p].s);
            if(it == T.end() || it->second.first < minp) return a;
            ++p;
            auto b = binary(it->second.first + 1);
            a = bin(it->second.second, a, b);
        }
    }
    Node* assignExpr() {
        auto a = binary(1);
        if(is("?")) {
            ++p; auto x = assignExpr(); need(":"); auto y = assignExpr();
            Base b = (x->ty.base == FLOAT || y->ty.base == FLOAT) ? FLOAT : INT;
            return mk(E_COND, {conv(a, a->ty.base), conv(x, b), conv(y, b)}, b);
        }
        if(is("=")) { ++p; lval(a); auto b = assignExpr(); return mk(E_ASSIGN, {a, conv(b, a->ty.base)}, a->ty.base); }
        static const std::unordered_map<std::string, Op> C = {{"+=", E_ADD}, {"-=", E_SUB}, {"*=", E_MUL}, {"/=", E_DIV}, {"%=", E_REM},
                                                              {"&=", E_BAND}, {"|=", E_BOR}, {"^=", E_XOR}, {"<<=", E_SHL}, {">>=", E_SHR}};
        if(toks[p].k == 4) {
            auto it = C.find(toks[p].s);
            if(it != C.end()) {
                ++p; lval(a); auto b = assignExpr();
                // a op= b evaluates as a = a op b; the left side must be side-effect free here
                auto r = bin(it->second, a, b);
                return mk(E_ASSIGN, {a, conv(r, a->ty.base)}, a->ty.base);
            }
        }
        return a;
    }
    Node* commaExpr() {
        auto a = assignExpr();
        while(is(",")) { ++p; auto b = assignExpr(); a = mk(E_COMMA, {a, b}, b->ty.base); a->ty = b->ty; }
        return a;
    }
    // ---------- declarations ----------
    bool isType() const { return toks[p].k == 1 && (toks[p].s == "int" || toks[p].s == "float" || toks[p].s == "void" || toks[p].s == "const"); }
    Base baseType() {
        if(eat("int")) return INT;
        if(eat("float")) return FLOAT;
        if(eat("void")) return VOID;
        throw SyntaxError("type expected");
    }
    Init* parseInit() {
        inits.push_back(std::make_unique<Init>()); auto in = inits.back().get();
        if(eat("{")) {
            in->isList = true;
            if(!is("}")) { do in->list.push_back(parseInit()); while(eat(",")); }
            need("}");
        } else in->e = assignExpr();
        return in;
    }
    int constInt(Node* n) {
        Machine m(*this);
        try { return m.evalConst(conv(n, INT)).i; } catch(Undef& u) { throw SyntaxError(std::string("constant expression: ") + u.why); }
    }
    Var* declarator(Base b, bool cst, bool global) {
        if(toks[p].k != 1) throw SyntaxError("name expected");
        varsPool.push_back(std::make_unique<Var>()); auto v = varsPool.back().get();
        v->name = toks[p++].s; v->ty.base = b; v->ty.isConst = cst; v->global = global;
        while(eat("[")) { auto e = commaExpr(); need("]"); int d = constInt(e); if(d < 0) throw SyntaxError("dim"); v->ty.dims.push_back(d); v->ty.arr = true; }
        if(eat("=")) { v->init = parseInit(); v->hasInit = true; }
        if(global) { v->slot = (int)globals.size(); globals.push_back(v); }
        else v->slot = cur->nslots++;
        if(scopes.back().count(v->name)) throw SyntaxError("redefinition of " + v->name);
        scopes.back()[v->name] = v;
        if(v->hasInit) {
            flat(v);
        }
        return v;
    }
    // flattened initialisers: (offset, expr)
    std::unordered_map<Var*, std::vector<std::pair<int, Node*>>> flatInit;
    void flat(Var* v) {
        auto& out = flatInit[v];
        if(!v->ty.arr) {
            Init* i = v->init; 
            while(i->isList) { if(i->list.size() != 1) { throw SyntaxError("scalar init list"); } i = i->list[0]; }
            out.push_back({0, conv(i->e, v->ty.base)}); return;
        }
        if(!v->init->isList) throw SyntaxError("array init");
        fill(v, v->init, 0, 0, out);
    }
    void fill(Var* v, Init* in, size_t dim, int base, std::vector<std::pair<int, Node*>>& out) {
        // in is a braced list initialising the sub-array starting at base with dims[dim..]
        int total = v->ty.elems(dim), pos = 0;
        for(auto e : in->list) {
            if(pos >= total) throw SyntaxError("excess initialisers");
            if(e->isList) {
                // the largest sub-aggregate aligned at pos, strictly smaller than the current one
                size_t d = dim + 1;
                while(d < v->ty.dims.size() && pos % v->ty.elems(d) != 0) ++d;
                if(d >= v->ty.dims.size()) {
                    // braces around a scalar
                    Init* s = e; 
                    if(s->list.empty()) { out.push_back({base + pos, nullptr}); pos++; continue; }
                    while(s->isList) { if(s->list.size() != 1) throw SyntaxError("scalar init list"); s = s->list[0]; }
                    out.push_back({base + pos, conv(s->e, v->ty.base)}); pos++;
                } else { fill(v, e, d, base + pos, out); pos += v->ty.elems(d); }
            } else { out.push_back({base + pos, conv(e->e, v->ty.base)}); pos++; }
        }
    }
    Node* declStmt() {
        bool cst = eat("const"); Base b = baseType();
        auto n = mk(S_DECL);
        do n->vars.push_back(declarator(b, cst, false)); while(eat(","));
        need(";"); return n;
    }
    Node* stmt() {
        if(is("{")) return block();
        if(isType()) return declStmt();
        if(eat(";")) return mk(S_EMPTY);
        if(eat("if")) {
            need("("); auto c = commaExpr(); c = conv(c, c->ty.base); need(")");
            auto t = scoped(); Node* e = nullptr;
            if(eat("else")) e = scoped();
            return e ? mk(S_IF, {c, t, e}) : mk(S_IF, {c, t});
        }
        if(eat("while")) { need("("); auto c = commaExpr(); c = conv(c, c->ty.base); need(")"); auto b = scoped(); return mk(S_WHILE, {c, b}); }
        if(eat("do")) { auto b = scoped(); need("while"); need("("); auto c = commaExpr(); c = conv(c, c->ty.base); need(")"); need(";"); return mk(S_DO, {b, c}); }
        if(eat("for")) {
            need("("); scopes.emplace_back();
            auto i = stmt();
            Node* c = is(";") ? nullptr : commaExpr(); need(";");
            Node* s = is(")") ? nullptr : commaExpr(); need(")");
            auto b = scoped(); scopes.pop_back();
            auto n = mk(S_FOR); n->k = {i, c, s, b}; return n;
        }
        if(eat("break")) { need(";"); return mk(S_BREAK); }
        if(eat("continue")) { need(";"); return mk(S_CONTINUE); }
        if(eat("return")) {
            if(eat(";")) return mk(S_RETURN);
            auto e = commaExpr(); need(";");
            if(cur->ret == VOID) throw SyntaxError("return value in void function");
            return mk(S_RETURN, {conv(e, cur->ret)});
        }
        auto e = commaExpr(); need(";"); return mk(S_EXPR, {e});
    }
    Node* scoped() { scopes.emplace_back(); auto n = stmt(); scopes.pop_back(); return n; }
    Node* block() {
        need("{"); scopes.emplace_back(); auto n = mk(S_BLOCK);
        while(!is("}")) { if(toks[p].k == 0) throw SyntaxError("eof"); n->k.push_back(stmt()); }
        ++p; scopes.pop_back(); return n;
    }
    void addBuiltin(const char* name, Base r, int id, std::vector<Type> ps) {
        funcs.push_back(std::make_unique<Func>()); auto f = funcs.back().get(); f->name = name; f->ret = r; f->builtin = id;
        for(auto& t : ps) { varsPool.push_back(std::make_unique<Var>()); varsPool.back()->ty = t; f->params.push_back(varsPool.back().get()); }
        fmap[name] = f;
    }
    explicit Program(const std::string& src) {
        Type I, F, AI, AF; F.base = FLOAT; AI.arr = true; AI.dims = {-1}; AF = AI; AF.base = FLOAT;
        addBuiltin("getint", INT, B_GETINT, {}); addBuiltin("getch", INT, B_GETCH, {}); addBuiltin("getfloat", FLOAT, B_GETFLOAT, {});
        addBuiltin("getarray", INT, B_GETARRAY, {AI}); addBuiltin("getfarray", INT, B_GETFARRAY, {AF});
        addBuiltin("putint", VOID, B_PUTINT, {I}); addBuiltin("putch", VOID, B_PUTCH, {I}); addBuiltin("putfloat", VOID, B_PUTFLOAT, {F});
        addBuiltin("putarray", VOID, B_PUTARRAY, {I, AI}); addBuiltin("putfarray", VOID, B_PUTFARRAY, {I, AF});
        addBuiltin("starttime", VOID, B_START, {}); addBuiltin("stoptime", VOID, B_STOP, {});
        scopes.emplace_back();
        lex(src);
        while(toks[p].k != 0) {
            bool cst = eat("const"); Base b = baseType();
            if(toks[p].k == 1 && toks[p + 1].k == 4 && toks[p + 1].s == "(") {
                std::string nm = toks[p].s; p += 2;
                funcs.push_back(std::make_unique<Func>()); cur = funcs.back().get(); cur->name = nm; cur->ret = b;
                scopes.emplace_back();
                if(!is(")")) do {
                    bool pc = eat("const"); Base pb = baseType();
                    varsPool.push_back(std::make_unique<Var>()); auto v = varsPool.back().get();
                    v->name = toks[p++].s; v->ty.base = pb; v->ty.isConst = pc;
                    if(eat("[")) {
                        v->ty.arr = true;
                        if(!is("]")) commaExpr();
                        need("]"); v->ty.dims.push_back(-1);
                        while(eat("[")) { auto e = commaExpr(); need("]"); v->ty.dims.push_back(constInt(e)); }
                    }
                    v->slot = cur->nslots++; cur->params.push_back(v); scopes.back()[v->name] = v;
                } while(eat(","));
                need(")");
                if(is(";")) { ++p; if(!fmap.count(nm)) fmap[nm] = cur; scopes.pop_back(); cur = nullptr; continue; }
                if(fmap.count(nm) && fmap[nm]->body) throw SyntaxError("redefinition " + nm);
                if(fmap.count(nm) && !fmap[nm]->body && fmap[nm]->builtin < 0) {
                    auto d = fmap[nm]; d->params = cur->params; d->nslots = cur->nslots; d->ret = cur->ret; cur = d;
                } else fmap[nm] = cur;
                need("{");
                auto n = mk(S_BLOCK);
                while(!is("}")) { if(toks[p].k == 0) throw SyntaxError("eof"); n->k.push_back(stmt()); }
                ++p; scopes.pop_back(); cur->body = n; cur = nullptr;
            } else {
                do declarator(b, cst, true); while(eat(","));
                need(";");
            }
        }
    }

    // ---------- evaluator ----------
    struct Obj { uint32_t base; int32_t size; bool flt; };
    struct Frame { std::vector<Val> v; std::vector<uint8_t> init; };
    struct Machine {
        Program& P;
        std::vector<Obj> objs;
        std::vector<uint32_t> mem;
        std::vector<uint8_t> minit;
        std::vector<int> gobj;
        std::vector<Event> trace;
        std::vector<uint32_t> input; size_t ip = 0;
        uint64_t steps = 0, limit = 2000000;
        int depth = 0, maxDepth = 3000;
        explicit Machine(Program& pr) : P(pr) {}
        int alloc(int n, bool init, bool flt) {
            if(mem.size() + (size_t)n > 40000000) throw Undef{"memory"};
            objs.push_back({(uint32_t)mem.size(), n, flt}); mem.resize(mem.size() + (size_t)n, 0); minit.resize(mem.size(), init ? 1 : 0);
            return (int)objs.size() - 1;
        }
        size_t at(int o, int64_t off) {
            auto& b = objs[(size_t)o];
            if(off < 0 || off >= b.size) throw Undef{"out of bounds"};
            return b.base + (size_t)off;
        }
        Frame* fr = nullptr;
        void initGlobals() {
            for(auto g : P.globals) {
                int o = alloc(g->ty.arr ? g->ty.elems() : 1, true, g->ty.base == FLOAT); gobj.push_back(o);
                auto it = P.flatInit.find(g);
                if(it != P.flatInit.end()) for(auto& [off, e] : it->second) if(e) { auto v = ev(e); mem[at(o, off)] = g->ty.base == FLOAT ? f2u(v.f) : (uint32_t)v.i; }
            }
        }
        Val evalConst(Node* n) {
            if(!P.globals.empty() && gobj.empty()) initGlobals();
            // local constants: evaluate by substituting their initialiser
            constMode = true; return ev(n);
        }
        bool constMode = false;
        std::unordered_map<Var*, int> constObj;
        struct Ret { };
        Val retv; bool hasRet = false;
        enum Ctl { NORMAL, BRK, CONT, RET };
        Val addr(Node* n) {  // address of lvalue / array
            if(n->op == E_VAR) {
                Val r; auto v = n->var;
                if(v->global) { r.i = gobj[(size_t)v->slot]; r.off = 0; }
                else if(constMode && !fr) {  // a constant local array inside a constant expression
                    auto it = P.flatInit.find(v);
                    if(it == P.flatInit.end() || !v->ty.isConst) throw SyntaxError("not constant");
                    auto& ob = constObj[v];
                    if(!ob) {
                        ob = alloc(v->ty.elems(), true, v->ty.base == FLOAT) + 1;
                        for(auto& [off, e] : it->second) if(e) { auto x = ev(e); mem[at(ob - 1, off)] = v->ty.base == FLOAT ? f2u(x.f) : (uint32_t)x.i; }
                    }
                    r.i = ob - 1; r.off = 0;
                } else { r = fr->v[(size_t)v->slot]; if(!fr->init[(size_t)v->slot]) throw Undef{"uninit array"}; }
                return r;
            }
            if(n->op == E_INDEX) {
                Val b = addr(n->k[0]); int64_t i = ev(n->k[1]).i;
                int d = n->k[0]->ty.dims[0];
                if(d >= 0 && (i < 0 || i >= d)) throw Undef{"index"};
                int64_t o = b.off + i * n->k[0]->ty.elems(1);
                if(n->ty.arr ? (o < 0 || o > objs[(size_t)b.i].size) : (o < 0 || o >= objs[(size_t)b.i].size)) throw Undef{"out of bounds"};
                b.off = (int32_t)o; return b;
            }
            throw Undef{"address"};
        }
        bool truth(Node* n) { Val v = ev(n); return n->ty.base == FLOAT ? v.f != 0.0f : v.i != 0; }
        Val load(Node* n) {
            Val r;
            if(n->op == E_VAR && !n->var->global) {
                auto s = (size_t)n->var->slot;
                if(constMode && !fr) { auto it = P.flatInit.find(n->var); if(it == P.flatInit.end() || !n->var->ty.isConst) throw SyntaxError("not constant"); return ev(it->second[0].second); }
                if(!fr->init[s]) throw Undef{"uninitialised variable"};
                return fr->v[s];
            }
            Val a = addr(n); size_t x = at(a.i, a.off);
            if(!minit[x]) throw Undef{"uninitialised element"};
            if(n->ty.base == FLOAT) r.f = u2f(mem[x]); else r.i = (int32_t)mem[x];
            return r;
        }
        void store(Node* n, Val v) {
            if(n->op == E_VAR && !n->var->global) { auto s = (size_t)n->var->slot; fr->v[s] = v; fr->init[s] = 1; return; }
            Val a = addr(n); size_t x = at(a.i, a.off); mem[x] = n->ty.base == FLOAT ? f2u(v.f) : (uint32_t)v.i; minit[x] = 1;
        }
        static int32_t chk(int64_t v) { if(v < INT32_MIN || v > INT32_MAX) throw Undef{"signed overflow"}; return (int32_t)v; }
        void tick() { if(++steps > limit) throw Undef{"step limit"}; }
        Val ev(Node* n) {
            tick();
            Val r;
            switch(n->op) {
                case E_INT: r.i = n->ival; return r;
                case E_FLT: r.f = n->fval; return r;
                case E_VAR: case E_INDEX: if(n->ty.arr) return addr(n); return load(n);
                case E_I2F: r.f = (float)ev(n->k[0]).i; return r;
                case E_F2I: { float f = ev(n->k[0]).f; if(!(f > -2147483904.0f && f < 2147483648.0f)) throw Undef{"float to int"}; r.i = (int32_t)f; return r; }
                case E_ADD: case E_SUB: case E_MUL: case E_DIV: case E_REM: {
                    Val a = ev(n->k[0]), b = ev(n->k[1]);
                    if(n->sub == E_FLT) {
                        switch(n->op) { case E_ADD: r.f = a.f + b.f; break; case E_SUB: r.f = a.f - b.f; break; case E_MUL: r.f = a.f * b.f; break; default: r.f = a.f / b.f; }
                        // the language gives no meaning to non-finite results
                        if(!(r.f - r.f == 0)) throw Undef{"non-finite result"};
                        return r;
                    }
                    switch(n->op) {
                        case E_ADD: r.i = chk((int64_t)a.i + b.i); break;
                        case E_SUB: r.i = chk((int64_t)a.i - b.i); break;
                        case E_MUL: r.i = chk((int64_t)a.i * b.i); break;
                        default:
                            if(b.i == 0) throw Undef{"division by zero"};
                            if(a.i == INT32_MIN && b.i == -1) throw Undef{"division overflow"};
                            r.i = n->op == E_DIV ? a.i / b.i : a.i % b.i;
                    }
                    return r;
                }
                case E_LT: case E_LE: case E_GT: case E_GE: case E_EQ: case E_NE: {
                    Val a = ev(n->k[0]), b = ev(n->k[1]);
                    bool x;
                    if(n->sub == E_FLT) switch(n->op) { case E_LT: x = a.f < b.f; break; case E_LE: x = a.f <= b.f; break; case E_GT: x = a.f > b.f; break; case E_GE: x = a.f >= b.f; break; case E_EQ: x = a.f == b.f; break; default: x = a.f != b.f; }
                    else switch(n->op) { case E_LT: x = a.i < b.i; break; case E_LE: x = a.i <= b.i; break; case E_GT: x = a.i > b.i; break; case E_GE: x = a.i >= b.i; break; case E_EQ: x = a.i == b.i; break; default: x = a.i != b.i; }
                    r.i = x; return r;
                }
                case E_AND: r.i = truth(n->k[0]) && truth(n->k[1]); return r;
                case E_OR: r.i = truth(n->k[0]) || truth(n->k[1]); return r;
                case E_BAND: { auto a = ev(n->k[0]).i; r.i = a & ev(n->k[1]).i; return r; }
                case E_BOR: { auto a = ev(n->k[0]).i; r.i = a | ev(n->k[1]).i; return r; }
                case E_XOR: { auto a = ev(n->k[0]).i; r.i = a ^ ev(n->k[1]).i; return r; }
                case E_SHL: { int64_t a = ev(n->k[0]).i; int b = ev(n->k[1]).i; if(b < 0 || b > 31 || a < 0) throw Undef{"shift"}; r.i = chk(a << b); return r; }
                case E_SHR: { int32_t a = ev(n->k[0]).i; int b = ev(n->k[1]).i; if(b < 0 || b > 31) throw Undef{"shift"}; r.i = a >> b; return r; }
                case E_POS: return ev(n->k[0]);
                case E_NEG: { Val a = ev(n->k[0]); if(n->ty.base == FLOAT) r.f = -a.f; else { if(n->k[0]->op == E_INT && a.i == INT32_MIN) r.i = a.i; else r.i = chk(-(int64_t)a.i); } return r; }
                case E_NOT: r.i = !truth(n->k[0]); return r;
                case E_BNOT: r.i = ~ev(n->k[0]).i; return r;
                case E_ASSIGN: { Val v = ev(n->k[1]); store(n->k[0], v); return v; }
                case E_PREINC: case E_PREDEC: case E_POSTINC: case E_POSTDEC: {
                    Val o = load(n->k[0]), nv = o; bool inc = n->op == E_PREINC || n->op == E_POSTINC;
                    if(n->ty.base == FLOAT) nv.f = o.f + (inc ? 1.0f : -1.0f); else nv.i = chk((int64_t)o.i + (inc ? 1 : -1));
                    store(n->k[0], nv); return (n->op == E_PREINC || n->op == E_PREDEC) ? nv : o;
                }
                case E_COND: return truth(n->k[0]) ? ev(n->k[1]) : ev(n->k[2]);
                case E_COMMA: ev(n->k[0]); return ev(n->k[1]);
                case E_CALL: {
                    std::vector<Val> a; a.reserve(n->k.size());
                    for(auto k : n->k) a.push_back(ev(k));
                    return call(n->fn, a);
                }
                default: throw Undef{"internal"};
            }
        }
        uint32_t in() { if(ip >= input.size()) throw Undef{"no input"}; return input[ip++]; }
        Val call(Func* f, std::vector<Val>& a) {
            Val r;
            switch(f->builtin) {
                case -1: break;
                case B_GETINT: case B_GETCH: r.i = (int32_t)in(); return r;
                case B_GETFLOAT: r.f = u2f(in()); return r;
                case B_GETARRAY: case B_GETFARRAY: { int n = (int32_t)in(); for(int i = 0; i < n; ++i) { auto v = in(); size_t x = at(a[0].i, (int64_t)a[0].off + i); mem[x] = v; minit[x] = 1; } r.i = n; return r; }
                case B_PUTINT: trace.push_back({'i', (uint32_t)a[0].i}); return r;
                case B_PUTCH: trace.push_back({'c', (uint32_t)a[0].i & 0xff}); return r;
                case B_PUTFLOAT: trace.push_back({'f', f2u(a[0].f)}); return r;
                case B_PUTARRAY: case B_PUTFARRAY: {
                    trace.push_back({f->builtin == B_PUTARRAY ? 'a' : 'A', (uint32_t)a[0].i});
                    for(int i = 0; i < a[0].i; ++i) { size_t x = at(a[1].i, (int64_t)a[1].off + i); if(!minit[x]) throw Undef{"uninit"}; trace.push_back({f->builtin == B_PUTARRAY ? 'e' : 'E', mem[x]}); }
                    return r;
                }
                case B_START: trace.push_back({'s', 0}); return r;
                case B_STOP: trace.push_back({'S', 0}); return r;
            }
            if(!f->body) throw Undef{"undefined function"};
            if(++depth > maxDepth) throw Undef{"recursion depth"};
            Frame nf; nf.v.resize((size_t)f->nslots); nf.init.resize((size_t)f->nslots, 0);
            for(size_t i = 0; i < a.size(); ++i) { nf.v[i] = a[i]; nf.init[i] = 1; }
            size_t so = objs.size(), sm = mem.size();
            auto old = fr; fr = &nf; hasRet = false;
            ex(f->body);
            bool hr = hasRet; r = retv; hasRet = false;
            fr = old; --depth;
            objs.resize(so); mem.resize(sm); minit.resize(sm);
            if(f->ret != VOID && !hr) { if(f->name == "main") r = Val{}; else throw Undef{"missing return"}; }
            return r;
        }
        Ctl ex(Node* n) {
            tick();
            switch(n->op) {
                case S_EXPR: ev(n->k[0]); return NORMAL;
                case S_EMPTY: return NORMAL;
                case S_BLOCK: for(auto k : n->k) { auto c = ex(k); if(c != NORMAL) return c; } return NORMAL;
                case S_IF: if(truth(n->k[0])) return ex(n->k[1]); if(n->k.size() > 2) return ex(n->k[2]); return NORMAL;
                case S_WHILE: while(truth(n->k[0])) { auto c = ex(n->k[1]); if(c == BRK) break; if(c == RET) return c; } return NORMAL;
                case S_DO: do { auto c = ex(n->k[0]); if(c == BRK) break; if(c == RET) return c; } while(truth(n->k[1])); return NORMAL;
                case S_FOR: for(ex(n->k[0]); !n->k[1] || truth(n->k[1]); n->k[2] ? (void)ev(n->k[2]) : (void)0) { auto c = ex(n->k[3]); if(c == BRK) break; if(c == RET) return c; } return NORMAL;
                case S_BREAK: return BRK;
                case S_CONTINUE: return CONT;
                case S_RETURN: hasRet = false; if(!n->k.empty()) { Val v = ev(n->k[0]); retv = v; hasRet = true; } return RET;
                case S_DECL:
                    for(auto v : n->vars) {
                        auto s = (size_t)v->slot;
                        if(v->ty.arr) {
                            int o = alloc(v->ty.elems(), v->hasInit, v->ty.base == FLOAT); Val r; r.i = o; fr->v[s] = r; fr->init[s] = 1;
                            if(v->hasInit) { auto b = objs[(size_t)o].base; for(auto& [off, e] : P.flatInit[v]) if(e) { auto x = ev(e); mem[b + (size_t)off] = v->ty.base == FLOAT ? f2u(x.f) : (uint32_t)x.i; } }
                        } else if(v->hasInit) { fr->v[s] = ev(P.flatInit[v][0].second); fr->init[s] = 1; }
                        else fr->init[s] = 0;
                    }
                    return NORMAL;
                default: ev(n); return NORMAL;
            }
        }
    };
};

}  // namespace ref
