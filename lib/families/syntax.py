"""Lexing, operator precedence and associativity, statement syntax, scoping."""
import itertools
from harness import Unit, I, F, A, FA
from .control import Packer

BIN = ["*", "/", "%", "+", "-", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
UN = ["", "-", "!", "+", "-!", "!-", "- -", "!!"]


def precedence(quick=True):
    """a op1 b op2 c (op3 d) without parentheses, unary prefixes on every operand"""
    p = Packer("prec", k=24)
    k = 0
    for o1, o2 in itertools.product(BIN, BIN):
        for j, (u1, u2, u3) in enumerate(itertools.product(UN[:4], UN[:4], UN[:4])):
            if quick and (j + k) % 16 and j:
                continue
            k += 1
            yield from p.add("int prec%d(int a,int b,int c){return %s a%s %s b%s %s c;}" % (k, u1, o1, u2, o2, u3), "prec%d" % k, I(-7, 0, 5), I(-2, 1, 3), I(-3, 2, 0))
    for o1, o2, o3 in itertools.product(BIN, BIN, BIN):
        k += 1
        if quick and k % 4:
            continue
        u = UN[k % 8]
        yield from p.add("int prec%d(int a,int b,int c,int d){return a%sb%s %s c%sd;}" % (k, o1, o2, u, o3), "prec%d" % k, I(-7, 5), I(-2, 3), I(2, 1), I(-3, 4))
    # parentheses anywhere
    for o1, o2, o3 in itertools.product(BIN[:8], BIN[3:10], BIN[2:9:2]):
        k += 1
        f = ["(a%sb)%s(c%sd)", "a%s(b%sc)%sd", "((a))%s(b%s(c%sd))", "a%s(b%sc%sd)", "(a%sb%sc)%sd"][k % 5]
        yield from p.add("int prec%d(int a,int b,int c,int d){return %s;}" % (k, f % (o1, o2, o3)), "prec%d" % k, I(-7, 5), I(-2, 3), I(2, 1), I(-3, 4))
    # conditions: the same without parentheses in if/while
    for o1, o2, o3 in itertools.product(["<", "==", "&&", "||", "+"], ["&&", "||", "!=", ">"], ["<=", "&&", "||", "-"]):
        k += 1
        f = ["if(a%sb%sc%sd)return 1;return 0;", "int r=0;while(a%sb%sc%sd){r=r+1;a=a+3;if(r>4)return -1;}return r;", "if(!(a%sb)%s!c%sd)return 5;else return 6;"][k % 3]
        yield from p.add("int prec%d(int a,int b,int c,int d){%s}" % (k, f % (o1, o2, o3)), "prec%d" % k, I(-1, 0, 4), I(0, 3), I(0, 2), I(-1, 0, 1))
    yield from p.flush()


LIT = ["0", "1", "9", "10", "2147483647", "0x0", "0xa", "0XF", "0xAbC", "0x7fffffff", "00", "01", "07", "010", "017", "0777", "017777777777", "123456789", "0x10", "1000000000"]
FLIT = ["1.0", "0.5", "1.25", ".5", "1.", "1e3", "1E3", "1e+3", "1e-3", "1.5e2", "1.5E-2", ".5e1", "0.0", "0x1p3", "0x1.8p1", "0x1.8P-1", "0xA.8p0", "1e10", "123456789.0", "0.1", "3.14159265358979", "1e-10", "0x.8p1", "0x1p+4", "00.5", "09.5", "1.e2"]


def literals():
    p = Packer("lit", k=8)
    k = 0
    for v in LIT:
        k += 1
        yield from p.add("const int lc%d=%s;int lg%d=-%s;int lit%d(int x){if(x==%s)return 1;if(x>0)return lc%d/2;return lg%d/2+%s;}" % (k, v, k, v, k, v, k, k, v), "lit%d" % k, I(0, 1, 8, 10, 2147483647))
    for v in FLIT:
        k += 1
        yield from p.add("const float lc%d=%s;float lg%d=-%s;float lit%d(float x){if(x==%s)return 100;if(x>0)return lc%d;return lg%d+x;}" % (k, v, k, v, k, v, k, k), "lit%d" % k, F(0, 1, 0.5, 1000, -2))
    # token adjacency
    for s in ["a- -b", "a-(-b)", "a+-b", "a-+b", "a*-b", "a/-b", "a%-b", "a<-b", "a==-b", "a!=!b", "a&&!b", "a||-b", "- -a", "!-a", "-a-b", "+a", "a<=-b", "a>=+b", "(a)-(b)", "(a)(b)" if 0 else "((a))", "a\n+\tb", "a/*x*/-/*y*/b", "a//z\n*b", "a/**/+b", "a/***/+b", "a/* * / */+b", "a/*//*/+b", "a///*\n+b", "a/ /*k*/b", "a %b", "a\r\n-b"]:
        k += 1
        yield from p.add("int lit%d(int a,int b){return %s;}" % (k, s), "lit%d" % k, I(-7, 0, 9), I(-2, 3))
    # identifiers
    for n in ["_", "__", "_a", "a1", "A", "aA", "a_b", "int1", "iff", "returnx", "whilee", "If", "x0x", "_0", "e1", "f", "main1", "constx", "breaking", "voidd", "float_", "l", "O0", "reg", "add", "sp", "r0", "a0", "ra", "zero", "label1", "b1", "entry", "data", "text", "memset", "s0", "x1", "f1", "t0", "v0", "fp", "lr", "pc", "ip", "printf", "malloc", "exit", "abs", "loop", "func", "global", "word", "t1", "at", "gp", "hi", "lo"]:
        k += 1
        yield from p.add("int %s_%d=4;int lit%d(int %s){int q=%s+%s_%d;{int %s=q*2;q=q+%s;}return q+%s;}" % (n, k, k, n, n, n, k, n, n, n), "lit%d" % k, I(3))
    yield from p.flush()


SYMS = ["add", "sp", "r0", "a0", "ra", "zero", "label1", "b1", "entry", "data", "text", "s0", "x1", "f1", "t0", "v0", "fp", "lr", "pc", "ip", "loop", "func", "word", "at", "gp", "hi", "lo", "nop", "la", "mov", "ldr", "str", "b", "j", "ret", "neg", "not", "mul", "div", "rem", "xor", "or", "and", "li", "lw", "sw", "call", "lsl", "asr", "eq", "ne", "f", "g", "x", "_x", "A"]


def symbols():
    """functions and globals named like registers, mnemonics and labels"""
    for n in SYMS:
        yield Unit("sym/g_%s" % n, "int %s=5;int %s_arr[3]={1,2,3};int symfg_%s(int zq){%s=%s+zq;%s_arr[zq]=%s;return %s_arr[zq]*10+%s;}" % ((n,) * 9), [("symfg_%s" % n, [I(0, 2)])], opts=("LIMIT 1000",))
        yield Unit("sym/f_%s" % n, "int %s(int zq){if(zq<2)return 1;return %s(zq-1)*zq;}int symff_%s(int zq){return %s(zq)+%s(zq+1);}" % ((n,) * 5), [("symff_%s" % n, [I(0, 4)])], opts=("LIMIT 1000",))


def statements():
    """statement syntax: dangling else, empty statements, nested blocks, every pair of statement forms under every header"""
    p = Packer("stx", k=12)
    k = 0
    S = ["r=r+1;", ";", "{}", "{r=r+2;}", "{;r=r+3;;}", "if(b)r=r+4;", "if(b)r=r+5;else r=r+6;", "if(b)if(c)r=r+7;else r=r+8;", "if(b){if(c)r=r+9;}else r=r+10;", "if(b);else r=r+11;", "while(c){c=c-1;r=r+12;}", "while(c>0)if(b)c=c-1;else c=c-2;", "return r+13;", "r;", "r=r*2,r;" if 0 else "(r);", "{int r=5;r=r+1;}", "{{{r=r+14;}}}", "if(b){}else{}", "if(b)while(c>0){c=c-1;r=r+15;}else r=r+16;", "while(c>0){c=c-1;if(b)continue;r=r+17;}", "while(1){if(b)break;r=r+18;break;}", "int t=r;r=t+19;", "const int t=20;r=r+t;", "int t,u=3,v;t=u;v=t+u;r=r+v;"]
    H = ["%s", "if(a)%s", "if(a)%s else %s", "while(a){a=a-1;%s}", "if(a){%s}else if(c){%s}else %s", "{%s}%s", "while(a>0){%s a=a-1;%s}"]
    for h in H:
        n = h.count("%s")
        for t in itertools.product(S, repeat=min(n, 2)):
            if n == 3:
                t = t + (S[(k * 5) % 12],)
            # a declaration is not a statement of its own under a header; twice in one block it clashes
            if any(x.startswith(("int", "const")) for x in t) and ("%s" == h and False or "if(a)%s" in h or "else %s" in h or t[0] == t[-1] and n > 1 or sum(x.startswith(("int", "const")) for x in t) > 1):
                continue
            k += 1
            yield from p.add("int stx%d(int a,int b,int c){int r=0;%s return r*10+c;}" % (k, h % t), "stx%d" % k, I(0, 1), I(0, 1), I(0, 2))
    # else binds to the nearest if, three deep
    for e in itertools.product(["", "else r=1;", "else r=2;"], repeat=3):
        k += 1
        yield from p.add("int stx%d(int a,int b,int c){int r=9;if(a)if(b)if(c)r=0;%s%s%s return r;}" % ((k,) + e) if not ("" in e and e.index("") < 2 and any(e[e.index(""):])) else "int stx%d(int a,int b,int c){return a;}" % k, "stx%d" % k, I(0, 1), I(0, 1), I(0, 1))
    yield from p.flush()


def scopes():
    """declarations of one name at every subset of nesting levels, uses and assignments at every level"""
    p = Packer("scp", k=8)
    k = 0
    for g, pa, l0, l1, l2, loop in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1, 2)):
        if pa and l0:
            continue  # a parameter and a local of the outermost block may not share a name
        if not (g or pa or l0):
            continue
        for asg in range(4):
            k += 1
            x = "sx%d" % k
            b = "int r=%s;" % x
            if l0:
                b = "int %s=20;" % x + b if not g and not pa else "r0=r0+0;int %s=20;" % x + b
            inner = ("int %s=%s+40;" % (x, "3" if True else x) if l2 else "") + ("%s=%s+1;" % (x, x) if asg & 1 else "") + "r=r*3+%s;" % x
            mid = ("int %s=30;" % x if l1 else "") + ("%s=%s+2;" % (x, x) if asg & 2 else "") + {0: "{%s}", 1: "int i=0;while(i<2){%si=i+1;}", 2: "if(z>0){%s}else{r=r+1;}"}[loop] % inner + "r=r*5+%s;" % x
            src = "%sint scp%d(int z%s){int r0=0;%s{%s}r=r*7+%s;return r+r0;}" % ("int %s=10;" % x if g else "", k, ",int %s" % x if pa else "", b, mid, x)
            yield from p.add(src, "scp%d" % k, I(0, 1), *([I(15)] if pa else []))
    # initialisers see the outer declaration until their own is complete; functions, parameters and globals in each other's scopes
    for s in ["int $=4;int @(int x){int y=$;int $=y+x;return $;}", "const int $=4;int @(int x){const int $=7;{const int $=9;x=x+$;}return x*$;}", "int $(int a){return a*2;}int @(int x){int b=$(x);{int $=3;b=b+$;}return b+$(x);}", "int $=1;int $g(){return $;}int @(int x){int $=x;return $g()*100+$;}", "int $[2]={1,2};int @(int x){int $[3]={5,6,7};return $[x];}", "int $=1;int @(int x){while(x>0){int $=x;x=x-1;if($==2){int $=50;x=x-$;}}return x+$;}", "int @(int x){int i=0;int s=0;while(i<3){int t=i*x;s=s+t;i=i+1;}{int t=100;s=s+t;}return s;}", "int $(int $a){int $b=$a;{int $a=5;$b=$b+$a;}return $b+$a;}int @(int x){return $(x);}", "float $=1.5;int @(int x){int $=x;{float $=2.5;x=$*2;}return x*10+$;}", "int $=3;int $2(int $){$=$+1;return $;}int @(int x){return $2(x)*10+$;}",
              "int @(int x){int a=x;{int b=a+1;{int a=b*2;b=a+b;x=b;}a=a+b;}return a*100+x;}", "int @(int x){if(x){int y=1;x=x+y;}else{int y=2;x=x-y;}return x;}", "int $a=1,$b=2,$c[2]={3,4},$d;int @(int x){int $b=$a,$a=$b+1;return $a*1000+$b*100+$c[1]*10+$d+x;}"]:
        k += 1
        yield from p.add(s.replace("@", "scp%d" % k).replace("$", "sy%d" % k), "scp%d" % k, I(0, 1, 2))
    yield from p.flush()


def extended():
    """the C-like extensions the front end accepts: for, do, compound assignment, increments, conditional, comma, shifts and bit operators"""
    p = Packer("ext", k=12)
    k = 0
    for o in ["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]:
        for f in ["r@b;return r;", "int t=(r@b);return r+t*2;", "p[r%4]@b;return p[0]+p[1]*3+p[2]*5+p[3]*7;", "r@b+1;r@2;return r;"]:
            k += 1
            yield from p.add("int ext%d(int a,int b){int r=a;int p[4]={9,8,7,6};%s}" % (k, f.replace("@", o)), "ext%d" % k, I(0, 1, 7, 100), I(1, 3))
    for f in ["return a++ + b;", "return ++a + b;", "return a-- - b;", "return --a - b;", "int r=a++;return r*10+a;", "int r=++a;return r*10+a;", "int p[3]={1,2,3};p[a%3]++;return p[0]*100+p[1]*10+p[2];", "int p[3]={1,2,3};int i=0;int r=p[i++];return r*10+i;", "a++;b--;++a;--b;return a*10+b;"]:
        k += 1
        yield from p.add("int ext%d(int a,int b){%s}" % (k, f), "ext%d" % k, I(0, 1, 5), I(2, -3))
    for f in ["return a?b:c;", "return a>b?a:b;", "return a?b?1:2:c?3:4;", "int r=(a>0?b:c)*2;return r;", "return a>0&&b>0?c:-c;", "return (a?1:0)+(b?2:0)+(c?4:0);"]:
        k += 1
        yield from p.add("int ext%d(int a,int b,int c){%s}" % (k, f), "ext%d" % k, I(-1, 0, 2), I(0, 3), I(0, 5))
    for f in ["int s=0;for(int i=0;i<n;i=i+1)s=s+i;return s;", "int s=0;int i;for(i=0;i<n;i++){s+=i*2;}return s*100+i;", "int s=0;for(int i=n;i>0;i--){if(i==3)continue;if(i==1)break;s=s*3+i;}return s;", "int s=0;for(int i=0;i<n;i++)for(int j=i;j<n;j++)s=s+i*j+1;return s;", "int s=0;for(;;){if(s>n)break;s=s+2;}return s;", "int i=0;int s=0;for(;i<n;){i=i+1;s=s+i;}return s;"]:
        k += 1
        yield from p.add("int ext%d(int n){%s}" % (k, f), "ext%d" % k, I(0, 1, 2, 5, 7))
    for o1, o2 in itertools.product(["&", "|", "^", "<<", ">>", "+", "*", "<", "==", "&&"], ["&", "|", "^", "<<", ">>", "-", ">", "!="]):
        k += 1
        yield from p.add("int ext%d(int a,int b,int c){return a%sb%sc;}" % (k, o1, o2), "ext%d" % k, I(0, 1, 13), I(1, 2), I(1, 3))
    yield from p.flush()
