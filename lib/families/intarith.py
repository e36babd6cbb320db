"""Enumerated integer-expression programs."""
import itertools
from harness import Unit, I, A, I32MIN, I32MAX

V = [I32MIN, I32MIN + 1, -2147480000, -1073741825, -1073741824, -1000000007, -65537, -65536, -65535, -32769, -32768, -10000, -1025, -1024, -1000, -257, -256, -255, -129, -128,
     -127, -100, -65, -64, -63, -33, -32, -31, -17, -16, -15, -12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31,
     32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 9999, 32767, 32768, 32769, 65535, 65536, 65537, 1000000006, 1073741823, 1073741824,
     1073741825, 2147480000, I32MAX - 1, I32MAX]
W = [I32MIN, I32MIN + 1, -65537, -1000, -129, -9, -8, -7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 127, 128, 1000, 65536, I32MAX - 1, I32MAX]
S = [I32MIN, -100, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7, 8, 100, I32MAX]

CONSTS = sorted(set(list(range(-20, 21)) + [s * ((1 << k) + d) for k in range(5, 31) for d in (-1, 0, 1) for s in (1, -1)] +
                    [I32MIN, I32MIN + 1, I32MAX, I32MAX - 1, 25, 100, 125, -125, 625, 641, 1000, -1000, 1021, 3600, 10007, 60000, 86400, 998244353, -998244353, 1000000007, 19260817, 715827883, 1431655765]))


def c(v):
    if v == I32MIN:
        return "(-2147483647-1)"
    return str(v) if v >= 0 else "(%d)" % v


CMP = ["<", "<=", ">", ">=", "==", "!="]
BIN = ["+", "-", "*", "/", "%"]


def one_const(consts=None):
    """x op c and c op x, as a value, for every operator"""
    for k in (consts or CONSTS):
        n = ("m%d" % -k) if k < 0 else str(k)
        parts, fns = [], []
        exprs = []
        for op, nm in zip(BIN, ["add", "sub", "mul", "div", "rem"]):
            if op in "/%" and k == 0:
                continue
            exprs.append(("%s_xc" % nm, "x%s%s" % (op, c(k))))
            if op not in "+*":
                exprs.append(("%s_cx" % nm, "%s%sx" % (c(k), op)))
        for nm, e in exprs:
            yield Unit("int1/%s/%d" % (nm, k), "int i1_%s_%s(int x){return %s;}" % (nm, n, e), [("i1_%s_%s" % (nm, n), [I(*V)])])


def one_const_cmp(consts=None):
    for k in (consts or CONSTS):
        n = ("m%d" % -k) if k < 0 else str(k)
        for op, nm in zip(CMP, ["lt", "le", "gt", "ge", "eq", "ne"]):
            f = "ic_%s_%s" % (nm, n)
            near = sorted(set(V + [max(I32MIN, min(I32MAX, k + d)) for d in (-2, -1, 0, 1, 2)]))
            yield Unit("cmp1/%s/%d" % (nm, k),
                       "int %s_v(int x){return x%s%s;}\nint %s_b(int x,int a,int b){if(x%s%s)return a;return b;}" % (f, op, c(k), f, op, c(k)),
                       [(f + "_v", [I(*near)]), (f + "_b", [I(*near), I(5), I(9)])])


def two_const(c1s, c2s, ops1=BIN, ops2=BIN, pre="int2"):
    for a in c1s:
        for o1 in ops1:
            if o1 in "/%" and a == 0:
                continue
            src, fns = [], []
            for b in c2s:
                for o2 in ops2:
                    if o2 in "/%" and b == 0:
                        continue
                    f = ("t_%s%s_%s%s" % (a, "asmdr"[BIN.index(o1)], b, "asmdr"[BIN.index(o2)])).replace("-", "n")
                    src.append("int %s(int x){return (x%s%s)%s%s;}" % (f, o1, c(a), o2, c(b)))
                    fns.append((f, [I(*W)]))
            for k in range(0, len(src), 12):
                yield Unit("%s/%d%s/%d" % (pre, a, o1, k), "\n".join(src[k:k + 12]), fns[k:k + 12], weight=12)


def two_const_rev(c1s, c2s):
    """c2 op (x op c1), c2 op (c1 op x)"""
    for a in c1s:
        for o1 in ["+", "-", "*", "/", "%"]:
            src, fns = [], []
            for b in c2s:
                for o2 in ["-", "/", "%", "+", "*"]:
                    for form in (0, 1):
                        if form == 0 and o1 in "/%" and a == 0:
                            continue
                        f = ("r%d_%s%s_%s%s" % (form, a, "asmdr"[BIN.index(o1)], b, "asmdr"[BIN.index(o2)])).replace("-", "n")
                        inner = "(x%s%s)" % (o1, c(a)) if form == 0 else "(%s%sx)" % (c(a), o1)
                        src.append("int %s(int x){return %s%s%s;}" % (f, c(b), o2, inner))
                        fns.append((f, [I(*W)]))
            for k in range(0, len(src), 12):
                yield Unit("int2r/%d%s/%d" % (a, o1, k), "\n".join(src[k:k + 12]), fns[k:k + 12], weight=12)


def cmp_arith(c1s, c2s):
    """(x op c1) cmp c2 : comparison folding through arithmetic"""
    for a in c1s:
        for o1 in BIN:
            if o1 in "/%" and a == 0:
                continue
            src, fns = [], []
            for b in c2s:
                for i, o2 in enumerate(CMP):
                    f = ("ca_%s%s_%s_%d" % (a, "asmdr"[BIN.index(o1)], b, i)).replace("-", "n")
                    src.append("int %s(int x){if((x%s%s)%s%s)return 3;return 4;}" % (f, o1, c(a), o2, c(b)))
                    fns.append((f, [I(*W)]))
            for k in range(0, len(src), 12):
                yield Unit("cmpa/%d%s/%d" % (a, o1, k), "\n".join(src[k:k + 12]), fns[k:k + 12], weight=12)


def two_var():
    """binary operators on two variables, then combined with one of the variables or compared"""
    ops = BIN + CMP
    for i, o1 in enumerate(ops):
        src, fns = [], []
        for j, o2 in enumerate(ops):
            for k, (l, r) in enumerate([("x", "y"), ("y", "x"), ("x", "x")]):
                for m, t in enumerate(["x", "y", "(x-y)", "(y+1)"]):
                    f = "tv_%d_%d_%d_%d" % (i, j, k, m)
                    src.append("int %s(int x,int y){return (%s%s%s)%s%s;}" % (f, l, o1, r, o2, t))
                    fns.append((f, [I(*S), I(*S)]))
        for k in range(0, len(src), 12):
            yield Unit("int2v/%s/%d" % (o1, k), "\n".join(src[k:k + 12]), fns[k:k + 12], weight=12)


def logic(consts=(-8, -1, 0, 1, 3, 7)):
    """range-like conjunctions/disjunctions/negations of comparisons against constants and variables"""
    n = 0
    for o1 in CMP:
        src, fns = [], []
        for o2 in CMP:
            for a in consts:
                for b in consts:
                    for lg in ("&&", "||"):
                        if (n % 1) == 0:
                            f = "lg_%d" % n
                            src.append("int %s(int x){if(x%s%s%sx%s%s)return 7;return 2;}" % (f, o1, c(a), lg, o2, c(b)))
                            fns.append((f, [I(-2147483648, -9, -8, -7, -2, -1, 0, 1, 2, 3, 4, 6, 7, 8, 2147483647)]))
                        n += 1
        for k in range(0, len(src), 12):
            yield Unit("logic/%s/%d" % (o1, k), "\n".join(src[k:k + 12]), fns[k:k + 12], weight=12)


def logic_var():
    n = 0
    vals = I(-2147483648, -2, -1, 0, 1, 2, 2147483647)
    for o1 in CMP:
        src, fns = [], []
        for o2 in CMP:
            for l2, r2 in (("x", "y"), ("y", "x"), ("y", "z"), ("x", "z")):
                for lg in ("&&", "||"):
                    for neg in ("", "!"):
                        f = "lv_%d" % n
                        n += 1
                        src.append("int %s(int x,int y,int z){return %s((x%sy)%s(%s%s%s));}" % (f, neg, o1, lg, l2, o2, r2) if neg else
                                   "int %s(int x,int y,int z){if((x%sy)%s(%s%s%s))return z;return x;}" % (f, o1, lg, l2, o2, r2))
                        fns.append((f, [vals, vals, vals]))
        for k in range(0, len(src), 12):
            yield Unit("logicv/%s/%d" % (o1, k), "\n".join(src[k:k + 12]), fns[k:k + 12], weight=12)


def select():
    """if-converted shapes: min/max/abs/clamp/conditional increments/boolean arithmetic"""
    n = 0
    rhs = ["x", "y", "x+1", "x-1", "0-x", "0", "1", "-1", "5", "y+1", "x*2"]
    for o in CMP:
        src, fns = [], []
        for l, r in (("x", "y"), ("x", "0"), ("x", "5"), ("x-y", "0"), ("y", "-1")):
            for t in rhs:
                for e in rhs:
                    if t == e:
                        continue
                    f = "sl_%d" % n
                    n += 1
                    src.append("int %s(int x,int y){int r;if(%s%s%s)r=%s;else r=%s;return r;}" % (f, l, o, r, t, e))
                    fns.append((f, [I(*S), I(-2147483648, -5, -1, 0, 1, 5, 6, 2147483647)]))
        for k in range(0, len(src), 12):
            yield Unit("select/%s/%d" % (o, k), "\n".join(src[k:k + 12]), fns[k:k + 12], weight=12)


def boolarith():
    n = 0
    forms = ["({a})+({b})", "({a})-({b})", "({a})*({b})", "({a})=={b}", "({a})!=({b})", "({a})<({b})", "({a})*x+({b})*y", "!({a})+!!({b})", "-({a})", "({a})*7-3", "!(({a})&&!({b}))",
             "({a})+({b})>1", "({a})+({b})==1", "({a})*4+({b})*2", "1-({a})", "x*({a})", "x+({b})", "x-({a})", "({a})/(1+({b}))", "({a})%2"]
    cs = ["x<y", "x==y", "x>0", "x!=0", "!x", "x%2==1", "y<=3", "x%4==0", "x-y", "x>=-1", "!(x<y)", "x/2"]
    for fi, fo in enumerate(forms):
        src, fns = [], []
        for a in cs:
            for b in cs:
                f = "ba_%d" % n
                n += 1
                src.append("int %s(int x,int y){return %s;}" % (f, fo.format(a=a, b="(" + b + ")")))
                fns.append((f, [I(*S), I(-3, -1, 0, 1, 2, 3, 4, 2147483647)]))
        for k in range(0, len(src), 12):
            yield Unit("bool/%d/%d" % (fi, k), "\n".join(src[k:k + 12]), fns[k:k + 12], weight=12)


def ranged():
    """operations whose operand ranges are narrowed by dominating conditions or by masks/remainders"""
    n = 0
    pre = ["if(x<0)return -9;", "if(x<=0)return -9;", "if(x>=0)return -9;", "if(x<0)return -9;if(x>100)return -8;", "if(x!=8)x=x%8;", "x=x%16;", "x=x%16;if(x<0)x=x+16;", "x=x/4;",
           "if(x>7)x=7;", "if(x<-7)x=-7;", "if(x<0)x=-x;", "if(x<=-2147483647)return 1;if(x<0)x=0-x;", "x=x*2;", "x=x*8;", "if(x%2!=0)return 5;", "if(x%4!=0)return 5;", "x=x-x%8;", "if(x==3)return 1;",
           "if(x<0||x>=16)return -1;", "if(x>-16&&x<0){}else return -1;", "int t=x;if(t<0)t=0;x=t;"]
    post = ["x/2", "x%2", "x/8", "x%8", "x/3", "x%3", "x/16", "x%16", "x/(-4)", "x%(-4)", "x/7", "x%10", "x*3", "x<8", "x<=7", "x>=0", "x==3", "x!=8", "x>-17", "x/2*2", "x-x%4", "(x+8)/8", "(x-1)/2", "(x+15)%16", "x/2%2", "x*4/2", "x*4/4", "x*6/3", "x%16%4", "x%4==3", "x%2==-1",
            "x%2==1", "x/100", "x%1000000007", "(x+1)>0", "x>100", "x<-7", "-x", "0-x/2", "x*x"]
    for i, p in enumerate(pre):
        src, fns = [], []
        for q in post:
            f = "rg_%d" % n
            n += 1
            src.append("int %s(int x){%s return %s;}" % (f, p, q))
            fns.append((f, [I(*V)]))
        for k in range(0, len(src), 10):
            yield Unit("range/%d/%d" % (i, k), "\n".join(src[k:k + 10]), fns[k:k + 10], weight=10)


def deep(depth_ops, leaves, pre="deep"):
    """every expression tree of the two shapes ((a o b) o c) o d and (a o b) o (c o d) over the leaves"""
    import itertools
    n = 0
    src, fns, u = [], [], 0
    vals = I(-7, -1, 0, 1, 2, 9)
    for o1, o2, o3 in itertools.product(depth_ops, repeat=3):
        for a, b, d, e in leaves:
            for shape in (0, 1, 2):
                f = "dp_%d" % n
                n += 1
                ex = ["((%s%s%s)%s%s)%s%s", "(%s%s%s)%s(%s%s%s)", "%s%s(%s%s(%s%s%s))"][shape] % (a, o1, b, o2, d, o3, e)
                src.append("int %s(int x,int y){return %s;}" % (f, ex))
                fns.append((f, [vals, vals]))
                if len(src) == 16:
                    yield Unit("%s/%d" % (pre, u), "\n".join(src), fns, weight=16)
                    u += 1
                    src, fns = [], []
    if src:
        yield Unit("%s/%d" % (pre, u), "\n".join(src), fns, weight=16)


DEEP_LEAVES = [("x", "y", "x", "y"), ("x", "3", "y", "3"), ("x", "y", "2", "x"), ("4", "x", "x", "(-1)"), ("x", "x", "y", "y"), ("x", "8", "2", "4"), ("y", "1", "x", "1"), ("(-2)", "x", "5", "y")]


def bitops():
    """language extensions: bitwise and shift operators"""
    n = 0
    src, fns, u = [], [], 0
    ks = [-1, 0, 1, 3, 7, 8, 15, 255, 256, 65535, 0x7fffffff]
    es = []
    for k in ks:
        for op in "&|^":
            es.append("x%s%s" % (op, c(k)))
            es.append("(x%s%s)%sy" % (op, c(k), op))
            es.append("(x&%s)%s1" % (c(k), op))
    for s in (1, 2, 4, 8, 16, 31):
        es += ["x>>%d" % s, "(x>>%d)<<%d" % (s, s) if s < 31 else "x>>%d" % s, "(x&15)<<%d" % min(s, 26), "(x>>%d)&7" % s, "(x>>%d)*4" % min(s, 16) if s > 2 else "x>>1"]
    es += ["~x", "~(x&y)", "~x&y", "x&~y", "x|~y", "x^~y", "(x|y)-(x&y)", "(x&y)|(x^y)", "x^x", "x&x", "(x^y)^y", "-(x>>1)", "~(-x)" if False else "~(x>>1)", "(x&1)==0", "(x&1)!=0", "(x&8)==8", "!(x&4)"]
    for e in es:
        f = "bo_%d" % n
        n += 1
        src.append("int %s(int x,int y){return %s;}" % (f, e))
        fns.append((f, [I(*W), I(-2147483648, -1, 0, 1, 12, 2147483647)]))
        if len(src) == 12:
            yield Unit("bit/%d" % u, "\n".join(src), fns, weight=12)
            u += 1
            src, fns = [], []
    if src:
        yield Unit("bit/%d" % u, "\n".join(src), fns, weight=12)


# --- results tested against zero right after they are computed, with flags left over from a comparison that overflowed ----
def zero_tests(quick=True):
    from .control import Packer
    p = Packer("zero", k=24, glob="int zg@=1;")
    k = 0
    pre = ["", "if(x<y)zg@=2;", "int t=(y<x);zg@=t;", "putint(x);", "int t=y;if(x>y)t=x;zg@=t;"]
    CMPS = ["<", "<=", ">", ">=", "==", "!="]
    ex = ["x&y", "x|y", "x^y", "~x", "x", "y", "x&255", "x|1", "x-y", "x+y", "-x", "x/2", "x%4", "x^-1", "(x&y)|1", "x>>1", "x&-2", "x-1", "1-x", "(x&7)-y%3"]
    fm = ["int r=@;if(r#0)return r;return 5;", "int r=@;if(r#0)return 1;return r;", "int r=@;int q=3;if(r#0)q=y;return q-r%100;", "int r=@;zg$=r;if(r#0)zg$=7;return zg$;", "return ((@)#0)+1;", "int r=@;int c=0;while(r#0){c=c+1;if(c>5)return c;r=r/2+c;}return r*10+c;"]
    for e, f, o, q in itertools.product(ex, fm, CMPS, pre):
        k += 1
        if quick and (k * 2654435761 >> 7) % 5:
            continue
        yield from p.add("int zt%d(int x,int y){%s%s}".replace("%d", str(k)).replace("%s", q, 1).replace("%s", f.replace("@", e).replace("#", o).replace("$", "@")).replace("@", str(p.n)), "zt%d" % k, I(-2147483648, -2147483647, -100, -1, 0, 1, 3, 2147483647), I(-2147483647, -5, 0, 2, 2147483647))
    yield from p.flush()


# --- two successive operations whose constants combine to a value at the edge of the 32-bit range --------------------------
def edge_chain():
    pairs = []
    for i in range(1, 31):
        for j in (30 - i, 31 - i, 32 - i):
            if 1 <= j <= 30:
                pairs += [(s * (1 << i), t * (1 << j)) for s in (1, -1) for t in (1, -1)]
    pairs += [(46341, 46341), (46340, 46341), (65535, 32769), (3, 715827883), (3, -715827883), (715827882, 3), (5, 429496730), (-5, 429496730), (641, 3350208), (2147483647, 1), (2147483647, -1), (2147483647, 2), (-2147483647, 2),
              (2147483647, 2147483647), (-2147483648, -1), (-2147483648, 1), (-2147483648, 2), (2, -2147483648), (-1, 2147483647), (1, 2147483647), (-2147483648, -2147483648), (2147483646, 1), (2147483646, 2), (-2147483647, -1), (-2147483647, -2), (1, -2147483648)]
    ops = [("/", "/"), ("*", "/"), ("+", "+"), ("-", "-"), ("+", "-"), ("-", "+"), ("%", "%"), ("/", "%"), ("%", "/"), ("/", "*"), ("*", "%")]
    src, fns, u, k = [], [], 0, 0
    for a, b in pairs:
        for o1, o2 in ops:
            if (o1 in "+-") and abs(a) < (1 << 28) and abs(b) < (1 << 28):
                continue
            f = "ec_%d" % k
            k += 1
            src.append("int %s(int x){return x%s%s%s%s;}" % (f, o1, c(a), o2, c(b)))
            fns.append((f, [I(*V)]))
            if len(src) == 12:
                yield Unit("edge/%d" % u, "\n".join(src), fns, weight=12)
                u, src, fns = u + 1, [], []
    if src:
        yield Unit("edge/%d" % u, "\n".join(src), fns, weight=12)


# --- sums and differences of remainders, reduced again -------------------------------------------------------------------
def mod_sums(neg=False):
    """neg: operands of both signs (the compiler is known to mishandle some of these)"""
    forms = ["(x%M+y)%M", "(x+y%M)%M", "(x%M+y%M)%M", "((x%M+y)%M+x)%M", "((x%M+K)%M+K)%M", "((x+K)%M+y%M)%M", "(x%L%M+y%M)%M", "(x*K%M+y)%M", "((x%M)*K+y)%M", "((x%M)*(y%M))%M", "(x%M+M)%M", "((x+y)%M+(x+K)%M)%M",
             "((x%M)+(y%M)+K)%M", "(x%M*2+y%M)%M", "(x%M+y%L)%M", "(x%M+y%L)%L", "((x%M+y)%M==K)", "((x%L)%M+(y%L)%M)%M"]
    if neg:
        forms = ["(x%M+y)%M", "(x+y%M)%M", "(x%M-y)%M", "((x%L)%M+(y%L)%M)%M"]
        vals = [I(-1000007, -101, -100, -7, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 7, 100, 1000003, 2147483647), I(-101, -7, -5, -4, -1, 0, 1, 3, 4, 6, 200, 2147483646)]
    else:
        forms += ["(x%M-y%M+M)%M", "((x%M+M)-y%M)%M", "(x%M+(M-y%M))%M"]
        vals = [I(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 99, 100, 101, 1000003, 99999999, 100000007), I(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 99, 100, 101, 1000003, 99999999, 100000007)]
    k, u, src, fns = 0, 0, [], []
    for m, l in ((4, 8), (5, 100)) if neg else ((1, 3), (2, 4), (3, 9), (4, 8), (5, 100), (7, 3), (8, 4), (10, 20), (100, 10), (998244353, 7), (1000000007, 2)):
        for kk in (1, 3, 8, 100):
            for fo in forms:
                if "K" not in fo and kk != 1:
                    continue
                for shape in (0, 1):
                    f = "%s_%d" % ("mn" if neg else "ms", k)
                    k += 1
                    e = fo.replace("M", str(m)).replace("L", str(l)).replace("K", str(kk))
                    src.append("int %s(int x,int y){%s}" % (f, "return %s;" % e if shape == 0 else "int i=0;int s=x;while(i<3){s=%s;i=i+1;}return s;" % e.replace("x", "s")))
                    fns.append((f, vals))
                    if len(src) == 12:
                        yield Unit("%s/%d" % ("modsumneg" if neg else "modsum", u), "\n".join(src), fns, weight=12)
                        u, src, fns = u + 1, [], []
    if src:
        yield Unit("%s/%d" % ("modsumneg" if neg else "modsum", u), "\n".join(src), fns, weight=12)


# --- membership in a set of constants ------------------------------------------------------------------------------------
def valuesets(wrap=False):
    """x compared with every element of a set: as a conjunction of !=, a disjunction of ==, through branches and as a value.
    wrap: only the values of x for which x - (smallest element) or - (largest element) leaves the int range (all others are in the main family)"""
    offs = [(0, 1, 2, 3), (0, 1, 2, 3, 4), (0, 2, 4, 6), (0, 1, 2, 27, 28, 29, 30, 31), (0, 1, 2, 59, 60, 61, 62, 63), (0, 1, 2, 3, 32, 33, 34, 35), (0, 1, 2, 3, 64, 65, 66, 67), (0, 1, 30, 31, 32, 33, 34, 35, 62, 63, 64),
            (0, 7, 14, 21), (0, 1, 3, 31, 32), tuple(range(9)), (0, 10, 20, 30, 40, 50, 60, 63), (0, 1, 2, 3, 95, 96, 97, 98)]
    bases = [0, 1, 2, 5, 33, 97, -1, -4, -32, -70, 2147483647 - 98, -2147483647 - 1, -2147483647, 1000000]
    forms = ["int @(int x){if(NE)return 3;return 8;}", "int @(int x){return EQ;}", "int @(int x){int r=0;if(EQ)r=x;else r=1-x/2;return r;}", "int @(int x){if(EQ||x==777)return 1;return NE;}", "int @(int x){int s=0;while(EQ){s=s+1;x=x+1;}return s*2+NE;}"]
    src, fns, n = [], [], 0
    for bi, b in enumerate(bases):
        for oi, o in enumerate(offs):
            vals = [b + k for k in o if b + k <= 2147483647]
            order = vals if (bi + oi) % 3 == 0 else vals[::-1] if (bi + oi) % 3 == 1 else vals[1::2] + vals[::2]
            lo = vals[0]
            pts = sorted({v + d for v in vals for d in (-1, 0, 1)} | {-2147483648 + k for k in range(0, 8)} | {2147483647 - k for k in range(3)} | {lo + d for d in (-65, -64, -33, -32, -31, 29, 57, 58, 99, 127, 128, 4096)} |
                         {((lo + (1 << 31) + k + (1 << 31)) & 0xffffffff) - (1 << 31) for k in (-64, -33, -5, -2, -1, 0, 1, 2)} | {0})
            pts = [p for p in pts if -2147483648 <= p <= 2147483647 and (p - vals[-1] < -2147483648) == wrap]
            if wrap:
                pts += [-2147483648 + k for k in range(8, max(0, min(vals[-1], 200)))]
            if not pts or (wrap and bi not in (1, 3, 4, 5)):
                continue
            f = "%s_%d" % ("vsw" if wrap else "vs", n)
            t = forms[n % len(forms)].replace("@", f).replace("NE", "(" + "&&".join("x!=%s" % c(v) for v in order) + ")").replace("EQ", "(" + "||".join("x==%s" % c(v) for v in order) + ")")
            src.append(t)
            fns.append((f, [I(*pts)]))
            n += 1
    for k in range(0, len(src), 6):
        yield Unit("%s/%d" % ("vswrap" if wrap else "valueset", k), "\n".join(src[k:k + 6]), fns[k:k + 6], opts=("LIMIT 20000",), weight=6)


def wrapsums():
    """a sum or difference compared with zero where the sum as written stays in the int range but another association of it,
    or an intermediate value, does not"""
    ops = ["d<0", "d>=0", "d>0", "d<=0", "d==0"]
    exprs2 = ["x-(-2147483647-1)", "x+2147483647+2147483647", "x+2147483647+6", "x-(-2147483647-1)+(-5)", "x-2147483647-2", "x+2147483600-2147483600", "x-100+2147483647", "0-x", "2147483647-x-x/2", "(x-7)-(y-7)", "x-y+5-y"]
    exprs3 = ["x+(y+z)", "(y-z)+x", "x*2+(y+z*3)", "(x+y)-(z+y)", "x-(y-z)"]
    e = (-2147483648, -2147483647, -1500000000, -100, -1, 0, 1, 5, 100, 1500000000, 2147483646, 2147483647)
    n = 0
    for ei, ex in enumerate(exprs2 + exprs3):
        three = ei >= len(exprs2)
        src, fns = [], []
        for oi, op in enumerate(ops):
            f = "ws_%d_%d" % (ei, oi)
            src.append("int %s(int x,int y%s){int d=%s;if(%s)return %s;return %s;}" % (f, ",int z" if three else "", ex, op, "x" if (oi + ei) % 2 else "1", "d" if (oi + ei) % 3 else "2"))
            fns.append((f, [I(*e), I(*(e if "y" in ex else (0,)))] + ([I(*e[::2])] if three else [])))
        yield Unit("wsum/%s%d" % ("n" if three else "", ei), "\n".join(src), fns, weight=5)
