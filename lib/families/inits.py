"""Initialisers and constant evaluation: what the compiler computes at compile time must be what the program would compute."""
import itertools
from harness import Unit, I, F, A, FA
from .control import Packer


def _size(d):
    n = 1
    for x in d:
        n *= x
    return n


def shapes(dims, limit):
    """every brace structure for an array of shape dims: nested lists of 'e' (an element) and lists, at most `limit` of them"""
    out = []

    def gen(d, room):
        # list contents for sub-array of dims d: sequences of items filling at most size(d)
        total = _size(d)
        res = []

        def rec(pos, items, room):
            res.append(list(items))
            if pos >= total or room <= 0:
                return
            rec_items = items + ["e"]
            rec(pos + 1, rec_items, room - 1)
            k = 1
            while k < len(d) and pos % _size(d[k:]) != 0:
                k += 1
            if k < len(d):
                for sub in gen(d[k:], room - 1):
                    rec(pos + _size(d[k:]), items + [sub], room - 1 - _cnt(sub))
        rec(0, [], room)
        return res

    def _cnt(s):
        return sum(1 if x == "e" else 1 + _cnt(x) for x in s)
    r = gen(dims, limit)
    return r


def render(s, it):
    return "{" + ",".join(next(it) if x == "e" else render(x, it) for x in s) + "}"


DIMS = [((1,), 2), ((3,), 4), ((4,), 4), ((2, 2), 7), ((3, 2), 6), ((2, 3), 6), ((1, 3), 5), ((3, 1), 6), ((2, 2, 2), 6), ((2, 1, 3), 6), ((3, 2, 2), 5), ((2, 2, 2, 2), 4), ((4, 4), 4)]


def braces(quick=True, pre="br"):
    """every brace structure x storage (global, const global, local, const local, local with run-time values) x element type"""
    p = Packer(pre, k=12)
    k = 0
    for dims, lim in DIMS:
        d = "".join("[%d]" % x for x in dims)
        n = _size(dims)
        for j, s in enumerate(shapes(dims, lim if not quick else lim)):
            kinds = range(8) if not quick and n <= 8 else ((j % 8, (j * 3 + 5) % 8) if n <= 6 else (j % 8,))
            for kind in dict.fromkeys(kinds):
                k += 1
                ty = "float" if kind in (3, 6) else "int"
                vals = ["%d" % (7 * (i + 1) % 23 + 1) for i in range(40)] if ty == "int" else ["%s" % (i * 1.5 + 0.25) for i in range(40)]
                if kind == 5:
                    vals = [v if i % 3 else "a+%s" % v for i, v in enumerate(vals)]
                if kind == 6:
                    vals = [v if i % 2 else "a*%d" % (i + 1) for i, v in enumerate(vals)]
                if kind == 7:
                    vals = ["a" if i % 2 else "b" for i, v in enumerate(vals)]
                ini = render(s, iter(vals))
                v = "%sv%d" % (pre, k)
                decl = "%s %s%s=%s;" % (ty, v, d, ini)
                idx = ""
                rem = n
                for x in dims:
                    rem //= x
                    idx += "[i/%d%%%d]" % (rem, x) if rem > 1 else "[i%%%d]" % x
                body = "int i=0;%s r=0;while(i<%d){r=r*3+%s%s;i=i+1;}return r+%s%s*b;" % (ty, n, v, idx, v, idx.replace("i", "c"))
                if n > 12:
                    body = body.replace("r*3", "r*1").replace("+%s%s;i" % (v, idx), "+%s%s*(i+1);i" % (v, idx))
                if kind in (0, 1, 3):
                    src = "%s%s%s %s%d(int a,int b,int c){%s}" % ("const " if kind == 1 else "", decl, ty, pre, k, body)
                else:
                    src = "%s %s%d(int a,int b,int c){%s%s%s}" % (ty, pre, k, "const " if kind == 4 else "", decl, body)
                yield from p.add(src, "%s%d" % (pre, k), I(2, -5), I(3), I(*range(min(n, 9))))
    yield from p.flush()


CE = ["2", "-3", "7", "0x10", "010", "0", "1"]
CF = ["1.5", "-0.25", "2.0", "0.0", "3.7"]


def consts(quick=True):
    """constant definitions: every operator on every pair, nested through named constants, int and float, global and local; dimensions; compared with run time"""
    p = Packer("cst", k=12)
    k = 0
    ops = ["+", "-", "*", "/", "%"]  # the grammar allows no comparison in a constant expression
    for o, a, b in itertools.product(ops, CE, CE):
        if o in "/%" and b == "0":
            continue
        k += 1
        ty = ["int", "float"][k % 2] if o != "%" else "int"
        loc = k % 3 == 0
        d = "const %s ca%d=%s;const int cb%d=%s;const %s cc%d=ca%d%scb%d;" % ("int" if o in ("%",) or k % 5 else "float", k, a, k, b, ty, k, k, o, k)
        yield from p.add("%s%s cst%d(int x){%sint d[5]={cc%d,ca%d};d[3]=cc%d;return cc%d*2+d[x]+(%s%s%s);}" % ("" if loc else d, ty, k, d if loc else "", k, k, k, k, "ca%d" % k, o, "cb%d" % k), "cst%d" % k, I(0, 1, 2, 3))
    for o, a, b in itertools.product([x for x in ops if x != "%"], CF, CF + CE[:3]):
        if o == "/" and b in ("0.0", "0"):
            continue
        k += 1
        ty = ["int", "float"][k % 2]
        loc = k % 3 == 0
        d = "const float ca%d=%s;const float cb%d=%s;const %s cc%d=ca%d%scb%d;" % (k, a, k, b, ty, k, k, o, k)
        yield from p.add("%sfloat cst%d(int x){%sfloat d[5]={cc%d,ca%d};d[3]=cc%d;return cc%d*2+d[x];}" % ("" if loc else d, k, d if loc else "", k, k, k, k), "cst%d" % k, I(0, 1, 2, 3))
    # unary chains
    for u, v in itertools.product(["-", "+", "--", "-+", "+-", "---", "++"], CE + CF):
        k += 1
        u2 = " ".join(u)
        yield from p.add("const float cu%d=%s %s;const int ci%d=%s %s;float cst%d(int x){float l=%s %s;int m=%s %s;return cu%d+ci%d*4+l*16+m*64+x;}" % (k, u2, v, k, u2, v, k, u2, v, u2, v, k, k), "cst%d" % k, I(0, 3))
    # dimensions from constant expressions, indexing with constants, const arrays in constant expressions
    for e in ["N", "N+1", "N*2", "M-N", "M/N", "M%N+1", "N*M", "-(-N)", "(N+M)/2", "N*N-M"]:
        for g in (0, 1, 2):
            k += 1
            pre = "const int N%d=3;const int M%d=7;const int T%d[3]={2,5,4};const int U%d[2][2]={{1,2},{3}};" % (k, k, k, k)
            ee = e
            for nm in "NMTU":
                ee = ee.replace(nm, nm + str(k))
            arr = "int da%d[%s][2];" % (k, ee)
            ev = "%s" % ee
            use = "int i=0;while(i<%s){da%d[i][0]=i*x;da%d[i][1]=i+%s;i=i+1;}return da%d[(%s)-1][1]+da%d[(%s)-1][0]*100;" % (ev, k, k, ee, k, ev, k, ev)
            src = pre + arr + "int cst%d(int x){%s}" % (k, use) if g == 0 else pre + "int cst%d(int x){%s%s}" % (k, arr, use) if g == 1 else "int cst%d(int x){%s%s%s}" % (k, pre, arr, use)
            yield from p.add(src, "cst%d" % k, I(2, -7))
    # constants from the middle of tables, out of order, negative and computed
    for i, j in itertools.product(range(4), range(3)):
        k += 1
        yield from p.add("const int ct%d[4][3]={{1,-2,3},{},{7},{-2147483647-1,2147483647,0}};const float cf%d[4][3]={{1.5},{2.5,0.1,-3},{},{16777217,0.3,1e10}};float cst%d(int x){const int c1%d=ct%d[%d][%d];const float c2%d=cf%d[%d][%d];return (c1%d/2+ct%d[%d][x]/3)+c2%d+cf%d[x][%d];}" % ((k, k, k, k, k, i, j, k, k, i, j, k, k, i, k, k, j)), "cst%d" % k, I(0, 1, 2))
    yield from p.flush()


def folding(quick=True):
    """expressions over constants only and the same expressions over variables holding these constants: both must equal the reference"""
    p = Packer("fold", k=16)
    k = 0
    vals = ["0", "1", "-1", "2", "-7", "100", "2147483647", "(-2147483647-1)", "65536"]
    ops = ["+", "-", "*", "/", "%", "<", "==", ">=", "!=", "&&", "||"]
    for o1, o2 in itertools.product(ops, ops):
        for j in range(len(vals) * 2 if not quick else 7):
            a, b, c = vals[(j * 5 + k) % 9], vals[(j * 3 + k // 3 + 1) % 9], vals[(j * 7 + k // 2 + 2) % 9]
            k += 1
            e = "((%s)%s(%s))%s(%s)" % (a, o1, b, o2, c) if j % 2 else "(%s)%s((%s)%s(%s))" % (a, o1, b, o2, c)
            yield from p.add("int fold%d(int x){int p=%s;int q=%s;int r=%s;int y=0;if(x>0)y=%s;else y=%s;return y;}" % (k, a, b, c, e, ("(p%sq)%sr" if j % 2 else "p%s(q%sr)") % (o1, o2)), "fold%d" % k, I(0, 1))
    fv = ["0.0", "1.0", "-1.5", "0.1", "3.4e38", "1e-38", "16777217.0", "-2.5"]
    fo = ["+", "-", "*", "/", "<", "==", ">=", "!="]
    for o1, o2 in itertools.product(fo, fo):
        if (o1 == "*" and o2 in "+-") or (o2 == "*" and o1 in "+-"):
            continue
        for j in range(8):
            a, b, c = fv[(j * 5 + k) % 8], fv[(j * 3 + k // 3 + 1) % 8], fv[(j * 7 + k // 2 + 2) % 8]
            k += 1
            e = "((%s)%s(%s))%s(%s)" % (a, o1, b, o2, c) if j % 2 else "(%s)%s((%s)%s(%s))" % (a, o1, b, o2, c)
            yield from p.add("float fold%d(int x){float p=%s;float q=%s;float r=%s;float y=0;if(x>0)y=%s;else y=%s;return y;}" % (k, a, b, c, e, ("(p%sq)%sr" if j % 2 else "p%s(q%sr)") % (o1, o2)), "fold%d" % k, I(0, 1))
    # int <-> float conversions of constants
    for v in ["0.0", "0.9999999", "-0.9999999", "1.5", "-2.5", "2147483520.0", "-2147483648.0", "16777216.5", "1e9", "-123456.789", "8388609.0"]:
        k += 1
        yield from p.add("const int fcv%d=%s;int fold%d(int x){int a=%s;float y=%s;int b=y;int c[2]={%s};if(x>1)return fcv%d;if(x>0)return a;if(x<0)return c[0];return b;}" % (k, v, k, v, v, v, k), "fold%d" % k, I(-1, 0, 1, 2))
    for v in ["0", "16777217", "-16777217", "2147483647", "(-2147483647-1)", "33554435", "123456789", "7"]:
        k += 1
        yield from p.add("const float fcv%d=%s;float fold%d(int x){float a=%s;int y=%s;float b=y;float c[2]={%s};if(x>1)return fcv%d;if(x>0)return a;if(x<0)return c[0];return b;}" % (k, v, k, v, v, v, k), "fold%d" % k, I(-1, 0, 1, 2))
    # calls the compiler may evaluate itself
    fs = ["int #(int a,int b){return a*b+a/b-a%b;}", "int #(int a,int b){int s=0;while(a>0){s=s+a%b;a=a/b;}return s;}", "int #(int a,int b){if(b==0)return a;return #(b,a%b);}", "int #(int a,int b){int w[4]={1,2,a,b};int i=0;int s=0;while(i<4){s=s*3+w[i];i=i+1;}return s;}", "int #(int a,int b){if(a<=b)return a;return #(a-1,b)+#(a-2,b);}", "float #(int a,int b){float x=a;return x/b;}", "int #(int a,int b){float x=a;int i=0;while(i<b){x=x*0.5;i=i+1;}return x*1024;}", "int #(int a,int b){return a<b&&b<9||!a;}", "int #(int a,int b){const int t[3][2]={{1,2},{3},{5,6}};return t[a%3][b%2]*10+a;}"]
    for f in fs:
        for a, b in itertools.product(("1", "12", "7", "30" if "a-2" not in f else "11"), ("2", "3", "5")):
            k += 1
            fn = "fe%d" % k
            yield from p.add("%sfloat fold%d(int x){int u=%s;int v=%s;if(x>0)return %s(u,v);if(x<-5)return %s(x+100,3);return %s(%s,%s)+0.5;}" % (f.replace("#", fn), k, a, b, fn, fn, fn, a, b), "fold%d" % k, I(0, 1, -90))
    yield from p.flush()
