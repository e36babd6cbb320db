"""Enumerated floating-point programs. Families named x_* only use values on which every intermediate result is exact (fusing a multiply
into an add cannot change them); the others have no multiply feeding an add and use values which round."""
import itertools
from harness import Unit, I, F, A, FA
from .control import Packer

EX = F(-3.5, -1, 0.25, 0, 1, 2.5, 8)
EXS = F(-3, -0.5, 0, 1, 4)
ODD = [-3.4e38, -16777217.0, -1.1, -1e-40, 0.0, 1.4e-45, 1.17549435e-38, 0.1, 0.3333333, 1.0, 1.0000001, 2.7182818, 8388609.0, 3.4028235e38]
NASTY = F(*ODD)
NASTYS = F(*ODD[::2])
INF, NAN = float("inf"), float("nan")
CMPV = F(-INF, -2.5, -1.4e-45, -0.0, 0.0, 1.4e-45, 2.5, INF)
CMPN = F(-1.5, 0.0, 2.0, NAN)
OPS = ["+", "-", "*", "/"]
CMPS = ["<", "<=", ">", ">=", "==", "!="]
CONSTS = ["0.0", "1.0", "-1.0", "2.0", "-2.0", "0.5", "-0.5", "0.1", "3.0", "4.0", "10.0", "31.0", "0.125", "0.0625", "-1.9375", "16777216.0", "1e10", "1e-10", "3.4e38", "1e-40", "0.3333333", "-0.1", "100.0", "1024.0", "0x1.8p3", "1e-38", "2147483648.0", "33.0", "0.2421875", "0x1p-130", "-0x1p-128", "0x1p-149", "0x1p-126", "0x1p127"]


def ops():
    p = Packer("fop", k=16)
    k = 0
    for o, a, b in itertools.product(OPS, ["a", "b", "(a-b)", "(-a)"], ["a", "b", "(b+a)", "(-b)"]):
        if o in "+-" and "*" in a + b:
            continue
        k += 1
        yield from p.add("float fo%d(float a,float b){return %s%s%s;}" % (k, a, o, b), "fo%d" % k, NASTY, NASTY)
    for o, c in itertools.product(OPS, CONSTS):
        for e in ("a%s(%s)" % (o, c), "(%s)%sa" % (c, o), "-(a%s(%s))" % (o, c), "(-a)%s(%s)" % (o, c)):
            k += 1
            yield from p.add("float fo%d(float a){return %s;}" % (k, e), "fo%d" % k, F(*(ODD + [-2.0, 7.5, 100.0])))
    yield from p.flush()


def pairs(quick=True):
    """two constants: reassociation must not happen"""
    p = Packer("fpair", k=24)
    cs = ["2.0", "0.1", "-1.0", "0.5", "3.0", "16777216.0", "0.0"] if quick else CONSTS
    k = 0
    for (o1, o2), c, d in itertools.product([(x, y) for x in OPS for y in OPS if not (x == "*" and y in "+-")], cs, cs):
        k += 1
        yield from p.add("float fp%d(float a){return (a%s%s)%s%s;}" % (k, o1, "(%s)" % c, o2, "(%s)" % d), "fp%d" % k, NASTYS)
    yield from p.flush()


def compares():
    P = {False: Packer("fcmp", k=12), True: Packer("fnot", k=12)}  # negated orderings (a recorded MIPS defect) in units of their own
    neg = lambda o, f: o not in ("==", "!=") and ("!(" in f or "==0" in f)
    k = 0
    forms = ["return a#b;", "if(a#b)return 7;return -3;", "return !(a#b);", "if(!(a#b))return 1;return 5;", "int r=0;if(a#b)r=r+2;else r=r-1;return r;", "return (a#b)+(b#a)*2;", "while(a#b){a=a+b+1;return 9;}return 4;", "if(a#b&&b#a)return 3;return 2;", "if(a#b||a==b)return 3;return 2;", "int r=3;if(a#b)r=8;return r;", "return -(a#b);", "return (a#b)==0;"]
    for o, f in itertools.product(CMPS, forms):
        for v in (CMPV, CMPN):
            k += 1
            yield from P[neg(o, f)].add("int fc%d(float a,float b){%s}" % (k, f.replace("#", o)), "fc%d" % k, v, v)
    for o, c, f in itertools.product(CMPS, CONSTS[:14] + ["1e-40", "3.4e38"], ["return a#b;", "if(b#a)return 7;return -3;", "int r=3;if(!(a#b))r=8;return r;"]):
        k += 1
        yield from P[neg(o, f)].add("int fc%d(float a){%s}" % (k, f.replace("#", o).replace("b", c)), "fc%d" % k, F(*(ODD + [-2.0, -1.0, -0.5, 0.5, 2.0, 4.0, 10.0, 31.0])))
    p = P[False]
    # selections of float values
    for o, (x, y) in itertools.product(CMPS, [("a", "b"), ("b", "a"), ("1.5", "a"), ("b", "0.0"), ("a+b", "a-b"), ("-a", "a"), ("a", "a+1")]):
        k += 1
        yield from p.add("float fc%d(float a,float b){if(a%sb)return %s;return %s;}" % (k, o, x, y), "fc%d" % k, NASTYS, NASTYS)
        k += 1
        yield from p.add("float fc%d(float a,float b,int n){float r=%s;if(a%sb&&n>0)r=%s;return r;}" % (k, y, o, x), "fc%d" % k, NASTYS, NASTYS, I(0, 1))
        k += 1
        yield from p.add("int fc%d(float a,float b,int n){int r=n;if(a%sb)r=n*2;return r;}" % (k, o), "fc%d" % k, NASTYS, NASTYS, I(-4, 1))
    yield from P[False].flush()
    yield from P[True].flush()


FV = F(-2147483648.0, -2147483520.0, -16777216.0, -2.75, -1.0, -0.99, -0.0, 0.0, 0.5, 0.99999994, 1.0, 1.5, 2.999, 255.5, 8388607.5, 16777217.0, 2147483520.0)
IV = I(-2147483648, -2147483647, -16777217, -16777216, -3, -1, 0, 1, 2, 7, 255, 16777215, 16777217, 16777219, 33554435, 2147483583, 2147483584, 2147483647)


def conversions():
    p = Packer("fcvt", k=12)
    k = 0
    for e in ["int r=f;return r;", "int r=f+0.5;return r;", "int r=-f;return r;", "int r=f/2;return r;", "int r=f;if(r>f)return 1;if(r<f)return -1;return 0;", "int r=f;int q=f*2;return r-q%3;", "int r=f;float g=r;if(g==f)return 1;return 0;", "return f;", "if(f)return 3;return 4;", "if(!f)return 3;return 4;", "return !f;", "return !!f;", "if(f&&f<3)return 5;return 6;", "while(f){return 8;}return 9;",
              "int a[4]={1,2,3,4};int r=f;if(r<0)return -1;if(r>3)return -2;return a[r];", "return -!f;", "return f>=1;", "int r=f;float g=f-r;if(g>0)return r*2;return r;"]:
        k += 1
        yield from p.add("int ft%d(float f){%s}" % (k, e), "ft%d" % k, FV)
    for e in ["return n;", "return n+0.0;", "return n*0.5;", "return n/2;", "float x=n;return x/3;", "float x=n/3;return x;", "return -n+1.0;", "int m=n;float x=m;int q=x;return q;", "float x=n;if(x==n)return 1;return 0;", "return n%7;", "return (n>0)+0.5;", "return n-n*1.0;", "float x=n;int k=x/4;return k;", "return 1.0/n;", "return n*n*1.0;", "float x=n;return x*x;", "return n&&1;", "return !n+0.25;"]:
        if "n-n*" in e:
            continue
        k += 1
        yield from p.add("float ft%d(int n){%s}" % (k, e), "ft%d" % k, IV)
    for o, (x, y) in itertools.product(OPS + CMPS, [("n", "f"), ("f", "n"), ("n", "1.5"), ("2", "f"), ("f", "m"), ("(n+m)", "f"), ("(n/2)", "f")]):
        k += 1
        yield from p.add("float ft%d(int n,float f,int m){return %s%s%s;}" % (k, x, o, y), "ft%d" % k, I(-3, 0, 1, 16777217, 1000000), F(-1.5, 0, 0.1, 3), I(2, -5))
        k += 1
        yield from p.add("int ft%d(int n,float f,int m){int r=%s%s%s;return r+m;}" % (k, x, o, y), "ft%d" % k, I(-3, 0, 1, 77777, 1000000), F(-1.5, 0, 0.1, 3), I(2, -5))
    for t in itertools.product(["int", "float"], repeat=4):
        k += 1
        yield from p.add("%s ft%d(float f,int n){%s a=f*4;%s b=a+n;%s c=b/2;b=c-a;c=b;return c+a;}" % (t[0], k, t[1], t[2], t[3]), "ft%d" % k, F(-2.3, 0, 0.6, 5.125), I(-3, 0, 4))
    yield from p.flush()


XE = ["a*b+c", "a*b-c", "c-a*b", "-(a*b)-c", "-(a*b)+c", "a*b+c*d", "a*b-c*d", "(a+b)*(c-d)", "a*b*c+d", "a+b*c+d", "-(a*b+c)", "(-a)*b+c", "a*(-b)-c", "a*b+a*b", "a*a+b*b", "a*2+b", "b-a*2", "a*b+1.5", "2.5-a*b", "(a-b)*(a+b)", "a*b+c+d", "(a*b+c)*d", "a-(b-(c-d))", "a*4-b*2+c", "-a*-b", "a*b+(c*d+a)", "c+a*b*d"]


def x_exprs():
    p = Packer("fx", k=12)
    for k, e in enumerate(XE):
        yield from p.add("float fx%d(float a,float b,float c,float d){return %s;}" % (k, e), "fx%d" % k, EX, EX, EXS, EXS)
        yield from p.add("float fy%d(float a,float b,float c,int n){float d=n;float t=%s;if(t>n)t=t-c;return t*2;}" % (k, e), "fy%d" % k, EXS, EXS, EXS, I(-1, 3))
    lv = ["a", "b", "2.0", "n", "(a-b)"]
    k = 100
    for o1, o2, x, y, z in itertools.product("+-*", "+-*", lv, lv, lv):
        k += 1
        yield from p.add("float fx%d(float a,float b,int n){return (%s%s%s)%s%s;}" % (k, x, o1, y, o2, z) if k % 2 else "float fx%d(float a,float b,int n){return %s%s(%s%s%s);}" % (k, z, o2, x, o1, y), "fx%d" % k, EXS, EXS, I(-2, 0, 3))
    yield from p.flush()


def x_loops(quick=True):
    p = Packer("fl", k=8, limit=4000)
    k = 0
    N = I(-1, 0, 1, 2, 3, 4, 5, 8, 13, 17)
    init, cond, step, body = ["float x=0;", "float x=a;", "float x=n;"], ["i<n", "x<n", "x>a-4&&i<n", "i<n&&x!=b"], ["i=i+1;", "i=i+2;", "i=i+1;x=x+0.5;"], ["x=x+a;", "x=x*2-b;", "x=x+i;", "x=x-i*a;", "x=a-x;", "x=x+a*b;", "if(x>b)x=x-1;else x=x+2;", "x=x+i%2;float t=x;x=a;a=t;", "if(i==3)break;x=x+1;", "s=s+x;x=x+1;", "s=s+x*a;x=i;", "int t=x;x=x+t%2+1;"]
    for t in itertools.product(init, cond, step, body):
        k += 1
        if "x<n" in t[1] and "float x=0" in t[0] and "a" in t[3] and "b" not in t[3] and k % 2:
            pass
        yield from p.add("float fl%d(float a,float b,int n){%sint i=0;float s=1;while(%s){%s%sif(i>12)break;}return s+x*4+i;}" % (k, t[0], t[1], t[3], t[2]), "fl%d" % k, F(-1.5, 0, 2), F(0.5, 3), N if not quick else I(0, 1, 2, 4, 5, 9))
    pn = Packer("fnotl", k=12, limit=4000)
    # float counters
    for t in itertools.product(["0", "a", "n"], ["x<b", "x<=b", "x>b", "x!=4", "b>=x", "!(x>=b)"], ["x=x+1", "x=x+0.25", "x=x-1", "x=x*2+1", "x=x+a"]):
        k += 1
        yield from (pn if "!(" in t[1] else p).add("int fl%d(float a,float b,int n){float x=%s;int c=0;while(%s){c=c+1;if(c>30)break;%s;}return c*1000+x*4;}" % (k, t[0], t[1], t[2]), "fl%d" % k, F(-1, 0, 0.5, 2), F(-2, 0, 0.75, 4, 5), I(0, 3))
    yield from p.flush()
    yield from pn.flush()


def x_arrays(quick=True):
    p = Packer("fa", k=8, limit=6000)
    k = 0
    A8 = FA([1, -2, 3.5, 0, 4, 0.25, -1, 8, 2, 5], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
    B8 = FA([2, 1, -1, 0.5, 3, -4, 2, 1, 0, 6])
    body = ["s=s+p[i]*q[i];", "q[i]=p[i]+a;", "p[i]=p[i]*2;", "q[i]=q[i]+p[i]*a;", "p[i+1]=p[i]+q[i];", "if(p[i]>a)s=s+p[i];", "if(p[i]>m)m=p[i];", "if(p[i]<m)m=p[i];", "p[i]=i;", "q[i]=p[i]/2;", "s=s+p[i];m=m-q[i];", "p[i]=p[n-i];", "p[i]=0;", "s=s*0.5+p[i];", "q[i]=a;p[i]=a*2;", "int t=p[i];p[i]=t;", "p[0]=p[0]+q[i];", "s=s+p[i]*p[i+1];q[i]=s;", "float t=p[i];p[i]=q[i];q[i]=t;", "p[i]=p[i]+p[i];", "p[i]=-p[i];m=p[i];"]
    for b, c, st in itertools.product(body, ["i<n", "i<=n", "i<8"], ["i=i+1", "i=i+2"]):
        k += 1
        yield from p.add("float fa%d(float p[],float q[],float a,int n){int i=0;float s=0;float m=0;while(%s){%s%s;}return s+m*16;}" % (k, c, b, st), "fa%d" % k, A8, B8, F(-1, 2), I(0, 1, 3, 4, 7, 8))
        if not quick or k % 3 == 0:
            yield from p.add("float fb%d(float p[],float q[],float a,int n){int i=0;float s=0;float m=0;while(%s){%s%s;}return s+m*16;}" % (k, c, b, st), "fb%d" % k, A8, "@ 0+1", F(-1, 2), I(0, 1, 3, 4, 7, 8))
    # constant initialised and local float arrays
    for d, e in itertools.product(["float w[4]={1.5,2,a};", "float w[4]={};w[2]=a;", "float w[2][2]={{a},{1,2.5}};", "float w[4]={1,2,3,4};w[n%4]=a;", "const float w[4]={0.1,0.2,1e10};"], ["return w#+a;", "float s=0;int i=0;while(i<4){s=s+w@;i=i+1;}return s;", "return w#*2-a;"]):
        k += 1
        e = e.replace("#", "[n/2][n%2]" if "2][2" in d else "[n]").replace("@", "[i/2][i%2]" if "2][2" in d else "[i]")
        yield from p.add("float fa%d(float a,int n){%s%s}" % (k, d, e), "fa%d" % k, F(-1.25, 3), I(0, 1, 2, 3))
    yield from p.flush()


def ranges(nan=False, stride=1, neg=False):
    """two comparisons of one variable with constants, joined by && or ||: touching, overlapping and disjoint ranges, every pair of operators"""
    p = Packer(("fnanr" if nan else "frange") + ("n" if neg else ""), k=20)
    forms = ["if(C)return 1;return 0;", "int r=3;if(!(C))r=8;return r;", "return (C)+2*(1-(C));", "int r=0;while(C){r=r+1;a=a+0.75;if(r>6)return r;}return r;", "if(L){if(R)return 2;return 1;}return 0;"]
    vals = F(-1.5, 0.0, 1.25, 1.5, 1.75, 2.5, 3.0) if not nan else F(float("nan"), float("inf"), float("-inf"), 1.5)
    m = 0
    for o1, o2, lg, (c, d), fl, sw in itertools.product(CMPS, CMPS, ("||", "&&"), (("1.5", "1.5"), ("1.5", "2.5"), ("2.5", "1.5"), ("0.0", "0.0")), range(len(forms)), (0, 1)):
        m += 1
        if (fl in (1, 2)) != neg or m % stride or sw and fl != (m // 2) % len(forms):
            continue
        l, r = "a%s%s" % (o1, c), ("%s%sa" % (d, o2) if sw else "a%s%s" % (o2, d))
        # negated forms apart: they are a recorded MIPS defect
        f = "%s%d" % ("fnr" if nan else "frg", m)
        yield from p.add("int %s(float a){%s}" % (f, forms[fl].replace("C", l + lg + r).replace("L", l).replace("R", r)), f, vals)
    yield from p.flush()
