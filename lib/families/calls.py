"""Enumerated call structures: recursion, tail calls, inlining contexts, argument passing, values live across calls."""
import itertools
from harness import Unit, I, F, A
from .control import Packer


# --- recursion --------------------------------------------------------------------------------------------------------
def recursion():
    p = Packer("rec", k=12, limit=60000)
    bases = [("n<=0", "0"), ("n<1", "x"), ("n<2", "n"), ("n<=1", "1"), ("n<-1||n==0||n<0", "x-n")]
    steps = ["#(n-1,x)", "#(n-2,x)", "#(n/2,x)", "#(n-1,x+1)", "#(n-1,n)", "#(n-1,x)+#(n-2,x)", "#(n/2,x)+#(n/3,x)", "#(n-1,x)-#(n-2,x)*2", "#(n-1,#(n-2,x)%3)", "#(n-1,x*2%7)+#(n-2,x+1)"]
    combs = ["%s", "%s+n", "n+%s", "%s*2-x", "n-%s", "(%s)%%7", "%s+x*n", "x-(%s)/2", "-(%s)", "(%s)+1"]
    k = 0
    for (c, b), s, m in itertools.product(bases, steps, combs):
        k += 1
        f = "rc%d" % k
        e = m % ("(" + s.replace("#", f) + ")")
        yield from p.add("int %s(int n,int x){if(%s)return %s;return %s;}" % (f, c, b, e), f, I(-3, -1, 0, 1, 2, 3, 4, 5, 7, 9), I(-2, 0, 1, 3))
    # one argument, two and three recursive calls (these become memoised)
    for (c, b), s, m in itertools.product([("n<=0", "0"), ("n<2", "n"), ("n<=1", "1"), ("n<0", "-n")], ["#(n-1)+#(n-2)", "#(n-1)*2-#(n-3)", "#(n/2)+#(n/3)+#(n/4)", "#(n-2)-#(n-3)", "#(n-1)+#(n-1)%5", "#(n-1)%100*#(n-2)%50"], combs[:3] + combs[5:6] + combs[9:]):
        k += 1
        f = "rc%d" % k
        m = m.replace("x", "n")
        e = m % ("(" + s.replace("#", f) + ")")
        yield from p.add("int %s(int n){if(%s)return %s;return %s;}" % (f, c, b, e), f, I(-3, 0, 1, 2, 3, 4, 5, 7, 10, 12))
    # effects in recursion
    for pre, post, step in itertools.product(["", "@=@+n;", "@=@*2+1;", "if(n%2==0)@=@+x;", "int t=@;"], ["", "@=@-1;", "@=@*3+n;", "x=x+@;"], ["#(n-1,x);", "#(n/2,x+1);", "#(n-2,@);", "#(n-1,x);#(n-2,x);", "if(x>0)#(n-1,x-1);else #(n-2,x);"]):
        k += 1
        f, g = "rc%d" % k, "rg%d" % k
        body = (pre + step + post).replace("#", f).replace("@", g)
        extra = "t" if "int t" in pre else "0"
        yield from p.add("int %s=1;void %s(int n,int x){if(n<=0)return;%s%s=%s+%s+x;}int rh%d(int n,int x){%s(n,x);return %s;}" % (g, f, body, g, g, extra, k, f, g), "rh%d" % k, I(-1, 0, 1, 2, 3, 5), I(-1, 0, 2))
    # mutual recursion
    for a, b in itertools.product(["ev%d(n-1)", "ev%d(n-2)+1", "n+ev%d(n/2)", "ev%d(n-1)*2"], ["od%d(n-1)", "od%d(n-3)-n", "1+od%d(n/3)"]):
        k += 1
        yield from p.add("int ev%d(int n){if(n<=0)return 1;return %s;}int od%d(int n){if(n<=0)return 0;return %s;}" % (k, b % k, k, a % k) if False else
                         "int ev%d(int n){if(n<=0)return 1;if(n>1000)return od%d(n);return n;}" % (k, k) if False else
                         "int md%d(int n,int s){if(n<=0)return s;if(s==0)return %s;return %s;}" % (k, a.replace("ev%d(", "md%d(" % k).replace(")", ",1)"), b.replace("od%d(", "md%d(" % k).replace(")", ",0)")), "md%d" % k, I(-1, 0, 1, 2, 5, 8), I(0, 1))
    yield from p.flush()


# --- tail calls: all argument permutations / updates ------------------------------------------------------------------
TARG = ["a", "b", "c", "a-1", "b+c", "a*2", "n"]


def tails():
    p = Packer("tail", k=16, limit=5000)
    k = 0
    for e1, e2, e3 in itertools.product(TARG, repeat=3):
        k += 1
        f = "tl%d" % k
        form = k % 4
        call = "%s(n-1,%s,%s,%s)" % (f, e1, e2, e3)
        body = ["if(n==0)return a*100+b*10+c;return %s;" % call, "if(n!=0)return %s;return a*100-b*10+c;" % call, "if(n==0)return a+b*3+c*5;if(a<b)return %s;return %s+1;" % (call, call),
                "while(n>3){n=n-2;a=a+1;}if(n==0)return a*100+b*10+c;return %s;" % call][form]
        yield from p.add("int %s(int n,int a,int b,int c){%s}" % (f, body), f, I(0, 1, 2, 3, 5), I(1, -4), I(2, 7), I(-3, 5))
    for e1, e2, e3 in itertools.product(["a", "b", "c", "a-1", "b*2"], repeat=3):
        k += 1
        f = "tl%d" % k
        # the rotation written as a loop: parallel copies at the back edge
        yield from p.add("int %s(int n,int a,int b,int c){while(n>0){int x=%s;int y=%s;int z=%s;a=x;b=y;c=z;n=n-1;}return a*100+b*10+c;}" % (f, e1, e2, e3), f, I(0, 1, 2, 3, 5), I(1, -4), I(2, 7), I(-3, 5))
    for e1, e2, e3 in itertools.product(["x", "y", "z", "x-y", "a"], repeat=3):
        k += 1
        f = "tl%d" % k
        yield from p.add("float %s(int n,float x,float y,float z,int a){while(n>0){float p=%s;float q=%s;float r=%s;x=p;y=q;z=r;n=n-1;}return x*100+y*10+z;}" % (f, e1, e2, e3), f, I(0, 1, 2, 3), F(1, -4.5), F(2), F(-3, 0.25), I(5))
    yield from p.flush()


# --- inlining contexts ------------------------------------------------------------------------------------------------
CALLEES = ["return p+q;", "if(p<q)return p;return q*2;", "if(p<0)return -1;while(p<q){p=p+2;}return p;", "int i=0;int s=0;while(i<q){if(i==p)return s;s=s+i;i=i+1;}return s*2;", "@=@+p;return @;", "if(q>2){@=p;return 1;}return 0;",
           "int l[3]={p,q,p+q};return l[(p+q+30)%3];", "if(p==1)return 5;else if(p==2)return 7;else return q;", "p=p+1;q=p*2;return p-q;", "while(1){if(p>=q)break;p=p+1;if(p==3)return 9;}return p;", "if(p&&q)return 1;return 0;", "return p/(q*q+1);"]
CTX = ["return #(x,y);", "int r=#(x,y)+#(y,x);return r*2;", "if(#(x,y)>2)return #(y,1);return x;", "int i=0;int s=0;while(i<y){s=s+#(i,x);i=i+1;}return s;", "#(x,y);return x+@;", "return #(#(x,1),#(y,2));", "while(#(x,y)<3&&x<5){x=x+1;}return x;",
       "int s=0;int i=0;while(i<3){int j=0;while(j<#(i,y%4)){s=s+1;j=j+1;}i=i+1;}return s;", "if(#(x,y)==1||#(y,x)==0)return 4;return #(3,3);", "x=#(x,y);y=#(x,y);return x*10+y+@;", "int s=@;s=s+#(x,y)*@;return s;", "return #(x,y)%3==0;"]


def inlining():
    p = Packer("inl", k=8, limit=4000)
    k = 0
    for c, x, no in itertools.product(CALLEES, CTX, (0, 1)):
        k += 1
        f = ("_cmmc_noinline_ca%d" if no else "ca%d") % k
        g = "ig%d" % k
        yield from p.add("int %s=2;int %s(int p,int q){%s}int in%d(int x,int y){%s}" % (g, f, c.replace("@", g), k, x.replace("#", f).replace("@", g)), "in%d" % k, I(-2, 0, 1, 2, 4), I(0, 1, 3, 6))
    yield from p.flush()


# --- argument passing -------------------------------------------------------------------------------------------------
def _sum(kinds, names):
    r = "0"
    for i, (t, n) in enumerate(zip(kinds, names)):
        r = "(%s*3+%s)%%10007" % (r, n if t == "i" else ("%s[1]" % n if t == "a" else "(%s>%d.5)*%d" % (n, i, i + 1)))
    return r


def _params(kinds, names):
    return ",".join(("int %s" if t == "i" else "int %s[]" if t == "a" else "float %s") % n for t, n in zip(kinds, names))


def arg_kinds(maxn=5):
    """callee side: every int/float/array pattern of up to maxn parameters and long uniform and alternating ones, with values known to the engine"""
    p = Packer("args", k=12, limit=5000)
    pats = [x for n in range(1, maxn + 1) for x in itertools.product("if" + ("a" if n <= 4 else ""), repeat=n)]
    for n in (6, 7, 8, 9, 10, 12, 16, 17, 20):
        pats += ["i" * n, "f" * n, ("if" * n)[:n], ("fi" * n)[:n], "i" * (n // 2) + "f" * (n - n // 2), "f" * (n // 2) + "i" * (n - n // 2), ("iif" * n)[:n], ("ffi" * n)[:n], "i" * (n - 1) + "f", "f" * (n - 1) + "i", ("ai" * n)[:n], "f" + "i" * (n - 2) + "f"]
    vals = lambda: [(str(i * 7 - 5) if c == "i" else repr(i + (1 if i % 2 else 0.25)) if c == "f" else "h") for i, c in enumerate(t)]
    for k, t in enumerate(pats):
        ns = ["p%d" % i for i in range(len(t))]
        args = [(I(i * 7 - 5) if c == "i" else F(i + (1 if i % 2 else 0.25)) if c == "f" else A([i, 100 + i])) for i, c in enumerate(t)]
        # beyond eight float parameters only the agreement of caller and callee is required
        if t.count("f") <= 8 or t == "i" * len(t):
            yield from p.add("int ak%d(%s){return %s;}" % (k, _params(t, ns), _sum(t, ns)), "ak%d" % k, *args)
        f = "_cmmc_noinline_al%d" % k
        if k % 2:
            yield from p.add("int %s(%s){return %s;}int am%d(int n){int h[2]={n,n+5};return %s(%s)+n;}" % (f, _params(t, ns), _sum(t, ns), k, f, ",".join(vals())), "am%d" % k, I(1, 5))
        else:
            # a recursive callee: the same signature is both sides of a call, and all parameters stay live
            call = "%s(%s)" % (f, ",".join(("%s-1" if c == "i" and i == 0 else "%s+1" if c != "a" else "%s") % n for i, (c, n) in enumerate(zip(t, ns))))
            stop = [n for c, n in zip(t, ns) if c == "i"]
            cond = "%s<0||%s>30" % (stop[0], stop[0]) if stop else ("%s>9" % ns[0] if t[0] == "f" else "1")
            yield from p.add("int %s(%s){if(%s)return %s;return %s%%1000*2+%s;}int am%d(int n){int h[2]={n,n+5};return %s(%s)+n;}" % (f, _params(t, ns), cond, _sum(t, ns), call, _sum(t, ns), k, f, ",".join(vals())), "am%d" % k, I(1, 5))
    yield from p.flush()


def arg_pass():
    """caller side: every way of passing four parameters on (all 4^4 selections), then combinations of more, to a callee that is not inlined"""
    p = Packer("apass", k=16, limit=5000, glob="int _cmmc_noinline_w@(int a,int b,int c,int d){return a*1000+b*100+c*10+d;}float _cmmc_noinline_v@(float a,float b,float c,float d){return a*64+b*16+c*4+d;}"
               "int _cmmc_noinline_x@(int a,float b,int c,float d){if(b>d)return a*10+c;return a-c*10;}"
               "int _cmmc_noinline_y@(int a,int b,int c,int d,int e,int f,int g,int h,int i,int j){return a+b*2+c*3+d*5+e*7+f*11+g*13+h*17+i*19+j*23;}"
               "float _cmmc_noinline_z@(float a,float b,float c,float d,float e,float f,float g,float h,float i,float j,int k){return a+b*2+c*3+d*5+e*7+f*11+g*13+h*17+i*19+j*23+k;}")
    k = 0
    for t in itertools.product("abcd", repeat=4):
        k += 1
        yield from p.add("int ap%d(int a,int b,int c,int d){return _cmmc_noinline_w%d(%s)%s;}" % (k, p.n, ",".join(t), "+a-c" if k % 2 else ""), "ap%d" % k, I(1), I(-2), I(3), I(4, 9))
    for t in itertools.product("abcd", repeat=4):
        if len(set(t)) < 3:
            continue
        k += 1
        yield from p.add("float ap%d(float a,float b,float c,float d){return _cmmc_noinline_v%d(%s)%s;}" % (k, p.n, ",".join(t), "+a-c" if k % 2 else ""), "ap%d" % k, F(1), F(-2), F(3), F(4, 9.5))
    for t in itertools.product(["a", "c", "a+c", "5"], ["b", "d", "b*2", "a"], ["a", "c", "d", "7"], ["b", "d", "c", "1.5"]):
        k += 1
        yield from p.add("int ap%d(int a,float b,int c,float d){return _cmmc_noinline_x%d(%s)*2+a;}" % (k, p.n, ",".join(t)), "ap%d" % k, I(1, -6), F(-2, 4), I(3), F(2.5))
    L = "abcdefghij"
    for s in range(10):
        for w in ("L[(i+s)%10]", "L[9-(i+s)%10]", "L[(i*3+s)%10]", "L[(i*7+s)%10]", "L[(i//2*2+1-i%2)]", "L[(i+s)%5]", "L[(i*s)%10]", "L[i^1] if i!=s else str(s)", "L[i] if i<s else L[9-i+s]"):
            t = [eval(w, {"L": L, "i": i, "s": s}) for i in range(10)]
            k += 1
            yield from p.add("int ap%d(%s){return _cmmc_noinline_y%d(%s)+%s*3+j;}" % (k, ",".join("int " + c for c in L), p.n, ",".join(t), L[s]), "ap%d" % k, *[I(i * i - 7) for i in range(10)])
            if s % 3 == 0:
                k += 1
                yield from p.add("float ap%d(%s,int k){float i=h*3-1;float j=a+7;return _cmmc_noinline_z%d(%s,k+1)+%s*3+j;}" % (k, ",".join("float " + c for c in L[:8]), p.n, ",".join(t), L[s]), "ap%d" % k, *[F(i * i - 7) for i in range(8)], I(4))
    yield from p.flush()


def live_across():
    """n int and m float values (and loop variables) live across calls; every callee kind"""
    p = Packer("live", k=8, limit=20000, glob="int lg@=3;int _cmmc_noinline_a@(int x){lg@=lg@+x;return lg@;}float _cmmc_noinline_b@(float x){return x*2+1;}void _cmmc_noinline_c@(){lg@=lg@+1;}"
               "int _cmmc_noinline_d@(int n){if(n<=0)return 1;return _cmmc_noinline_d@(n-1)*2+n;}int _cmmc_noinline_e@(int a,int b,int c,int d,int e,int f,int g,int h,int i,int j){return a+j*2-e+h*g;}")
    k = 0
    calls = ["_cmmc_noinline_a@(x)", "_cmmc_noinline_b@(y)", "_cmmc_noinline_d@(x%4)", "_cmmc_noinline_e@(x,1,2,x,4,5,x,7,8,x)"]
    for n, m, c, two, loop in itertools.product((0, 1, 2, 3, 5, 8, 11, 13, 20), (0, 1, 3, 9, 14, 20), range(4), (0, 1), (0, 1)):
        if m in (9, 14, 20) and n not in (0, 3, 13) or (n == 20 and m > 3):
            continue
        k += 1
        call = calls[c].replace("@", str(p.n))
        dec = "".join("int v%d=x*%d+%d;" % (i, i + 2, i) for i in range(n)) + "".join("float w%d=y*%d+%d;" % (i, i + 2, i) for i in range(m))
        use = "".join("+v%d*%d" % (i, i + 3) for i in range(n)) + "".join("+w%d*%d" % (i, i + 3) for i in range(m))
        mid = "r=r+%s;" % call + ("_cmmc_noinline_c%d();x=x+1;r=r+%s%s;" % (p.n, call, "-v0" if n else "") if two else "")
        if loop:
            mid = "int i=0;while(i<z){%s%si=i+1;}" % (mid, "v%d=v%d+i;" % (n - 1, n - 1) if n else "")
        yield from p.add("float lv%d(int x,float y,int z){float r=0;%s%sreturn r%s;}" % (k, dec, mid, use), "lv%d" % k, I(1, 6), F(0.5, 3), I(0, 1, 3) if loop else I(2))
    yield from p.flush()


# --- recursive functions which become memoised: keys that collide in the table (size 1021), negative and large keys -------
def memo():
    p = Packer("memo", k=4, limit=30000)
    k = 0
    edge = (-2147483647, -1022, -1021, -2, -1, 0, 1, 2, 5, 1020, 1021, 1022, 1023, 2042, 2044, 3064, 4087, 1000000)
    steps = [("n-1021", "n-1022"), ("n-1020", "n-1021"), ("n-1021", "n-2042"), ("n-1", "n-1021"), ("n/2", "n-1021"), ("n-1019", "n-1021")]
    for (a, b), base, comb in itertools.product(steps, ["n", "1", "-n"], ["#(A)*2+#(B)+n", "#(A)-#(B)", "#(A)+#(A)*3-#(B)"]):
        k += 1
        f = "_cmmc_noinline_mm%d" % k
        src = "int %s(int n){if(n<3)return %s;return %s;}" % (f, base, comb.replace("#", f).replace("A", a).replace("B", b))
        lim = (1, 2, 1022, 1023, 1024, 2043, 2044, 2045, 3066) if "n-1)" not in src and a != "n-1" else (1, 2, 9, 14)
        yield from p.add("%sint mo%d(int a,int b){int x=%s(a);int y=%s(b);return x*3+y+%s(a)*7;}" % (src, k, f, f, f), "mo%d" % k, I(*lim), I(*(lim + (-1, -5))))
    # two keys: every pair of small / colliding / negative keys asked in every order
    for (a, b), comb in itertools.product([("n-1,m", "n,m-1"), ("n-1021,m", "n-1021,m+1"), ("n-1,m-1", "n-1,m+1"), ("n-1021,-m", "n-1022,m"), ("m-1,n", "n-1,m")], ["#(A)*2+#(B)+n", "#(A)-#(B)*3+m"]):
        k += 1
        f = "_cmmc_noinline_mm%d" % k
        src = "int %s(int n,int m){if(n<3)return n*5+m;if(m<-3)return m;if(m>9)return n;return %s;}" % (f, comb.replace("#", f).replace("A", a).replace("B", b))
        big = "1021" in a
        lim = (2, 1022, 1024, 2045) if big else (2, 4, 6)
        yield from p.add("%sint mo%d(int a,int b,int c){int x=%s(a,b);int y=%s(a,c);return x*3+y+%s(a,b)*7-%s(b,a);}" % (src, k, f, f, f, f), "mo%d" % k, I(*lim), I(-4, -3, -1, 0, 1, 5), I(-2, 0, 1, 9))
    # float keys and float results
    for base, comb in itertools.product(["x", "x*2-1", "1"], ["#(x-1)+#(x-2)", "#(x/2)*3-#(x-1.5)", "#(x-1021)+#(x-1022)*2"]):
        k += 1
        f = "_cmmc_noinline_mm%d" % k
        src = "float %s(float x){if(x<3)return %s;return %s;}" % (f, base, comb.replace("#", f))
        big = "1021" in comb
        yield from p.add("%sfloat mo%d(float a,float b){float x=%s(a);float y=%s(b);return x+y*4+%s(a);}" % (src, k, f, f, f), "mo%d" % k, F(*((1, 1022.5, 2045) if big else (-1, 0, 3, 4.5, 6))), F(*((0, 1023, 2044) if big else (-0.0, 2, 5.25))))
    # keys at the extremes of the range, evaluated through overflow-free recurrences
    for x in edge:
        k += 1
        f = "_cmmc_noinline_mm%d" % k
        src = "int %s(int n,int m){if(m<=0)return n%%1000;return %s(n,m-1)*3+%s(n/2,m-2);}" % (f, f, f)
        yield from p.add("%sint mo%d(int a,int b){return %s(a,b)*5+%s(%d,b)+%s(%d,b-1);}" % (src, k, f, f, x, f, x), "mo%d" % k, I(-2147483647 - 1, -1, 0, 1, 2147483647), I(0, 1, 4))
    # the cached function must not be memoised over memory it reads or writes
    for dep in ["return #(n-1)+#(n-2)+@;", "@=@+1;return #(n-1)+#(n-2);", "return #(n-1)+#(n-2)+@[n%2];"]:
        k += 1
        f, g = "_cmmc_noinline_mm%d" % k, "mg%d" % k
        arr = "[" in dep
        yield from p.add("int %s%s;int %s(int n){if(n<3)return n;%s}int mo%d(int a,int b){int x=%s(a);%s=b;int y=%s(a);%s=b+3;return x*3+y*5+%s(a)+%s;}" % (g, "[2]" if arr else "", f, dep.replace("#", f).replace("@", g), k, f, g + ("[0]" if arr else ""), f, g + ("[1]" if arr else ""), f, g + ("[1]" if arr else "")),
                         "mo%d" % k, I(1, 3, 6, 9), I(-2, 5))
    yield from p.flush()


# --- recursions whose result is combined on the way back ---------------------------------------------------------------
def accumulated(stride=1):
    """every way of combining the value of the recursive call, in one or two returning branches, integers and floats"""
    p = Packer("acc", k=12, limit=60000)
    ex = ["r", "r+n", "n+r", "r-n", "n-r", "r*n", "n*r", "r*r", "r+r", "r-r", "r*3", "3*r+1", "r+m", "r*m", "r%7", "r/2", "-r", "!r", "r*n+r", "r+n*n", "(r+n)*2", "r<n", "n*m+r", "r*r+n", "r+r*n", "m-r-r"]
    ca = ["n-1,m", "n-1,m+1", "n-2,m", "n-1,n", "n/2,m-1"]
    bs = ["1", "m", "n", "n+m", "3"]
    k = 0
    def body(f, e, a, form):
        if form == 0:
            return "int r=%s(%s);return %s;" % (f, a, e)
        return "return %s;" % e.replace("r", "@").replace("@", "%s(%s)" % (f, a)) if e.count("r") <= 1 else "int r=%s(%s);return %s;" % (f, a, e)
    for i, e in enumerate(ex):
        for j, a in enumerate(ca):
            k += 1
            f = "ac%d" % k
            inp = (I(-1, 0, 1, 2, 3, 4, 6), I(-2, 0, 1, 3)) if e.count("r") < 2 or "*" not in e else (I(-1, 0, 1, 2, 3, 4), I(-1, 0, 1, 2))
            yield from p.add("int %s(int n,int m){if(n<=0)return %s;%s}" % (f, bs[(i + j) % 5], body(f, e, a, k % 2)), f, *inp)
    n = 0
    for (e1, e2), a in itertools.product(itertools.product(ex, repeat=2), ca[:3]):
        n += 1
        if n % (3 * stride):
            continue
        k += 1
        f = "ac%d" % k
        c = ["n%2", "n>m", "m==1", "n>2"][k % 4]
        yield from p.add("int %s(int n,int m){if(n<=0)return %s;if(%s){%s}%s}" % (f, bs[k % 5], c, body(f, e1, a, k % 2), body(f, e2, ca[k % 3], 0)), f, I(0, 1, 2, 3, 4), I(-1, 0, 1, 2))
    for e in [x for x in ex if "%" not in x and "!" not in x]:
        for a in ca[:2]:
            k += 1
            f = "ac%d" % k
            yield from p.add("float %s(int n,float m){if(n<=0)return m+0.5;float r=%s(%s);return %s;}" % (f, f, a, e), f, I(0, 1, 2, 3, 4), F(-1.5, 0.25, 1))
    yield from p.flush()


def speculated(kinds=None):
    """operations that are only defined under a guard (calls that end only for some arguments, far elements, division), under every
    shape of guard and control flow around them: executing one where the source does not must show"""
    p = Packer("spec", k=7, limit=40000)
    ops = [  # definition, expression of x and y, guard
        ("int @f(int x){if(x==0)return 1;return @f(x-1)*3+x%3;}", "@f(x)", "x>=0"),
        ("int @f(int x){int s=1;while(x!=0){s=s*2+x;x=x-2;}return s;}", "@f(x)", "x>=0&&x%2==0"),
        ("int @f(int x,int y){if(x==y)return 7;return @f(x+1,y)+x;}", "@f(x,y)", "x<=y"),
        ("int @g(int x){if(x==0)return 1;return @g(x-1)+2;}int @f(int x,int y){return @g(x)*y-1;}", "@f(x,y)", "x>=0"),
        ("int @A[9]={3,1,4,1,5,9,2,6,5};", "@A[x*100000]", "x==0"),
        ("int @A[9]={3,1,4,1,5,9,2,6,5};int @f(int a[],int x){return a[x*50000000]+x;}", "@f(@A,x)", "x==0"),
        ("", "(y/x)", "x!=0"),
        ("", "(y%(x+1))", "x!=-1"),
        ("float @f(float x){if(x<0.5&&x>-0.5)return 1.0;return @f(x-1.0)*0.5+x;}", "@f(x)", "x>=0"),
    ]
    ctxs = [
        "int i=0,s=0;while(i<n){if(P)s=s+E*i;else s=s+i;i=i+1;}return s;",
        "int i=0,s=0;while(i<n){int j=0;while(j<3&&(P)){s=s+E+j;j=j+1;}i=i+1;}return s;",
        "int s=0;if(n>2){if(P)s=E;}else if(n==1&&(P))s=E+1;return s;",
        "int s=0;if(n>0)s=1;if((P)&&n<4){s=s+E;}if(n==2&&(P))s=s-E*2;return s;",
        "int s=0;while(n>0){if(n==2&&(P))s=s+E;if(n==3&&(P))s=s-E;n=n-1;}return s;",
        "if(!(P))return n;int s=E;if(n>1)return s+E;return s-n;",
        "int i=0,s=0;while(1){if(i>=n)break;if(!(P)){i=i+2;s=s-1;continue;}s=s+E;i=i+1;}return s;",
        "int s=0;if((P)&&E>n)s=1;if(!(P)||E<n)s=s+2;return s;",
        "int i=0,s=0;while(i<n&&(P)&&E!=i){s=s+E;i=i+1;}return s*10+i;",
        "int s=0;int t=(P);int i=0;while(i<n){if(t)s=s+E;i=i+1;}return s;",
        "int s=0;int k=n;while(k>0){int i=0;while(i<k){if(P){if(i%2)s=s+E;else s=s-i;}i=i+1;}k=k-1;}return s;",
        "int s=0,i=0;while(i<4){if(i==n){if(P)s=E;else s=5;}i=i+1;}return s+n;",
    ]
    k = 0
    for oi, (d, e, g) in enumerate(ops):
        if kinds is not None and oi not in kinds:
            continue
        for ci, cx in enumerate(ctxs):
            k += 1
            f = "sp%d" % k
            t = d.replace("@", "q%d" % k) + "int %s(int n,int x,int y){%s}" % (f, cx.replace("P", g).replace("E", e.replace("@", "q%d" % k)))
            yield from p.add(t, f, I(0, 1, 2, 3, 5), I(-3, -1, 0, 1, 2, 4), I(-1, 4))
    yield from p.flush()
