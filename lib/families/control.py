"""Enumerated control-flow programs: loops, branches, nesting, early exits."""
import itertools
from harness import Unit, I, A


class Packer:
    """collects single functions into units of k functions"""

    def __init__(self, pre, k=12, glob="", limit=20000):
        self.pre, self.k, self.n, self.glob = pre, k, 0, glob
        self.opts = ("LIMIT %d" % limit,) if limit else ()
        self.src, self.fns = [], []

    def add(self, src, fn, *args, **kw):
        self.src.append(src)
        self.fns.append((fn, list(args)) if "inp" not in kw else (fn, list(args), kw["inp"]))
        if len(self.src) >= self.k:
            return self.flush()
        return ()

    def flush(self):
        if not self.src:
            return ()
        g = self.glob.replace("@", str(self.n))
        u = Unit("%s/%d" % (self.pre, self.n), (g + "\n" if g else "") + "\n".join(self.src), self.fns, opts=self.opts, weight=len(self.src))
        self.n += 1
        self.src, self.fns = [], []
        return (u,)


N = I(-3, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33)
NS = I(-2, 0, 1, 2, 3, 5, 8)
X = I(-5, 0, 1, 3, 10)


# --- S1: single loops -------------------------------------------------------------------------------------------------
INITS = ["0", "1", "(-3)", "n", "x"]
CONDS = ["i<n", "i<=n", "i>n", "i>=n", "i!=n", "n>i", "i<10", "i<=9", "i>0", "i!=12", "i>=x", "i*2<n", "i+3<n", "i<n-1", "i<n&&i<x", "i<n||i<x", "!(i>=n)", "i-n", "i<n*2"]
STEPS = ["i=i+1", "i=i+2", "i=i+3", "i=i-1", "i=i-2", "i=i*2+1", "i=i/2", "i=1+i", "i=i+x"]
BODIES = ["s=s+i;", "s=s*3+i;", "s=s+i*x;", "s=s+i*i;", "s=s+1;", "s=s-i%3;", "if(i%2==0)s=s+i;", "if(i==x)break;s=s+1;", "if(i>x)s=s+2;else s=s-i;", "s=s+x*x;", "s=s+i/2;"]


def loops(quick=True):
    p = Packer("loop1")
    k = 0
    ninit = INITS if not quick else INITS[:4]
    for a, b, c in itertools.product(ninit, CONDS, STEPS):
        bodies = BODIES if not quick else [BODIES[k % len(BODIES)], BODIES[(k * 7 + 3) % len(BODIES)]]
        for d in bodies:
            yield from p.add("int l1_%d(int n,int x){int i=%s;int s=0;while(%s){%s%s;}return s*100+i;}" % (k, a, b, d, c), "l1_%d" % k, N, I(-2, 0, 1, 3, 6))
            k += 1
    yield from p.flush()


def loop_exits():
    """loops with break/continue/return at every position of the body"""
    p = Packer("loopx")
    k = 0
    ex = ["break;", "{i=i+1;continue;}", "return s;", "{s=s+7;break;}", "return i*2;", "{s=s+1;i=i+2;continue;}"]
    cs = ["i==x", "s>20", "i%3==x", "i*x>9", "i>=x&&s<30", "s==i"]
    for e1, c1 in itertools.product(ex, cs):
        for e2, c2 in [(None, None)] + list(itertools.product(ex[:3], cs[:4])):
            b2 = "if(%s)%s" % (c2, e2) if e2 else ""
            for o in (0, 1):
                body = ["if(%s)%s s=s+i;%s i=i+1;" % (c1, e1, b2), "s=s+i;if(%s)%s%s s=s*2;i=i+1;" % (c1, e1, b2)][o]
                yield from p.add("int lx_%d(int n,int x){int i=0;int s=0;while(i<n){%s}return s-i;}" % (k, body), "lx_%d" % k, N, I(-1, 0, 1, 2, 4))
                k += 1
    yield from p.flush()


def nested():
    p = Packer("nest")
    k = 0
    outer = [("0", "i<n", "1"), ("1", "i<=n", "1"), ("n", "i>0", "-1"), ("0", "i<6", "1"), ("0", "i<n", "2")]
    inner = [("0", "j<i", "1"), ("i", "j<n", "1"), ("0", "j<x", "1"), ("0", "j<4", "1"), ("i+1", "j<n", "1"), ("n", "j>i", "-1"), ("0", "j<=i", "2"), ("x", "j<n", "1"), ("0", "j*j<i", "1")]
    bodies = ["s=s+1;", "s=s+i*j;", "s=s*2%1000+j;", "if(j==x)break;s=s+j;", "if((i+j)%3==0){j=j+1;continue;}s=s+i;", "if(i==j)s=s-1;else s=s+2;", "s=s+i*4+j;", "if(s>50)return s;s=s+i-j;"]
    tails = ["", "if(s>100)break;", "s=s+i;"]
    for (a, b, c), (d, e, f), g in itertools.product(outer, inner, bodies):
        t = tails[k % 3]
        yield from p.add("int ne_%d(int n,int x){int s=0;int i=%s;while(%s){int j=%s;while(%s){%sj=j+%s;}%si=i+%s;}return s*10+i;}" % (k, a, b, d, e, g, f, t, c), "ne_%d" % k,
                         I(-1, 0, 1, 2, 3, 5, 8), I(-1, 0, 1, 3, 4))
        k += 1
    # three levels
    for b1, b2, b3, g in itertools.product(["i<n", "i<3"], ["j<i", "j<n", "j<2"], ["k<j", "k<n", "k<x", "k<i+j", "k<3"], ["s=s+1;", "s=s+i*j+k;", "if(k==x)break;s=s+k;", "if(i==j&&j==k)return s;s=s+2;"]):
        yield from p.add("int n3_%d(int n,int x){int s=0;int i=0;while(%s){int j=0;while(%s){int k=0;while(%s){%sk=k+1;}j=j+1;}i=i+1;}return s;}" % (k, b1, b2, b3, g), "n3_%d" % k, I(-1, 0, 1, 2, 4, 5), I(0, 1, 2))
        k += 1
    yield from p.flush()


# --- S2: statement grammar: every program of bounded size -----------------------------------------------------------------
def _stmts(size, inloop):
    """all statement sequences of exactly `size` nodes"""
    if size == 0:
        yield ""
        return
    for first in range(1, size + 1):
        for h in _stmt(first, inloop):
            term = h in ("break;", "continue;", "return s;") 
            if term:
                if first == size:
                    yield h
                continue
            for t in _stmts(size - first, inloop):
                yield h + t


ATOMS = ["s=s*3+x;", "x=x-s;", "return s;"]
GC = ["x>s", "s%2==0", "x==2"]


def _stmt(size, inloop):
    if size == 1:
        yield from ATOMS
        if inloop:
            yield "break;"
            yield "continue;"
        return
    for c in GC:
        for b in _stmts(size - 1, inloop):
            yield "if(%s){%s}" % (c, b)
        for l in range(1, size - 1):
            for b in _stmts(l, inloop):
                for e in _stmts(size - 1 - l, inloop):
                    yield "if(%s){%s}else{%s}" % (c, b, e)
        if c == "x>s":
            continue
    if not inloop or size <= 3:
        for c in ["i<n", "x>s"]:
            for b in _stmts(size - 1, True):
                yield "while(%s){i=i+1;%sif(i>9)return 5000-s;}" % (c, b)


def grammar(size, stride=1, phase=0):
    p = Packer("gram%d" % size, 24)
    k = 0
    for idx, b in enumerate(_stmts(size, False)):
        if idx % stride != phase:
            continue
        yield from p.add("int g%d_%d(int n,int x){int s=1;int i=0;%sreturn s*10+x%%7;}" % (size, idx, b), "g%d_%d" % (size, idx), I(0, 1, 2, 3, 6), I(-2, 0, 1, 2, 5))
        k += 1
    yield from p.flush()


def gcount(size):
    return sum(1 for _ in _stmts(size, False))


# --- S3: branch shapes ------------------------------------------------------------------------------------------------------
def chains():
    """if/else-if chains on one variable: dense, sparse, negative, overlapping, with shared and distinct results"""
    p = Packer("chain", 8)
    k = 0
    sets = [list(range(0, 4)), list(range(0, 9)), list(range(-4, 5)), [0, 2, 4, 6, 8, 10, 12], [1, 10, 100, 1000, 10000, 100000], [5, 3, 9, 1, 7, 2], [0, 1, 2, 50, 51, 52], list(range(10, 26)),
            [-2147483647, -5, 0, 5, 2147483647], [0, 1, 3, 4, 5, 7, 8, 9], list(range(0, 40, 3)), [7, 7, 8, 8, 9], [2147483647, 2147483646, 2147483645, 2147483644, 2147483643]]
    results = [lambda i: str(i * 7 + 3), lambda i: "x+%d" % i, lambda i: str(i % 2), lambda i: "x*%d" % (i + 2), lambda i: "y" if i % 2 else "x", lambda i: str((i * 37) % 11)]
    forms = [0, 1, 2, 3]
    for s, r, f in itertools.product(sets, range(len(results)), forms):
        g = results[r]
        fn = "ch_%d" % k
        if f == 0:
            body = "".join("if(x==%d)return %s;" % (v, g(i)) if v >= 0 else "if(x==(%d))return %s;" % (v, g(i)) for i, v in enumerate(s)) + "return -1;"
        elif f == 1:
            body = "int r;" + "else ".join("if(x==%s)r=%s;" % (v if v >= 0 else "(%d)" % v, g(i)) for i, v in enumerate(s)) + "else r=y-9;return r*2;"
        elif f == 2:
            body = "int r=0;" + "".join("if(x!=%s){r=r+1;}else{r=r+%s;}" % (v if v >= 0 else "(%d)" % v, g(i)) for i, v in enumerate(s)) + "return r;"
        else:
            body = "int r=y;" + "else ".join("if(x<=%s)r=%s;" % (v if v >= 0 else "(%d)" % v, g(i)) for i, v in enumerate(sorted(s))) + "else r=y+1;return r;"
        xs = sorted({w for v in s for w in (v - 1, v, v + 1) if abs(w) <= 2147483647} | {-1000000, 1000000, 60})
        k += 1
        yield from p.add("int %s(int x,int y){%s}" % (fn, body), fn, I(*xs), I(-4, 11))
    yield from p.flush()


def conds():
    """short-circuit conditions, nested, negated, in if/while/value position"""
    p = Packer("cond", 12)
    at = ["x<y", "x==3", "y>0", "x", "!y", "x+y>4", "x%2==0", "y!=x"]
    k = 0
    for a, b, c in itertools.product(at, repeat=3):
        if k % 3 == 0:
            e = "(%s)&&(%s)||(%s)" % (a, b, c)
        elif k % 3 == 1:
            e = "(%s)||(%s)&&!(%s)" % (a, b, c)
        else:
            e = "((%s)||(%s))&&(%s)" % (a, b, c)
        m = (k // 3) % 5
        body = ["if(%s)return 1;return 2;" % e, "int r=x;if(%s)r=r+y;else r=r-y;return r;" % e, "int i=0;while((%s)&&i<5){x=x+1;i=i+1;}return x*10+i;" % e,
                "int r=0;if(!(%s))r=x*y;return r;" % e, "int r=1;if(%s){if(x>1)r=2;else r=3;}return r*y;" % e][m]
        yield from p.add("int cd_%d(int x,int y){%s}" % (k, body), "cd_%d" % k, I(-3, -1, 0, 1, 2, 3, 4, 6), I(-2, 0, 1, 3, 5))
        k += 1
    yield from p.flush()


def diamonds():
    """sequences of two/three conditionals with correlated conditions and shared work"""
    p = Packer("diam", 12)
    cs = ["x>y", "x<=y", "x==0", "y<3", "x>2", "x<2"]
    ts = [("a=a+x;", "a=a-x;"), ("a=x*y;", "b=x*y;"), ("b=a;", "a=b;"), ("a=1;", "a=2;"), ("return a;", "b=b+1;"), ("a=a*5;b=x;", "a=a*5;b=y;")]
    k = 0
    for (c1, t1), (c2, t2) in itertools.product(list(itertools.product(cs, ts)), repeat=2):
        for sh in ((k % 3),):
            if sh == 0:
                body = "if(%s){%s}else{%s}if(%s){%s}else{%s}" % (c1, t1[0], t1[1], c2, t2[0], t2[1])
            elif sh == 1:
                body = "if(%s){%sif(%s){%s}}else{%s%s}" % (c1, t1[0], c2, t2[0], t1[1], t2[1] if not t1[1].startswith("return") else "")
            else:
                body = "int i=0;while(i<3){if(%s){%s}else{%sif(%s){%s}}x=x-1;i=i+1;}" % (c1, t1[0], t1[1], c2, t2[0]) if not t1[1].startswith("return") else "if(%s){%s}" % (c2, t2[1])
            yield from p.add("int di_%d(int x,int y){int a=10;int b=20;%sreturn a*100+b;}" % (k, body), "di_%d" % k, I(-2, 0, 1, 2, 3, 5), I(-1, 0, 2, 3, 4))
            k += 1
    yield from p.flush()


def trips():
    """constant trip counts (full/partial unrolling, remainders), known and unknown bounds, several accumulators"""
    p = Packer("trip", 8)
    k = 0
    for n in list(range(0, 20)) + [23, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 1000]:
        for st in (1, 2, 3, 5, 7):
            for body in ("s=s+i;", "s=s*5%997+i;t=t+s;", "if(i%3==x)s=s+i;else t=t+1;", "t=s;s=s+x;"):
                if n > 300 and st == 1 and body[2] == "s":
                    continue
                fn = "tr_%d" % k
                cmp = ["i<%d", "i<=%d", "i!=%d"][k % 3] % (n if k % 3 < 2 else ((n + st - 1) // st) * st)
                yield from p.add("int %s(int x){int i=0;int s=x;int t=1;while(%s){%si=i+%d;}return s+t*3+i;}" % (fn, cmp, body, st), fn, I(-1, 0, 1, 2, 77))
                k += 1
    yield from p.flush()


def syntax_loops():
    """for / do-while / ++ / compound assignment / ternary (language extensions)"""
    p = Packer("ext", 12)
    k = 0
    heads = ["for(i=0;i<n;i++){%s}", "for(i=n;i>0;i--){%s}", "for(i=0;i<n;i+=2){%s}", "for(i=1;i<=n;++i){%s}", "i=0;do{%si++;}while(i<9);", "i=0;if(n>0)do{%si++;}while(i<n);", "i=7;do{i--;%s}while(i>6);", "for(i=0;;i++){if(i>=n)break;%s}",
             "for(i=1;i<n;i*=2){%s}", "for(i=0;i<n;){%si++;}"]
    bodies = ["s+=i;", "if(i==x)continue;s+=i;", "if(i>x)break;s-=i;", "s=i%2?s+1:s*2;", "s+=i>x?i:x;", "s^=i;", "s=(i<x)?(i>1?s+3:s+5):s-1;", "s+=i&3;s<<=1;s&=4095;", "s=s+i++;", "s+=++i;"]
    for h, b in itertools.product(heads, bodies):
        if "continue" in b and ("do{" in h or ";){" in h):
            continue
        yield from p.add("int xl_%d(int n,int x){int s=0;int i;%sreturn s*10+i;}" % (k, h % b), "xl_%d" % k, I(-1, 0, 1, 2, 3, 4, 6, 9), I(-1, 0, 1, 3))
        k += 1
    yield from p.flush()


def dowhile():
    """do-while loops whose condition is false after the first iteration for some inputs (unguarded, runtime bound)"""
    p = Packer("dowhile", 1)
    k = 0
    for h in ["i=0;do{%si++;}while(i<n);", "i=n;do{i--;%s}while(i>0);", "i=x;do{%si=i+2;}while(i<n);"]:
        for b in ["s+=i;", "s=s*3+x;", "if(i==x)s=s+9;else s=s-1;"]:
            yield from p.add("int dw_%d(int n,int x){int s=0;int i;%sreturn s*10+i;}" % (k, h % b), "dw_%d" % k, I(-1, 0, 1, 2, 3, 4, 6, 9, 30), I(-1, 0, 1, 3))
            k += 1
    yield from p.flush()


def accums(stride=1):
    """one or two recurrences carried by a counted loop in either direction: repeated division, multiplication, remainder, sums; the final values are used"""
    heads = [("i=0", "i<n", "i=i+1"), ("i=0", "i>n", "i=i-1"), ("i=n", "i>0", "i=i-1"), ("i=1", "i<=n", "i=i+1"), ("i=0", "i<n", "i=i+2"), ("i=n", "i<0", "i=i+1"), ("i=0", "i>n", "i=i-3"), ("i=0", "i<7", "i=i+1"), ("i=9", "i>-3", "i=i-2"), ("i=m", "i<n", "i=i+1"), ("i=-5", "i<n", "i=i+3"), ("i=20", "i>n", "i=i-4"), ("i=0", "i!=n*n", "i=i+1")]
    recs = ["x=x/2", "x=x/4", "x=x/16", "x=x/3", "x=x/(-4)", "x=x/8", "x=x%7", "x=x*3%11", "x=x+5", "x=x-m", "x=x+i", "x=m-x", "x=x+i*m", "x=x/m", "x=x+y", "x=y", "x=-x", "x=i", "x=i+m", "x=x/256", "x=x*m%101"]
    outs = ["y=y+x", "y=x", "y=y/4", "y=y+i", "y=i", "y=y*2%9", ""]
    p = Packer("accum")
    k = 0
    for h, r, o in itertools.product(heads, recs, outs):
        k += 1
        if k % stride:
            continue
        for ret in (["x", "x*31+y+i"] if k % 2 else ["x-y", "i*7+x"]):
            body = [r, o] if k % 3 else [o, r]
            yield from p.add("int ac_%d_%d(int x,int n,int m){int y=m;int i;%s;while(%s){%s;%s;%s;}return %s;}" % (k, len(ret), h[0], h[1], body[0], body[1], h[2], ret), "ac_%d_%d" % (k, len(ret)), I(-2147483647, -100, -1, 0, 5, 77, 2147483647) if "x=x/" in r else I(-100, -1, 0, 5, 77), I(-9, -2, 0, 1, 2, 3, 8, 15, 17), I(-3, 2, 5))
    yield from p.flush()


def ctrips(quick=True):
    """constant start, bound and step in either direction, every comparison: the loop is unrolled completely or with a remainder"""
    p = Packer("ctrip", 24, glob="int ct_a[80];")
    k = 0
    pairs = [(0, 13), (1, 10), (-4, 5), (3, 3), (5, 4), (0, 20), (2, 62)] if quick else [(a, b) for a in (-9, -4, -1, 0, 1, 2, 3, 5) for b in (-3, 0, 1, 4, 5, 7, 8, 10, 11, 13, 16, 20, 33, 62)]
    steps = (1, 2, 3, 4, 5, 7, 11)
    for (a, b), st in itertools.product(pairs, steps):
        for up in (1, 0):
            for cm in ("<", "<=", "!="):
                lo, hi = a, b
                if cm == "!=":
                    if hi < lo:
                        continue
                    hi = lo + ((hi - lo + st - 1) // st) * st
                if up:
                    start, cond, step = lo, "i%s%d" % (cm, hi), "i=i+%d" % st
                else:
                    start, cond, step = hi, "i%s%d" % (cm.replace("<", ">"), lo), "i=i-%d" % st
                bodies = ["s=s*3+i;", "ct_a[(i+10)%80]=i+x;s=s*5%10007+ct_a[(i+11)%80];", "if(i*i>x)s=s+i;else s=s-1;", "s=s+ct_a[(i+10)%80]*i;ct_a[(i+10+STEP)%80]=s;".replace("STEP", str(st)), "s=i-s;t=s*2+t;"]
                for body in ([bodies[k % 5]] if quick else bodies):
                    fn = "ct_%d" % k
                    yield from p.add("int %s(int x){int i=%d;int s=x;int t=1;while(%s){%s%s;}return s+t*3+i*7;}" % (fn, start, cond, body, step), fn, I(0, 9))
                    k += 1
    yield from p.flush()


# --- conditions tested again -------------------------------------------------------------------------------------------
def retests(stride=1, pure=False):
    """a condition, its negation or a related one tested again after the paths have joined, inside either side, or in a loop"""
    p = Packer("rtp" if pure else "rt", k=12, glob="int rtg@=2;")
    cs = ["x<y", "x>=y", "y>x", "x<=y", "x==y", "x!=y", "x>y", "!(x<y)", "x<y&&x>0", "x<y||x>0", "x", "x>2", "x<3", "x==3", "x-y"]
    sh = ["if(C){g=g+x;r=y;} g=g*3+1; if(D)r=r+100; return r;",
          "if(C)r=x*2;else{g=g+1;r=y;} g=g*3+r; if(D)r=r+100;else r=r-7; return r;",
          "if(C){g=g+x;if(D)r=y+g;else r=3;}else{if(D){g=9;r=5;}else r=g+6;} if(D)r=r+20; return r;",
          "if(C)return y+g; g=g+2; if(D)r=r+x;else{g=g+5;r=4;} return r*2+g;",
          "int i=0;while(i<3){if(C){g=g+i;r=r+x;}else r=r+1; if(D)g=g*2+1; i=i+1;x=x+1;} return r*10+g;",
          "int i=0;while(i<4&&C){if(D){g=g+x;}else{r=r+y;} i=i+1; x=x+1;} if(D)r=r+50; return r+g;",
          "if(C){g=1;}else if(D){g=2;}else{g=3;} r=g*4; if(D){g=g+x;} if(C)r=r+8; return r+g;",
          "if(C){g=4;} if(D){g=g+y;} if(C){r=g+1;g=g*2;}else r=g-1; if(D)r=r*5; return r+g;",
          "if((C)==(D)){g=g+x;}else r=y; if(C)g=g*2+1; if(D)r=r+g; return r;",
          "if(C);else{g=g+x;r=y;} g=g*3+1; if(D)r=r+100; return r;",
          "if(C){}else{if(D)g=g+x;else{g=g*5;r=y;}} g=g*3+1; if(D){}else r=r+100; if(C)g=g+3; return r;",
          "while(C){g=g*2+x;x=x+1;if(D)r=r+1;if(g>100)return r;} if(C)g=g+7; if(D)r=r+10; return r;",
          "int t=C;int u=D;if(t){g=g+2;}if(u){g=g*3;}if(t){r=g;}else if(!u){r=g+x;g=0;} return r+t+u*2;"]
    k = 0
    n = 0
    for s in sh:
        for a, b in itertools.product(cs, repeat=2):
            n += 1
            if n % stride:
                continue
            k += 1
            g = "rtg%d" % p.n
            body = s.replace("g", g)
            for u, v in (("C", "(%s)" % a), ("D", "(%s)" % b)):
                for pat in ("if(%s)", "(%s)", "&&%s", "=%s;"):
                    body = body.replace(pat % u, pat.replace("(%s)", "%s") % v)
            pre = ["%s=2;" % g, "", "putint(%s);" % g][0 if pure else (k // 3) % 3]
            yield from p.add("int rt%d(int x,int y){int r=0;%s%s}" % (k, pre, body), "rt%d" % k, I(-2, 0, 1, 2, 3, 4), I(-1, 0, 2, 3, 4))
    yield from p.flush()


def longtrips():
    """loops whose trip count is far beyond any unrolling and whose sums come close to the ends of the int range"""
    p = Packer("long", k=6, limit=3000000)
    heads = ["int i=0;while(i<n){B i=i+1;}", "int i=n;while(i>0){B i=i-1;}", "int i=0;while(i<=n){B i=i+3;}", "int i=n-1;while(i>=0){B i=i-2;}", "int j=0;int i=0;while(j<n/256){i=j;int k=0;while(k<256){B k=k+1;i=i+1;}j=j+1;}",
             "int i=x;while(i<n){B if(s==123456)break;i=i+1;}"]
    bodies = ["s=s+i;", "s=s-i;", "s=s+x;", "s=s+i*2-n;", "s=s+x*i;", "s=s+i/2;", "s=(s+i)%1000;", "if(x>0)s=s+i;", "s=s+i%7-3;", "s=s+(n-i);", "s=s*3%10007+i;"]
    m = 0
    for h, b in itertools.product(heads, bodies):
        m += 1
        f = "long%d" % m
        yield from p.add("int %s(int n,int x){int s=x;%sreturn s*2+i;}" % (f, h.replace("B", b)) if "s+i;" not in b else "int %s(int n,int x){int s=x;%sreturn s;}" % (f, h.replace("B", b)), f, I(32767, 40000, 46341, 65535), I(-1, 0, 1))
    yield from p.flush()


def arms():
    """arms of a conditional which do the same thing but differ in one of several values they hand on: every pair of value assignments under
    every common statement, joined, returned, or inside a loop"""
    p = Packer("arms", k=16, limit=3000, glob="int ar@_g=1;int ar@_a[3]={4,5,6};")
    sides = ["", "@g=@g+x;", "putint(x);", "@a[1]=x;@g=@a[0];", "w=@g*x+n;@g=w;"]
    vals = ["1", "2", "x", "n"]
    forms = ["if(x>0){A}else if(n>1){B}else{C}return y*100+z*10+w+@g;", "int i=0;while(i<n){if(x>i){A}else if(i%2){B}else{C}x=x+y-z;i=i+1;}return x*100+y*10+z+@g;",
             "if(x==1){A}if(n==2){B}return y*100+z*10+w+@g;", "if(x>0&&n>1){A}else{if(x<n||n==1){B}else{A}}return y*100+z*10+w+@g;"]
    m = 0
    for fi, s, (a, b), (c, d) in itertools.product(range(len(forms)), sides, itertools.product(vals, repeat=2), itertools.product(vals, repeat=2)):
        m += 1
        if (a, b) == (c, d) or a != c and b != d:
            continue
        arm = lambda u, v: "%sy=%s;z=%s;" % (s, u, v)  # noqa: E731
        body = forms[fi].replace("A", arm(a, b)).replace("B", arm(c, d)).replace("C", arm(a, d if b == a else b)).replace("@", "ar%d_" % p.n)
        yield from p.add("int arms%d(int x,int n){int y=0;int z=0;int w=3;%s}" % (m, body), "arms%d" % m, I(-1, 0, 1, 2, 5), I(0, 1, 2, 3))
    yield from p.flush()
