"""Register pressure: many simultaneous values, parallel copies at loop back edges, spills, frames with arrays, constants in wide forms."""
import itertools
from harness import Unit, I, F, A, FA
from .control import Packer

OPSI = ["+", "-", "*"]


def straight():
    """n values defined, then used in every one of several orders; ints, floats and both"""
    p = Packer("rp", k=8)
    k = 0
    orders = ["i", "n-1-i", "(i*3)%n if n%3 else i", "(i+n//2)%n", "i^1 if (i^1)<n else i", "(i*5)%n if n%5 else n-1-i"]
    for n, o, ty, form in itertools.product((2, 6, 10, 13, 14, 15, 16, 18, 24, 28, 31, 32, 40, 64), orders, ("int", "float", "mix"), (0, 1, 2)):
        if (k_ := (n * 7 + len(o) + form)) % 2 and n not in (13, 14, 16, 28, 32):
            continue
        k += 1
        T = [("int" if ty == "int" or (ty == "mix" and i % 2) else "float") for i in range(n)]
        dec = ""
        for i in range(n):
            prev = "v%d" % (i - 1) if i else "a"
            if T[i] == "int":
                dec += "int v%d=%s;" % (i, ["a*%d+b" % (i + 2), "p[%d]" % i, "a+%d-b*%d" % (i * 77, i)][form])
            else:
                dec += "float v%d=%s;" % (i, ["x*%d+y" % (i % 8 + 2), "q[%d]" % i, "x-%d+y*%d" % (i * 7, i % 8)][form])
        idx = [eval(o, {"i": i, "n": n}) for i in range(n)]
        use = ""
        for j, i in enumerate(idx):
            use += "r=r*%s+v%d;" % ("3" if ty == "int" and n < 20 else "1", i) if j % 2 else "r=r-v%d;" % i
        # redefine half of them in the middle
        mid = "".join("v%d=v%d-v%d;" % (idx[j], idx[-1 - j], idx[j]) for j in range(0, n // 2, 2))
        rt = "int" if ty == "int" else "float"
        yield from p.add("%s rp%d(int a,int b,float x,float y,int p[],float q[]){%s%s%s r=0;%s%sreturn r;}" % (rt, k, dec, "" if form == 2 else mid, rt, use, "p[1]=r;" if ty == "int" else "q[1]=r;"), "rp%d" % k,
                         I(1, -3), I(2, 5), F(0.5, -2), F(3), A([(j * 37) % 23 - 9 for j in range(64)]), FA([((j * 29) % 17 - 8) / 2 for j in range(64)]))
    yield from p.flush()


def trees():
    """balanced and skewed expression trees: evaluation pressure"""
    p = Packer("rt", k=8)
    k = 0

    def bal(lo, hi, d, f):
        if hi - lo == 1:
            return f(lo)
        m = (lo + hi) // 2
        o = "+-"[(lo + d) % 2] if d % 3 else "-+"[d % 2]
        return "(%s%s%s)" % (bal(lo, m, d + 1, f), o, bal(m, hi, d + 1, f))

    def skew(lo, hi, f, left):
        e = f(lo)
        for i in range(lo + 1, hi):
            e = "(%s%s%s)" % ((e, "-+"[i % 2], f(i)) if left else (f(i), "-+"[i % 2], e))
        return e
    for n in (4, 8, 16, 24, 32, 48, 64):
        for kind in (0, 1, 2):
            for leaf in ("p[%d]", "(a*%d)", "(p[%d]*b)", "(p[a+%d]-p[%d])"):
                f = (lambda i: leaf % ((i % 40,) * leaf.count("%d")))
                e = bal(0, n, 0, f) if kind == 0 else skew(0, n, f, kind == 1)
                k += 1
                yield from p.add("int rt%d(int a,int b,int p[]){return %s;}" % (k, e), "rt%d" % k, I(0, 1, 7), I(-1, 3), A([(j * 37) % 23 - 9 for j in range(64)]))
                if leaf != "(a*%d)":
                    k += 1
                    yield from p.add("float rt%d(int a,float b,float p[]){return %s;}" % (k, e), "rt%d" % k, I(0, 1, 7), F(-1, 2), FA([((j * 29) % 17 - 8) / 2 for j in range(64)]))
    yield from p.flush()


def copies(quick=True):
    """parallel copies: every map of loop-carried variables into themselves, in the order that needs temporaries"""
    p = Packer("rc", k=12)
    k = 0
    for n in (2, 3, 4):
        V = "abcd"[:n]
        for t in itertools.product(V, repeat=n):
            for ty in ("int", "float"):
                if ty == "float" and n == 4 and (quick and k % 4):
                    k += 1
                    continue
                k += 1
                body = "".join("%s t%s=%s;" % (ty, v, w) for v, w in zip(V, t)) + "".join("%s=t%s;" % (v, v) for v in V)
                par = ",".join("%s %s" % (ty, v) for v in V)
                ret = "+".join("%s*%d" % (v, 10 ** i) for i, v in enumerate(V))
                vals = [(I if ty == "int" else F)(i + 2) for i in range(n)]
                yield from p.add("%s rc%d(%s,int z){int i=0;while(i<z){%si=i+1;}return %s;}" % (ty, k, par, body, ret), "rc%d" % k, *vals, I(0, 1, 2, 3, 5))
    # with arithmetic on the moved values
    for t in itertools.product(["a", "b", "c", "a+1", "b-c", "c*2"], repeat=3):
        k += 1
        yield from p.add("int rc%d(int a,int b,int c,int z){int i=0;while(i<z){int x=%s;int y=%s;int w=%s;a=x;b=y;c=w;i=i+1;}return a*100+b*10+c;}" % ((k,) + t), "rc%d" % k, I(2), I(5), I(-3), I(0, 1, 2, 4))
    yield from p.flush()


def big_copies(sizes=(6, 9, 12, 14), pre="rb"):
    """many loop-carried variables, rotated and reversed at the back edge, with branches inside"""
    p = Packer(pre, k=3)
    k = 0
    for n, m, kind, br in itertools.product(sizes, ("int", "float", "mix"), range(5), (0, 1, 2)):
        if (n + kind + br) % 3 == 0 and n not in (12, 14, 30):
            continue
        k += 1
        T = ["int" if m == "int" or (m == "mix" and i % 2) else "float" for i in range(n)]
        dec = "".join("%s v%d=%s;" % (T[i], i, "a+%d" % i if T[i] == "int" else "x+%d" % i) for i in range(n))
        st = 2 if m == "mix" else 1
        src = {0: lambda i: (i + st) % n, 1: lambda i: (i - st) % n, 2: lambda i: n - 1 - i if m != "mix" else (n - 1 - i) // 2 * 2 + i % 2 if n % 2 == 0 else (i + 2) % n, 3: lambda i: i ^ st if (i ^ st) < n else i, 4: lambda i: (i * 3 + 2) % n if m != "mix" else (i + 4) % n}[kind]
        # all reads before all writes
        rot = "".join("%s t%d=v%d;" % (T[i], i, src(i)) for i in range(n)) + "".join("v%d=t%d;" % (i, i) for i in range(n))
        if br == 1:
            rot = "if(i%%2==c){%s}else{v0=v0+1;}" % rot
        if br == 2:
            rot += "if(v0>c+3)v1=v1+%d;" % 2
        ret = "r=0;" + "".join("r=r+v%d*%d;" % (i, i % 7 + 1) for i in range(n))
        rt = "int" if m == "int" else "float"
        yield from p.add("%s %s%d(int a,float x,int c,int z){%sint i=0;while(i<z){%si=i+1;}%s %sreturn r;}" % (rt, pre, k, dec, rot, rt, ret), "%s%d" % (pre, k), I(1, -4), F(0.5), I(0, 1), I(0, 1, 2, 3, 7))
    yield from p.flush()


def loop_pressure():
    """accumulators in (nested) loops over arrays: values live through the loop but not used in it"""
    p = Packer("rl", k=6)
    k = 0
    for n, m, nest, use in itertools.product((2, 5, 8, 10, 12, 14, 17, 22, 30), (0, 2, 6, 15, 17, 24), (0, 1), (0, 1, 2)):
        if m > 2 and n not in (2, 10, 14, 22) or (n + m + use) % 2:
            continue
        k += 1
        dec = "".join("int v%d=a*%d+%d;" % (i, i + 1, i) for i in range(n)) + "".join("float w%d=x+%d;" % (i, i) for i in range(m))
        if use == 0:
            body = "".join("v%d=v%d+p[(i+%d)%%8];" % (i, i, i % 8) for i in range(n)) + "".join("w%d=w%d+q[i];" % (i, i) for i in range(m))
        elif use == 1:
            body = "v0=v0+p[i];" + ("w0=w0-q[i];" if m else "")
        else:
            body = "if(p[i]>c){%s}else{%s}" % ("".join("v%d=v%d+v%d;" % (i, i, (i + 1) % n) for i in range(0, n, 2)), "".join("v%d=v%d-1;" % (i, i) for i in range(n - 1, -1, -3)) + "".join("w%d=w%d+1;" % (i, i) for i in range(m)))
        loop = "int i=0;while(i<z){%si=i+1;}" % body
        if nest:
            loop = "int j=0;while(j<2){%sj=j+1;}" % loop
        ret = "float r=0;" + "".join("r=r+v%d*%d;" % (i, i % 5 + 1) for i in range(n)) + "".join("r=r+w%d*%d;" % (i, i % 5 + 2) for i in range(m))
        yield from p.add("float rl%d(int a,float x,int c,int z,int p[],float q[]){%s%s%sreturn r;}" % (k, dec, loop, ret), "rl%d" % k, I(1, -2), F(0.5), I(0), I(0, 1, 4, 8), A([3, -1, 4, 1, -5, 9, 2, 6]), FA([1, 2, 0.5, -1, 4, 0, -2, 8]))
    yield from p.flush()


FR = [1, 2, 7, 31, 62, 63, 64, 100, 127, 128, 200, 240]
FRL = [255, 300]


def frames(sizes=None, pre="fr"):
    """local arrays of every size around the addressing limits, with other scalars and arrays next to them, recursion keeps them in the frame"""
    p = Packer(pre, k=6, glob="int fg@[4]={1,2,3,4};")
    k = 0
    for s in sizes or FR:
        for form in range(5):
            k += 1
            n = "%s%d" % (pre, k)
            rec = "_cmmc_noinline_%s" % n
            if form == 0:
                src = "int %s(int a,int b,int d){int w[%d];w[0]=a;w[%d]=b;w[a%%%d]=w[0]+1;if(d>0)w[%d]=%s(a+1,b,d-1);return w[0]*3+w[%d]+w[b%%%d]%%2;}" % (rec, s, s - 1, s, s // 2, rec, s - 1, 1)
                src = src.replace("w[b%%1]%%2".replace("%%", "%"), "w[%d]" % (s // 2) if s > 2 else "w[0]")
                if s > 2:
                    src = src.replace("w[%d]=%s" % (s // 2, rec), "w[%d]=7;if(d>0)w[%d]=%s" % (s // 2, s // 2, rec)) if False else src.replace("{int w[%d];" % s, "{int w[%d];w[%d]=5;" % (s, s // 2))
            elif form == 1:
                src = "int %s(int a,int b,int d){int w[%d];int u[8];int i=0;while(i<8){u[i]=a*i;i=i+1;}i=0;while(i<%d){w[i]=i*b;i=i+1;}if(d>0)u[a%%8]=%s(a+1,b,d-1);return w[%d]+u[a%%8]*3+u[7]+w[a%%%d];}" % (rec, s, s, rec, s - 1, s)
            elif form == 2:
                src = "int %s(int a,int b,int d){int w[%d]={};float f[%d]={1.5};f[%d]=b;w[%d]=a;if(d>0){w[%d]=w[%d]+%s(a,b+1,d-1);}return w[%d]*2+f[%d]+w[0]+f[0];}" % (rec, s, s, s - 1, s - 1, s // 2, s // 2, rec, s - 1, s - 1)
            elif form == 3:
                sc = "".join("int v%d=a+%d*b;" % (i, i) for i in range(18))
                src = "int %s(int a,int b,int d){int w[%d]={1,2};%sif(d>0)w[%d]=%s(a,b+1,d-1);return w[0]+w[%d]+%s;}" % (rec, s, sc, s - 1, rec, s - 1, "+".join("v%d*%d" % (i, i + 1) for i in range(18))) if s > 1 else None
            else:
                src = "int _cmmc_noinline_h%s(int w[],int i){w[i]=w[i]+5;return w[0];}int %s(int a,int b,int d){int w[%d]={};int u[3]={a,b,d};w[%d]=b;int r=_cmmc_noinline_h%s(w,%d)+_cmmc_noinline_h%s(u,d%%3);if(d>0)r=r+%s(a,b,d-1);return r+w[%d]*2+u[0]+u[2];}" % (n, rec, s, s - 1, n, s - 1, n, rec, s - 1)
            if src is None:
                continue
            yield from p.add("%sint %s(int a,int b,int d){return %s(a,b,d)+a;}" % (src, n, rec), n, I(0, 3), I(2), I(0, 1, 2))
    yield from p.flush()


def wide():
    """constants in every materialisation form, used as operands, offsets and array indices"""
    p = Packer("rw", k=16)
    C = sorted({s * (v + d) for e in range(0, 32) for v in [1 << e] for d in (-1, 0, 1) for s in (1, -1) if -2147483648 <= s * (v + d) <= 2147483647} | {0x12345678, -0x12345678, 0x00FF00FF, 0x7F00FF00, 0xFF0000, 0x3FC00, 0x104, 0x1020408, 0x55555555, -0x55555556, 1103515245, 0xABCD0000 - 2**32, 0x0000ABCD, 0x7FFFF800, 0x7FFFF7FF, -2147481600, 0xFFF, 0xFFFFF000 - 2**32})
    k = 0
    for c in C:
        k += 1
        cc = "(%d)" % c if c > -2147483648 else "(-2147483647-1)"
        yield from p.add("int rw%d(int a){int b=a;if(a>2){b=%s;}return b;}" % (k, cc), "rw%d" % k, I(0, 3))
        k += 1
        yield from p.add("int rw%d(int p[],int a){p[0]=%s;if(p[1]==%s)p[2]=a;return p[a];}" % (k, cc, cc), "rw%d" % k, A([0, c, 1]), I(0, 1, 2))
        if abs(c) < 2 ** 30:
            k += 1
            yield from p.add("int rw%d(int a,int b){return (a+%s)-(b-%s);}" % (k, cc, cc), "rw%d" % k, I(0, 1, -1), I(3))
        k += 1
        yield from p.add("float rw%d(float a){return a+%s;}" % (k, "%d.0" % c), "rw%d" % k, F(0, 1.5))
    yield from p.flush()


def offsets():
    """element addresses at every distance around the load/store immediate limits"""
    p = Packer("ro", k=16, glob="int og@[70000];float of@[20000];")
    k = 0
    offs = [0, 1, 62, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 19999]
    for o in offs:
        for e in ("og@[%d]=a;return og@[%d]+og@[b];", "og@[b+%d]=a;return og@[b+%d]+og@[b];", "of@[%d]=a;return of@[%d]+of@[b];", "int r=og@[b+%d]+1;og@[%d]=r*a;return r;", "return p[%d]+p[b+%d]-a if0;"):
            if "if0" in e:
                continue
            k += 1
            yield from p.add("int ro%d(int a,int b){%s}" % (k, (e % (o, o)).replace("@", str(p.n))), "ro%d" % k, I(5, -3), I(0))
            k += 1
            if "og" in e and o < 1000:
                yield from p.add("int ro%d(int p[],int a,int b){%s}" % (k, (e % (o, o)).replace("og@", "p")), "ro%d" % k, A(list(range(1100))), I(5, -3), I(0, 1))
    # negative offsets through a loop counter
    for o in offs[:20]:
        k += 1
        yield from p.add("int ro%d(int a){int i=%d;int s=0;while(i<%d){og%d[i]=a+i;s=s+og%d[i-%d];i=i+1;}return s;}" % (k, o, o + 5, p.n, p.n, o), "ro%d" % k, I(2, -7))
    # two-dimensional
    for r, c in itertools.product((2, 3, 16, 64, 100), (1, 3, 16, 63, 64, 65, 100, 128)):
        k += 1
        yield from p.add("int oh%d[%d][%d];int ro%d(int a,int i,int j){oh%d[i][j]=a;oh%d[%d][%d]=a+1;oh%d[i][%d]=oh%d[i][%d]+oh%d[%d][j];return oh%d[i][j]+oh%d[%d][0];}" % (k, r, c, k, k, k, r - 1, c - 1, k, c - 1, k, c - 1, k, r - 1, k, k, r - 1), "ro%d" % k, I(5), I(0, r - 1), I(0, c - 1))
    yield from p.flush()


def addressing():
    """fused address arithmetic: base + (index << k) + offset in every combination"""
    p = Packer("ra", k=16)
    k = 0
    ix = ["i", "i+1", "i-1", "i*2", "i*3", "i+j", "i-j", "i*2+j", "i/2", "i%4", "j*4+i", "n-i", "(i+j)/2", "i*5-3*i", "i+i"]
    for x, y in itertools.product(ix, ix[:11]):
        for f in ("return p[%s+8]-p[%s+8];", "p[%s+8]=p[%s+8]+j;return p[i+8];", "q[%s+8]=q[%s+8]+j;return q[i+8];", "int s=0;while(i<n){s=s+p[%s+8]*2-p[%s+8];i=i+1;}return s;"):
            k += 1
            if k % 2 and "q[" in f:
                continue
            yield from p.add("float ra%d(int p[],float q[],int i,int j,int n){%s}" % (k, f % (x, y)), "ra%d" % k, A([(t * 37) % 41 - 9 for t in range(64)]), FA([((t * 29) % 17 - 8) / 2 for t in range(64)]), I(0, 1, 3), I(0, 2), I(3, 4))
    yield from p.flush()


def long_functions(sizes=(20, 40), pre="lg", far=(160,)):
    """bodies of many statements inside loops and conditionals: far branches, far constants, many blocks"""
    for n in tuple(sizes) + tuple(far):
        for kind in range(6) if n in sizes else (2, 3):
            f = "%s%d_%d" % (pre, n, kind)
            if kind == 0:  # far backward branch
                b = "int i=0;int s=a;while(i<b){%s i=i+1;}return s;" % "".join("s=(s+p[%d])%%1000003;p[%d]=s+%d;" % (j % 16, (j * 7) % 16, j * 37) for j in range(n))
            elif kind == 1:  # far forward branch, constants
                b = "int s=b;if(a>0){%s}else{%s}return s;" % ("".join("s=(s+%d)%%1000003;if(s>%d)s=s-p[%d];" % (1000003 * (j + 1) % 1999999, 70000 + j * 991, j % 16) for j in range(n // 2)), "".join("s=(s+%d)%%999983;" % (j * 65539 % 1999993) for j in range(n // 2)))
            elif kind == 2:  # float constants
                b = "float x=a;int s=0;%s s=x;return s;" % "".join("x=x*0.5+%d.%d;" % (j % 90, 25 if j % 2 else 125) for j in range(n))
            elif kind == 3:  # many calls
                b = "int s=a;%s return s;" % "".join("s=(s+%sh_cmmc_noinline(s%%%d,%d))%%10007;" % (f, j + 2, j) for j in range(n))
            elif kind == 4:  # cascade of comparisons
                b = "%sreturn b;" % "".join("if(a==%d){b=b*3+p[%d];return b+%d;}" % (j * 3, j % 16, j) for j in range(n))
            else:  # nested loops with early exits around a long body
                b = "int s=0;int i=0;while(i<b){int j=0;while(j<2){%s j=j+1;}if(s>900000)break;i=i+1;}return s+i;" % "".join("if(s%%%d==%d)s=s+p[%d]+%d;else s=s+j;" % (j % 5 + 2, j % 2, j % 16, j) for j in range(n))
            src = ("int %sh_cmmc_noinline(int x,int y){if(x>y)return x-y;return y*2;}" % f if kind == 3 else "") + "int %s(int a,int b,int p[]){%s}" % (f, b)
            yield Unit("%s/%d.%d" % (pre, n, kind), src, [(f, [I(0, 3, 300), I(0, 2), A(list(range(1, 17)))])], weight=3)


def merged():
    """many values set by the arms of a conditional, by constants or computations in every combination, or taken from stack arguments and
    changed in some arms only, all live afterwards across loops and calls"""
    p = Packer("rm", k=4, limit=20000, glob="int rm@_g=1;int rm@_cmmc_noinline_k(int x){rm@_g=rm@_g+x;return rm@_g*3-x;}")
    k = 0
    setters = {"e": lambda i, n: "a*%d+b" % (i + 3), "c": lambda i, n: "%d" % (i * 7 + 100000), "s": lambda i, n: "%d" % (i % 5), "k": lambda i, n: "v%d" % i, "o": lambda i, n: "b-%d" % i}
    for n, (x, y), side, after, ty in itertools.product((6, 12, 16, 24, 40), itertools.permutations("ecsko", 2), (0, 1, 2), (0, 1), ("int", "float", "args")):
        k += 1
        if (k + k // 7) % 3 or ty == "args" and n > 16:
            continue
        pr = "rm%d_" % p.n
        V = ["v%d" % i for i in range(n)]
        f32 = ty == "float"

        def arm(c, rot):
            return "".join("%s=%s;" % (V[(i + rot) % n], setters[c]((i + rot) % n, n)) for i in range(n) if c != "k")
        i1, i2 = [("", ""), ("putint(a);", ""), (pr + "g=a;", pr + "cmmc_noinline_k(b);")][side]
        body = "if(a>b){%s%s}else{%s%s}" % (i1, arm(x, 0), arm(y, n // 2), i2)
        if ty != "args":
            body = "%s %s;" % (ty, ",".join("%s=%s" % (v, "a+%d" % i) for i, v in enumerate(V))) + body
        use = "".join("r=r%s%s*%d;" % ("-+"[i % 2], v, i % 5 + 1) for i, v in enumerate(V))
        if f32:
            body += "float r=0;%s" % use if after == 0 else "float r=0;int i=0;while(i<3){r=r/2+i;%sif(i==a)%s=%s+1;i=i+1;}" % (use, V[1], V[n - 1])
            body += "r=r/1024;int z=r;return z;"
        else:
            body += "int r=0;%sr=r+%scmmc_noinline_k(r);%s" % (use, pr, use) if after == 0 else "int r=0;int i=0;while(i<3){r=r/2+i;%sif(i==a)%s=%s+1;i=i+1;}" % (use, V[1], V[n - 1])
            body += "return r;"
        f = "rm%d" % k
        if ty == "args":
            g = "int %scmmc_noinline_f%d(int a,int b,%s){%s}" % (pr, k, ",".join("int " + v for v in V), body)
            yield from p.add(g + "int %s(int a,int b){return %scmmc_noinline_f%d(a,b,%s);}" % (f, pr, k, ",".join("a*%d-b" % (i + 1) for i in range(n))), f, I(0, 2, 5), I(1, 4))
        else:
            yield from p.add("int %s(int a,int b){%s}" % (f, body), f, I(0, 2, 5), I(1, 4))
    yield from p.flush()
