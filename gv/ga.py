"""Independent geometric algebra oracle: blades are bit sets of generators, metric is diagonal.
Written from the textbook definitions (products by counting transpositions of generator lists), not from the library."""

class Alg:
    def __init__(self, name, sig, null=False):
        self.name, self.sig, self.dim, self.null = name, sig, len(sig), null
        self.ps = (1 << self.dim) - 1
        self._t = {}

    def blade(self, a, b):
        """geometric product of basis blades -> (blade, sign) by explicit sorting of the generator list"""
        k = (a, b)
        r = self._t.get(k)
        if r is None:
            l = [i for i in range(self.dim) if a >> i & 1] + [i for i in range(self.dim) if b >> i & 1]
            s = 1
            n = len(l)
            for i in range(n):
                for j in range(n - 1 - i):
                    if l[j] > l[j + 1]:
                        l[j], l[j + 1] = l[j + 1], l[j]
                        s = -s
            out = []
            i = 0
            while i < n:
                if i + 1 < n and l[i] == l[i + 1]:
                    s *= self.sig[l[i]]
                    i += 2
                else:
                    out.append(l[i]); i += 1
            e = 0
            for i in out:
                e |= 1 << i
            r = self._t[k] = (e, s)
        return r

    def prod(self, kind, x, y):
        r = {}
        for a, ca in x.items():
            for b, cb in y.items():
                e, s = self.blade(a, b)
                if s == 0:
                    continue
                ga, gb, g = bin(a).count("1"), bin(b).count("1"), bin(e).count("1")
                if kind == "ep" and g != ga + gb:
                    continue
                if kind == "lc" and g != gb - ga:
                    continue
                if kind == "sip" and (ga == 0 or gb == 0 or g != abs(ga - gb)):
                    continue
                if kind == "sp" and g != 0:
                    continue
                v = ca * cb
                if s < 0:
                    v = -v
                r[e] = r[e] + v if e in r else v
        return r

    def ep(self, x, y):
        """exterior product (metric independent)"""
        r = {}
        for a, ca in x.items():
            for b, cb in y.items():
                if a & b:
                    continue
                s = 0
                for j in range(self.dim):
                    if b >> j & 1:
                        s += bin(a >> (j + 1)).count("1")
                v = ca * cb
                if s & 1:
                    v = -v
                e = a | b
                r[e] = r[e] + v if e in r else v
        return r

    def add(self, x, y, s=1):
        r = dict(x)
        for e, v in y.items():
            w = v if s == 1 else -v
            r[e] = r[e] + w if e in r else w
        return r

    def scale(self, x, c):
        return {e: v * c for e, v in x.items()}

    def rev(self, x):
        r = {}
        for e, v in x.items():
            g = bin(e).count("1")
            r[e] = -v if (g * (g - 1) // 2) & 1 else v
        return r

    def dual(self, x):
        """right complement: X ^ dual(X) = pseudoscalar"""
        r = {}
        for e, v in x.items():
            c = self.ps ^ e
            s = 0
            for j in range(self.dim):
                if c >> j & 1:
                    s += bin(e >> (j + 1)).count("1")
            r[c] = -v if s & 1 else v
        return r

    # null basis: generators dim-2 = no, dim-1 = ni;  ep = no - ni/2, en = no + ni/2
    def to_natural(self, x):
        if not self.null:
            return x
        from fractions import Fraction
        h = Fraction(1, 2)
        p, n = 1 << (self.dim - 2), 1 << (self.dim - 1)
        r = {}
        def acc(e, v):
            r[e] = r[e] + v if e in r else v
        for e, v in x.items():
            k = e & (p | n)
            b = e & ~(p | n)
            if k == p:          # no = (ep + en)/2
                acc(b | p, v * h); acc(b | n, v * h)
            elif k == n:        # ni = en - ep
                acc(b | p, -v); acc(b | n, v)
            else:
                acc(e, v)
        return r

    def to_null(self, x):
        if not self.null:
            return x
        from fractions import Fraction
        h = Fraction(1, 2)
        p, n = 1 << (self.dim - 2), 1 << (self.dim - 1)
        r = {}
        def acc(e, v):
            r[e] = r[e] + v if e in r else v
        for e, v in x.items():
            k = e & (p | n)
            b = e & ~(p | n)
            if k == p:          # ep = no - ni/2
                acc(b | p, v); acc(b | n, -(v * h))
            elif k == n:        # en = no + ni/2
                acc(b | p, v); acc(b | n, v * h)
            else:
                acc(e, v)
        return r

VGA = Alg("vga", [1, 1, 1])
PGA = Alg("pga", [0, 1, 1, 1])
PGA2 = Alg("pga2", [0, 1, 1])
CGA = Alg("cga", [1, 1, 1, 1, -1], null=True)
CGA2 = Alg("cga2", [1, 1, 1, -1], null=True)
ALG = {a.name: a for a in (VGA, PGA, PGA2, CGA, CGA2)}

# user-defined models: any signature (p, v, r), generators ordered degenerate, positive, negative as in the library
GENERIC = {}
for _m in [(1, 0, 0), (2, 0, 0), (0, 2, 0), (1, 1, 0), (1, 3, 0), (1, 1, 1), (0, 1, 1), (4, 0, 0), (2, 2, 0), (0, 0, 2), (2, 1, 1), (3, 0, 2), (2, 3, 0), (0, 3, 0), (1, 2, 1), (4, 1, 1), (3, 3, 0), (5, 1, 1)]:
    _n = "m%d%d%d" % _m
    GENERIC[_n] = _m
    ALG[_n] = Alg(_n, [0] * _m[2] + [1] * _m[0] + [-1] * _m[1])
