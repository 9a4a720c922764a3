"""Values: ints are Python ints (concrete, unsigned) or z3 bit-vectors; i1 is int 0/1 or z3 Bool; pointers are Ptr."""
import z3
z3.set_param("memory_high_watermark_mb", 3500) if False else None

class Unsupported(Exception):
    pass

class Ptr:
    __slots__ = ("reg", "off")
    def __init__(self, reg, off=0):
        self.reg = reg; self.off = off
    def __repr__(self): return "Ptr(%s,%s)" % (self.reg, self.off)

NULL = Ptr(0, 0)

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def is_c(v): return isinstance(v, int)

def norm(e):
    """collapse z3 numerals to Python values"""
    if isinstance(e, int): return e
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

_size_cache = {}
def simp(e):
    if isinstance(e, int): return e
    return norm(z3.simplify(e))

def V(v, w):
    """as z3 bit-vector of width w"""
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v

def B(v):
    """as z3 Bool"""
    if isinstance(v, int): return z3.BoolVal(v != 0)
    if z3.is_bool(v): return v
    return v == z3.BitVecVal(1, v.size())

def add64(a, b):
    if is_c(a) and is_c(b): return (a + b) & mask(64)
    if is_c(a) and a == 0: return b
    if is_c(b) and b == 0: return a
    return norm(z3.simplify(V(a, 64) + V(b, 64)))

def sub64(a, b):
    if is_c(a) and is_c(b): return (a - b) & mask(64)
    if is_c(b) and b == 0: return a
    return norm(z3.simplify(V(a, 64) - V(b, 64)))

def mul64(a, k):
    if is_c(a): return (a * k) & mask(64)
    if k == 1: return a
    return norm(z3.simplify(V(a, 64) * z3.BitVecVal(k & mask(64), 64)))

def eqv(a, b, w=64):
    if is_c(a) and is_c(b): return 1 if a == b else 0
    if w == 1: return simp(B(a) == B(b))
    r = z3.simplify(V(a, w) == V(b, w))
    return norm(r)

def andb(*xs):
    ys = []
    for x in xs:
        if is_c(x):
            if not x: return 0
        else: ys.append(x)
    if not ys: return 1
    return ys[0] if len(ys) == 1 else z3.And(*ys)

def orb(*xs):
    ys = []
    for x in xs:
        if is_c(x):
            if x: return 1
        else: ys.append(x)
    if not ys: return 0
    return ys[0] if len(ys) == 1 else z3.Or(*ys)

def notb(x):
    if is_c(x): return 0 if x else 1
    return z3.Not(x)

def ite(c, a, b, w):
    if is_c(c): return a if c else b
    if a is b: return a
    if is_c(a) and is_c(b) and a == b: return a
    if w == 1:
        return norm(z3.simplify(z3.If(c, B(a), B(b))))
    return z3.If(c, V(a, w), V(b, w))

def ule(a, b, w=64):
    if is_c(a) and is_c(b): return 1 if a <= b else 0
    return simp(z3.ULE(V(a, w), V(b, w)))
def ult(a, b, w=64):
    if is_c(a) and is_c(b): return 1 if a < b else 0
    return simp(z3.ULT(V(a, w), V(b, w)))

def binop(op, a, b, w):
    if w == 1:
        if is_c(a) and is_c(b):
            if op in ("add", "sub", "xor"): return a ^ b
            if op in ("and", "mul"): return a & b
            if op == "or": return a | b
        A, Bb = B(a), B(b)
        if op in ("add", "sub", "xor"): return simp(z3.Xor(A, Bb))
        if op in ("and", "mul"): return simp(z3.And(A, Bb))
        if op == "or": return simp(z3.Or(A, Bb))
        raise Unsupported("i1 " + op)
    m = mask(w)
    if is_c(a) and is_c(b):
        if op == "add": return (a + b) & m
        if op == "sub": return (a - b) & m
        if op == "mul": return (a * b) & m
        if op == "and": return a & b
        if op == "or": return a | b
        if op == "xor": return a ^ b
        if op == "shl": return (a << b) & m if b < w else 0
        if op == "lshr": return a >> b if b < w else 0
        if op == "ashr": return (sgn(a, w) >> min(b, w - 1)) & m
        if op == "udiv": return a // b if b else 0
        if op == "urem": return a % b if b else 0
        if op in ("sdiv", "srem"):
            x, y = sgn(a, w), sgn(b, w)
            if y == 0: return 0
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == "sdiv" else x - q * y) & m
    if is_c(b):
        if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
        if b == 0 and op in ("and", "mul"): return 0
        if b == m and op == "and": return a
        if b == 1 and op in ("mul", "udiv", "sdiv"): return a
    if is_c(a):
        if a == 0 and op in ("add", "or", "xor"): return b
        if a == 0 and op in ("and", "mul", "shl", "lshr", "udiv"): return 0
        if a == m and op == "and": return b
    if op in ("udiv", "sdiv") and is_c(b) and 1 < b < (1 << (w - 1)):
        d = div_parts(a, UDIVS if op == "udiv" else SDIVS)
        if d and d[1] * b < (1 << (w if op == "udiv" else w - 1)): a = d[0]; b = d[1] * b      # (x / c) / b == x / (c * b)
    if op in ("and", "or", "xor") and not is_c(a) and not is_c(b):
        p, q = as_bool(a), as_bool(b)          # flags widened from comparisons stay boolean
        if p is not None and q is not None:
            c = simp({"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](p, q))
            return int(c) if is_c(c) else zext(c, 1, w)
    if op == "or" and ROT["on"] and not is_c(a) and not is_c(b):
        r = rotation(a, b, w)
        if r is not None: return r
    x, y = V(a, w), V(b, w)
    r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
         "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
         "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
    if w == 64 and op in ("add", "sub", "mul", "shl"): return norm(z3.simplify(r))
    return r

# rotations kept as named values (the simplifier would take them apart bit by bit); the definitions are facts of every query
ROT = {"on": False, "memo": {}, "defs": {}}
def rotation(a, b, w):
    sh, lr = (a, b) if a.decl().kind() == z3.Z3_OP_BSHL else (b, a)
    if sh.decl().kind() != z3.Z3_OP_BSHL or lr.decl().kind() != z3.Z3_OP_BLSHR: return None
    x = sh.arg(0); n, k = sh.arg(1), lr.arg(1)
    if x.get_id() != lr.arg(0).get_id() or not z3.is_bv_value(n) or not z3.is_bv_value(k) or n.as_long() + k.as_long() != w: return None
    key = (x.get_id(), n.as_long(), w)
    if key not in ROT["memo"]:
        c = z3.FreshConst(z3.BitVecSort(w), "rot")
        ROT["memo"][key] = (x, c); ROT["defs"][c.get_id()] = (c, z3.RotateLeft(x, n.as_long()))
    return ROT["memo"][key][1]

UDIVS = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I); SDIVS = (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)
def div_parts(a, kinds):
    """(x, c) if a is x / c with a constant c > 1"""
    if is_c(a) or a.decl().kind() not in kinds or not z3.is_bv_value(a.arg(1)): return None
    c = a.arg(1).as_long()
    return (a.arg(0), c) if c > 1 else None

def as_bool(a):
    """c if a is the 0/1 value of the condition c"""
    if a.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)) and a.arg(1).as_long() == 1 and a.arg(2).as_long() == 0: return a.arg(0)
    return None

def icmp(p, a, b, w):
    if p in ("eq", "ne") and is_c(b) and b in (0, 1) and not is_c(a) and w > 1:
        c = as_bool(a)
        if c is not None: return simp(c if (p == "ne") == (b == 0) else z3.Not(c))
    if p in ("eq", "ne") and is_c(b) and b == 0 and not is_c(a):
        # x / c == 0 is a range test
        d = div_parts(a, UDIVS)
        if d: r = z3.ULT(d[0], d[1]); return simp(r if p == "eq" else z3.Not(r))
        d = div_parts(a, SDIVS)
        if d and d[1] < (1 << (w - 1)): r = z3.And(d[0] < d[1], d[0] > -d[1]); return simp(r if p == "eq" else z3.Not(r))
    if is_c(a) and is_c(b):
        if p[0] == "s": a, b = sgn(a, w), sgn(b, w)
        q = p[-2:]
        return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[q])
    if w == 1:
        A, Bb = B(a), B(b)
        if p == "eq": return simp(A == Bb)
        if p == "ne": return simp(A != Bb)
        a, b, w = V(a, 1) if not is_c(a) else a, V(b, 1) if not is_c(b) else b, 1
    x, y = V(a, w), V(b, w)
    r = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
         "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y,
         "slt": lambda: x < y, "sle": lambda: x <= y}[p]()
    return simp(r)

def trunc(a, w, w2):
    if is_c(a): return a & mask(w2)
    if w2 == 1:
        if z3.is_bool(a): return a
        return simp(z3.Extract(0, 0, a) == z3.BitVecVal(1, 1))
    return norm(z3.simplify(z3.Extract(w2 - 1, 0, a))) if a.decl().kind() != z3.Z3_OP_EXTRACT else norm(z3.simplify(z3.Extract(w2 - 1, 0, a)))

def zext(a, w, w2):
    if is_c(a): return a
    if w == 1: return z3.If(B(a), z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
    return z3.ZeroExt(w2 - w, a)

def sext(a, w, w2):
    if is_c(a): return sgn(a, w) & mask(w2)
    if w == 1: return z3.If(B(a), z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
    return z3.SignExt(w2 - w, a)

# ---- byte/word arrays -------------------------------------------------------------------------------------------------
class Arr:
    """Array of elements of `w` bits indexed by byte offset (64-bit)."""
    __slots__ = ("w", "memo")
    def read(self, i):
        k = i if is_c(i) else ("e", i.get_id())
        m = self.memo
        if k in m: return m[k][0]
        r = norm(self._read(i))
        m[k] = (r, i)
        return r

class ABase(Arr):
    __slots__ = ("z",)
    def __init__(self, name, w):
        self.w = w; self.memo = {}; self.z = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(w))
    def _read(self, i): return z3.Select(self.z, V(i, 64))

class AConst(Arr):
    """constant table: element k at byte offset k*stride, values list of Python ints"""
    __slots__ = ("vals", "stride", "zarr")
    def __init__(self, vals, w, stride):
        self.w = w; self.memo = {}; self.vals = vals; self.stride = stride; self.zarr = None
    def _read(self, i):
        if is_c(i):
            q, r = divmod(i, self.stride)
            if r or q >= len(self.vals): return 0
            return self.vals[q]
        if len(set(self.vals)) == 1: return self.vals[0]
        if len(self.vals) <= 4:
            r = z3.BitVecVal(self.vals[-1], self.w)
            for k in range(len(self.vals) - 2, -1, -1):
                r = z3.If(i == k * self.stride, z3.BitVecVal(self.vals[k], self.w), r)
            return r
        # balanced decision tree over the index bits
        st = self.stride.bit_length() - 1
        n = len(self.vals); nb = max(1, (n - 1).bit_length())
        bits = [z3.Extract(st + b, st + b, i) == z3.BitVecVal(1, 1) for b in range(nb)]
        def rec(lo, b):
            if lo >= n: return None
            if b < 0: return self.vals[lo]
            x = rec(lo, b - 1); y = rec(lo + (1 << b), b - 1)
            if y is None: return x
            if is_c(x) and is_c(y) and x == y: return x
            return z3.If(bits[b], V(y, self.w), V(x, self.w))
        return rec(0, nb - 1)

class AStore(Arr):
    __slots__ = ("p", "i", "v")
    def __init__(self, p, i, v):
        self.w = p.w; self.memo = {}; self.p = p; self.i = i; self.v = v
    def _read(self, i):
        a = self; chain = []
        while isinstance(a, AStore):
            c = eqv(i, a.i)
            if is_c(c):
                if c: r = a.v; break
            else: chain.append((c, a.v))
            a = a.p
        else:
            r = a.read(i)
        for c, v in reversed(chain): r = ite(c, v, r, self.w)
        return r

class ACopy(Arr):
    __slots__ = ("p", "d", "n", "s", "so")
    def __init__(self, p, d, n, s, so):
        self.w = p.w; self.memo = {}; self.p = p; self.d = d; self.n = n; self.s = s; self.so = so
    def _read(self, i):
        k = sub64(i, self.d)
        c = ult(k, self.n)
        if is_c(c):
            return self.s.read(add64(k, self.so)) if c else self.p.read(i)
        return ite(c, self.s.read(add64(k, self.so)), self.p.read(i), self.w)

class AFill(Arr):
    __slots__ = ("p", "d", "n", "v")
    def __init__(self, p, d, n, v):
        self.w = p.w; self.memo = {}; self.p = p; self.d = d; self.n = n; self.v = v
    def _read(self, i):
        c = ult(sub64(i, self.d), self.n)
        if is_c(c): return self.v if c else self.p.read(i)
        return ite(c, self.v, self.p.read(i), self.w)

class AIte(Arr):
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b):
        self.w = a.w; self.memo = {}; self.c = c; self.a = a; self.b = b
    def _read(self, i): return ite(self.c, self.a.read(i), self.b.read(i), self.w)

def big_simplify_off():
    pass
