"""Trusted contracts: the verifier's built-ins (vc_*), LLVM intrinsics, the C library and libstdc++."""
import re
import z3
from vals import *

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
VEC = "std::vector<unsigned char, std::allocator<unsigned char> >"
IT_CC = "__gnu_cxx::__normal_iterator<char const*, STRING >"

def norm_d(d):
    while ">>" in d: d = d.replace(">>", "> >")
    d = d.replace(STR, "STRING").replace(VEC, "BYTES")
    d = d.replace("[abi:cxx11]", "")
    return d

BASES = {
    "_ZTISt9exception": None, "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error",
    "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error", "_ZTISt15underflow_error": "_ZTISt13runtime_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception",
    "_ZTISt17bad_function_call": "_ZTISt9exception",
}

class Lib:
    def __init__(self, ex):
        self.ex = ex
        self.cache = {}
        self.tids = {}
        self.pools = {}
        self.exact = {}
        self.pats = []
        self.register()

    # -- exceptions ----------------------------------------------------------------------------------------------------
    def typeid(self, nm):
        return self.tids.setdefault(nm, len(self.tids) + 1)

    def bases(self, nm):
        if nm in BASES: return [BASES[nm]] if BASES[nm] else []
        g = self.ex.mod.globals.get(nm)
        out = []
        if g and "init" in g and "agg" in g["init"]:
            for x in g["init"]["agg"][2:]:
                if "g" in x and x["g"].startswith("_ZTI"): out.append(x["g"])
        return out

    def is_subtype(self, t, want):
        if want is None or t is None: return want is None
        todo = [t]
        while todo:
            x = todo.pop()
            if x == want: return True
            todo += self.bases(x)
        return False

    # -- lookup --------------------------------------------------------------------------------------------------------
    def lookup(self, name, d):
        k = name
        if k in self.cache: return self.cache[k]
        nd = norm_d(d)
        h = self.exact.get(name) or self.exact.get(nd)
        if h is None:
            for p, f in self.pats:
                if p.match(nd) or p.match(name): h = f; break
        if h is not None and not name.startswith(("vc_", "llvm.")):
            self.ex.trusted_used[nd if not name.startswith("_Z") is False else nd] = 1
        self.cache[k] = h
        return h

    def reg(self, *names):
        def deco(f):
            for n in names: self.exact[n] = f
            return f
        return deco

    def pat(self, *rx):
        def deco(f):
            for r in rx: self.pats.append((re.compile(r), f))
            return f
        return deco

    # -- helpers for strings -------------------------------------------------------------------------------------------
    def cname(self, st, p):
        """read a constant C string"""
        out = []
        for k in range(400):
            b = self.ex.load(st, Ptr(p.reg, add64(p.off, k)), 8)
            if not is_c(b): raise Unsupported("name not constant")
            if b == 0: break
            out.append(chr(b))
        return "".join(out)

    def new_data(self, st, name, n, arr=None):
        ex = self.ex
        if arr is None: arr = ex.fresh_arr(name, 1)
        rid = ex.new_region(st, name, n, "heap", 16, "undef", (Seg(0, None, arr, 1),))
        return rid

    def seg_arr(self, st, p):
        """array and base offset for bytes at p"""
        ex = self.ex
        o = ex.obj(st, p.reg)
        k = ex.seg_for(st, p, 1)
        if k is None:
            ex.make_bytes(st, p.reg); o = st.mem[p.reg]; k = 0
        s = o.segs[k]
        if s.nb != 1: raise Unsupported("byte view of wide array")
        return s.arr

    def s_init(self, st, p, n, arr=None, name="str"):
        ex = self.ex
        if not is_c(p.off):
            if ex.o.get("verbose"): print("  [string at symbolic offset]", [f.fn.d[:60] for f in st.frames], ex.regs[p.reg].name, p.off)
            raise Unsupported("string at symbolic offset")
        key = (p.reg, p.off)
        rid = self.new_data(st, name, add64(n, 1), arr)
        ex.store(st, p, Ptr(rid, 0), "ptr"); ex.store(st, Ptr(p.reg, p.off + 8), n, 64)
        st.strings[key] = ("string", rid)

    def s_get(self, st, p):
        """(data ptr, len)"""
        ex = self.ex
        d = ex.load(st, p, "ptr"); n = ex.load(st, Ptr(p.reg, add64(p.off, 8)), 64)
        return d, n

    def s_set(self, st, p, n, arr):
        """replace contents, region identity kept"""
        ex = self.ex
        d, _ = self.s_get(st, p)
        o = ex.obj(st, d.reg).copy()
        o.size = add64(n, 1)
        o.segs = (o.segs[0].with_arr(arr),)
        st.mem[d.reg] = o
        ex.store(st, Ptr(p.reg, p.off + 8), n, 64)

    def s_arr(self, st, p):
        d, n = self.s_get(st, p)
        o = self.ex.obj(st, d.reg)
        if is_c(d.off) and d.off == 0 and o.segs: return o.segs[0].arr, n
        # generic view
        a = self.seg_arr(st, d)
        return ACopy(self.ex.fresh_arr("view", 1), 0, n, a, d.off), n

    def view(self, st, p, n):
        """array holding the n bytes at p, starting at index 0"""
        if is_c(n) and n == 0: return self.ex.fresh_arr("empty", 1)
        if is_c(p.off) and p.off == 0: 
            return self.seg_arr(st, p)
        a = self.seg_arr(st, p)
        return ACopy(self.ex.fresh_arr("view", 1), 0, n, a, p.off)

    def s_append(self, st, p, src, n, where):
        ex = self.ex
        if is_c(n) and n == 0: return True
        if src.reg:
            if not ex.bounds(st, src, n, "load", where): return False
        elif not is_c(n) and not ex.oblige(st, simp(n == 0), "ub.null-deref@" + where, "ub"): return False
        arr, ln = self.s_arr(st, p)
        a = ACopy(arr, ln, n, self.seg_arr(st, src), src.off) if src.reg else arr
        self.s_set(st, p, add64(ln, n), a)
        return True

    def strlen(self, st, p, where):
        ex = self.ex
        n = 0
        while n < 4000:
            if not ex.bounds(st, Ptr(p.reg, add64(p.off, n)), 1, "load", where): return None
            b = ex.load(st, Ptr(p.reg, add64(p.off, n)), 8)
            if not is_c(b): break
            if b == 0: return n
            n += 1
        # symbolic: allowed for harness C strings whose length is known
        r = ex.regs[p.reg]
        k = ("cstr", p.reg)
        if k in st.ghost: return sub64(st.ghost[k], p.off)
        raise Unsupported("strlen of symbolic string")

    # byte vectors
    def v_init(self, st, p, n, arr=None, name="vec"):
        ex = self.ex
        if not is_c(p.off): raise Unsupported("vector at symbolic offset")
        rid = self.new_data(st, name, n, arr)
        ex.store(st, p, Ptr(rid, 0), "ptr"); ex.store(st, Ptr(p.reg, p.off + 8), Ptr(rid, n), "ptr"); ex.store(st, Ptr(p.reg, p.off + 16), Ptr(rid, n), "ptr")
        st.strings[(p.reg, p.off)] = ("bytes", rid)

    def v_get(self, st, p):
        ex = self.ex
        a = ex.load(st, p, "ptr"); b = ex.load(st, Ptr(p.reg, add64(p.off, 8)), "ptr")
        if a.reg != b.reg: raise Unsupported("vector pointers")
        return a, sub64(b.off, a.off)

    def v_arr(self, st, p):
        d, n = self.v_get(st, p)
        if d.reg == 0: return self.ex.fresh_arr("empty", 1), 0
        return self.view(st, d, n), n

    def v_set(self, st, p, n, arr):
        ex = self.ex
        d, _ = self.v_get(st, p)
        if d.reg == 0: return self.v_init(st, p, n, arr)
        o = ex.obj(st, d.reg).copy(); o.size = n; o.segs = (o.segs[0].with_arr(arr),)
        st.mem[d.reg] = o
        ex.store(st, p, Ptr(d.reg, 0), "ptr"); ex.store(st, Ptr(p.reg, p.off + 8), Ptr(d.reg, n), "ptr"); ex.store(st, Ptr(p.reg, p.off + 16), Ptr(d.reg, n), "ptr")

    def alloc_fail_ok(self): return True

    # -- pools (linked structures) -------------------------------------------------------------------------------------
    def pool_load(self, st, p, nb, t, where):
        import pools
        return pools.load(self.ex, st, p, nb, t, where)
    def pool_store(self, st, p, nb, v, t, where):
        import pools
        return pools.store(self.ex, st, p, nb, v, t, where)
    def pool_gep(self, p, off):
        import pools
        return pools.gep(self.ex, p, off)

    # -- registration --------------------------------------------------------------------------------------------------
    def register(self):
        ex = self.ex
        reg, pat = self.reg, self.pat
        W = lambda fr: ex.where(fr, None)

        # ---- verifier built-ins
        def any_(w):
            def f(st, fr, ins, a, work):
                nm = self.cname(st, a[0])
                v = ex.fresh("in_" + nm, w)
                st.inputs.append((nm, "int%d" % w, v, None))
                return v
            return f
        for w in (8, 16, 32, 64): self.exact["vc_any%d" % w] = any_(w)
        @reg("vc_anyd")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[0]); v = z3.FP("in_%s!%d" % (nm, next(ex.serial)), z3.Float64())
            st.inputs.append((nm, "fp", v, None)); return v
        @reg("vc_anyf")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[0]); v = z3.FP("in_%s!%d" % (nm, next(ex.serial)), z3.Float32())
            st.inputs.append((nm, "fp", v, None)); return v
        @reg("vc_range")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[0]); v = ex.fresh("in_" + nm, 64)
            st.inputs.append((nm, "int64", v, None))
            if not ex.assume(st, simp(z3.And(z3.UGE(v, V(a[1], 64)), z3.ULE(v, V(a[2], 64))))): return "dead"
            return v
        @reg("vc_buf")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[0]); n = a[1]
            arr = ex.fresh_arr("in_" + nm, 1)
            rid = ex.new_region(st, nm, n, "heap", 16, "undef", (Seg(0, None, arr, 1),))
            if not is_c(n): ex.assume(st, simp(z3.ULE(n, z3.BitVecVal(1 << 46, 64))))
            st.inputs.append((nm, "buf", n, arr))
            return Ptr(rid, 0)
        @reg("vc_assume")
        def _(st, fr, ins, a, work):
            c = simp(B(a[0])) if not is_c(a[0]) else a[0]
            if is_c(c): return None if c else "dead"
            if not ex.feasible(st, c): return "dead"
            ex.assume(st, c); return None
        @reg("vc_check")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[1])
            c = simp(B(a[0])) if not is_c(a[0]) else a[0]
            if not ex.oblige(st, c, nm, "check", W(fr)): return "dead"
            return None
        @reg("vc_reach")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[0]); 
            if ex.scanning: return None
            if nm not in ex.reached:
                r, m = ex.solver.check(st.pc + st.axioms, [], 10000)  # the definitions of facts() always have a model, unless the path talks about them
                if r == z3.sat and ex.facts_matter(st): r, m = ex.solver.check(ex.facts(st), [], 60000)
                if r == z3.sat: ex.reached.add(nm)
                elif r == z3.unknown: ex.notes.add("reach-unknown:" + nm)
            return None
        @reg("vc_string")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[1])
            n = ex.fresh("in_%s_len" % nm, 64)
            ex.assume(st, z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
            arr = ex.fresh_arr("in_" + nm, 1)
            self.s_init(st, a[0], n, arr, nm)
            st.inputs.append((nm, "buf", n, arr))
        @reg("vc_bytes")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[1])
            n = ex.fresh("in_%s_len" % nm, 64)
            ex.assume(st, z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
            arr = ex.fresh_arr("in_" + nm, 1)
            self.v_init(st, a[0], n, arr, nm)
            st.inputs.append((nm, "buf", n, arr))
        @reg("vc_havoc")
        def _(st, fr, ins, a, work):
            n = a[1]; nm = self.cname(st, a[2])
            arr = ex.fresh_arr("in_" + nm, 1)
            rid = self.new_data(st, nm, n, arr)
            st.inputs.append((nm, "buf", n, arr))
            if not ex.copy_bytes(st, a[0], Ptr(rid, 0), n, W(fr)): return "dead"
        @reg("vc_same")
        def _(st, fr, ins, a, work):
            return zext(ex.compare(st, "eq", a[0], a[1], "ptr"), 1, 32)
        @reg("vc_uf")
        def _(st, fr, ins, a, work):
            nm = self.cname(st, a[0])
            f = z3.Function("uf_" + nm, *([z3.BitVecSort(64)] * 5))
            return f(*[V(x, 64) for x in a[1:5]])
        @reg("vc_fold")
        def _(st, fr, ins, a, work):
            return self.fold(st, fr, a)
        @reg("vc_fold_absorb", "vc_fold_inv")
        def _(st, fr, ins, a, work):
            return self.fold_lemma(st, fr, ins, a)
        @reg("vc_witness")
        def _(st, fr, ins, a, work):
            st.ghost["wit"] = st.ghost.get("wit", ()) + (a[0],)

        # ---- intrinsics
        def ignore(st, fr, ins, a, work): return None
        pat(r"llvm\.(lifetime|dbg|invariant|experimental\.noalias|assume|prefetch|donothing|stackrestore)")(ignore)
        @pat(r"llvm\.expect")
        def _(st, fr, ins, a, work): return a[0]
        @pat(r"llvm\.is\.constant")
        def _(st, fr, ins, a, work): return 0
        @pat(r"llvm\.objectsize")
        def _(st, fr, ins, a, work): return mask(64)
        @pat(r"llvm\.memcpy|llvm\.memmove|memcpy$|memmove$")
        def memcpy(st, fr, ins, a, work):
            if not ex.copy_bytes(st, a[0], a[1], a[2], W(fr)): return "dead"
            return ("val", a[0]) if ins["t"] == "ptr" else None
        @pat(r"llvm\.memset|memset$")
        def _(st, fr, ins, a, work):
            v = a[1] if is_c(a[1]) else norm(z3.simplify(z3.Extract(7, 0, a[1])))
            if is_c(v): v &= 255
            if not ex.fill_bytes(st, a[0], v, a[2], W(fr)): return "dead"
            return ("val", a[0]) if ins["t"] == "ptr" else None
        def mm(p):
            def f(st, fr, ins, a, work):
                w = ins["t"]; c = icmp(p, a[0], a[1], w)
                return ite(c, a[0], a[1], w)
            return f
        pat(r"llvm\.umin")(mm("ult")); pat(r"llvm\.umax")(mm("ugt")); pat(r"llvm\.smin")(mm("slt")); pat(r"llvm\.smax")(mm("sgt"))
        @pat(r"llvm\.abs")
        def _(st, fr, ins, a, work):
            w = ins["t"]
            return ite(icmp("slt", a[0], 0, w), binop("sub", 0, a[0], w), a[0], w)
        @pat(r"llvm\.fsh([lr])")
        def _(st, fr, ins, a, work):
            w = ins["t"]; left = "fshl" in ins["fn"]
            x = z3.Concat(V(a[0], w), V(a[1], w)); s = z3.URem(V(a[2], w), z3.BitVecVal(w, w))
            s2 = z3.ZeroExt(w, s)
            r = z3.Extract(2 * w - 1, w, x << s2) if left else z3.Extract(w - 1, 0, z3.LShR(x, s2))
            return norm(z3.simplify(r))
        @pat(r"llvm\.bswap")
        def _(st, fr, ins, a, work):
            w = ins["t"]; x = V(a[0], w)
            return norm(z3.simplify(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)])))
        @pat(r"llvm\.([us])(add|sub|mul)\.with\.overflow")
        def _(st, fr, ins, a, work):
            w = ins["t"]["s"][0]; sg = ".s" in ins["fn"][5:7] or ins["fn"][5] == "s"; op = ins["fn"].split(".")[1][1:]
            E = (lambda v: sext(v, w, 2 * w)) if sg else (lambda v: zext(v, w, 2 * w))
            big = V(binop(op, E(a[0]), E(a[1]), 2 * w), 2 * w); r = binop(op, a[0], a[1], w)
            ov = simp(V(E(r), 2 * w) != big)
            return [r, ov]
        @pat(r"llvm\.eh\.typeid\.for")
        def _(st, fr, ins, a, work):
            nm = ex.regs[a[0].reg].name
            return self.typeid(nm)
        @pat(r"llvm\.trap|abort$|_ZSt9terminatev|__clang_call_terminate|std::terminate\(\)")
        def _(st, fr, ins, a, work):
            ex.oblige(st, 0, "ub.terminate@" + W(fr), "ub"); return "dead"
        @reg("ldexp", "scalbn")
        def _(st, fr, ins, a, work):     # exact scaling by a power of two (normal range): the IEEE product with 2^e
            e = sgn(a[1], 32) if is_c(a[1]) else None
            if e is None or not -1000 <= e <= 1000: raise Unsupported("ldexp exponent")
            return z3.fpMul(ex.RM, a[0], z3.FPVal(2.0 ** e, z3.Float64()))
        @reg("memcmp", "bcmp")
        def _(st, fr, ins, a, work):
            return self.memcmp(st, a[0], a[1], a[2], W(fr))
        @reg("strlen")
        def _(st, fr, ins, a, work):
            n = self.strlen(st, a[0], W(fr))
            return "dead" if n is None else n
        @reg("isdigit")
        def _(st, fr, ins, a, work):
            c = V(a[0], 32); return zext(simp(z3.And(c >= 48, c <= 57)), 1, 32)
        @reg("isspace")
        def _(st, fr, ins, a, work):
            c = V(a[0], 32); return zext(simp(z3.Or(c == 32, z3.And(c >= 9, c <= 13))), 1, 32)
        @reg("isxdigit")
        def _(st, fr, ins, a, work):
            c = V(a[0], 32); return zext(simp(z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))), 1, 32)
        @reg("tolower")
        def _(st, fr, ins, a, work):
            c = V(a[0], 32); return norm(z3.simplify(z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))
        @reg("toupper")
        def _(st, fr, ins, a, work):
            c = V(a[0], 32); return norm(z3.simplify(z3.If(z3.And(c >= 97, c <= 122), c - 32, c)))

        # ---- C++ runtime
        @reg("__cxa_allocate_exception")
        def _(st, fr, ins, a, work): return Ptr(ex.new_region(st, "exception", a[0], "heap", 16), 0)
        @reg("__cxa_free_exception", "__cxa_end_catch", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit")
        def _(st, fr, ins, a, work): return 0 if ins["t"] == 32 else None
        @reg("__cxa_guard_acquire")
        def _(st, fr, ins, a, work): return 1
        @reg("__cxa_begin_catch")
        def _(st, fr, ins, a, work):
            st.caught = st.caught + [st.exc]
            return a[0]
        @reg("__cxa_throw")
        def _(st, fr, ins, a, work):
            return ("throw", ex.regs[a[1].reg].name, a[0])
        @reg("std::current_exception()")
        def _(st, fr, ins, a, work): ex.store(st, a[0], 0, 64)      # an opaque handle; nobody looks inside
        @reg("__cxa_rethrow")
        def _(st, fr, ins, a, work):
            e = st.caught[-1]
            return ("throw", e[1], e[0])
        @reg("__cxa_bad_cast", "std::__throw_bad_cast()")
        def _(st, fr, ins, a, work): return ("throw", "_ZTISt8bad_cast")
        @pat(r"std::__throw_out_of_range")
        def _(st, fr, ins, a, work): return ("throw", "_ZTISt12out_of_range")
        @pat(r"std::__throw_length_error")
        def _(st, fr, ins, a, work): return ("throw", "_ZTISt12length_error")
        @pat(r"std::__throw_logic_error")
        def _(st, fr, ins, a, work): return ("throw", "_ZTISt11logic_error")
        @pat(r"std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception|bad_cast)::~?(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception|bad_cast)\(")
        def _(st, fr, ins, a, work):
            if "vc_exc" not in st.ghost: pass
            return None
        @reg("operator new(unsigned long)")
        def _(st, fr, ins, a, work):
            return Ptr(ex.new_region(st, "new", a[0], "heap", 16), 0)
        @reg("operator delete(void*)", "operator delete(void*, unsigned long)")
        def _(st, fr, ins, a, work):
            if isinstance(a[0], Ptr) and a[0].reg and ex.regs[a[0].reg].kind == "heap":
                o = ex.obj(st, a[0].reg).copy(); o.freed = True; st.mem[a[0].reg] = o
            return None

        # ---- unordered_map<string, string>: log of operator[] calls, at most one in a step
        M = r"std::unordered_map<STRING, STRING, .*>::"
        @pat(M + r"unordered_map\(\)")
        def _(st, fr, ins, a, work): st.ghost[("map", a[0].reg, a[0].off)] = ()
        @pat(M + r"unordered_map\(std::unordered_map.*&&\)")
        def _(st, fr, ins, a, work):
            st.ghost[("map", a[0].reg, a[0].off)] = st.ghost.get(("map", a[1].reg, a[1].off), ()); st.ghost[("map", a[1].reg, a[1].off)] = ()
        @pat(M + r"~unordered_map\(\)")
        def _(st, fr, ins, a, work): return None
        @pat(M + r"operator\[\]\(")
        def _(st, fr, ins, a, work):
            k = ("map", a[0].reg, a[0].off)
            if k not in st.ghost: raise Unsupported("map not constructed")
            if st.ghost[k]: raise Unsupported("second map entry in one step")
            rid = ex.new_region(st, "mapentry", 64, "heap", 8)
            arr, n = self.s_arr(st, a[1]); self.s_init(st, Ptr(rid, 0), n, arr, "mapkey")
            n2 = ex.fresh("mapold_len", 64); ex.assume(st, z3.ULE(n2, z3.BitVecVal(1 << 40, 64)))
            self.s_init(st, Ptr(rid, 32), n2, ex.fresh_arr("mapold", 1), "mapval")   # arbitrary: an earlier entry may exist
            st.ghost[k] = (rid,)
            return Ptr(rid, 32)
        @reg("vc_map_size")
        def _(st, fr, ins, a, work):
            k = ("map", a[0].reg, a[0].off)
            if k not in st.ghost: raise Unsupported("map not constructed")
            return len(st.ghost[k])
        def map_entry(off):
            def h(st, fr, ins, a, work):
                l = st.ghost.get(("map", a[0].reg, a[0].off), ())
                if not l: raise Unsupported("map is empty")
                return Ptr(l[0], off)
            return h
        reg("vc_map_key")(map_entry(0)); reg("vc_map_val")(map_entry(32))

        # ---- strings
        S = "STRING::"
        B_ = "basic_string"
        @reg(S + B_ + "()", S + B_ + "(std::allocator<char> const&)")
        def _(st, fr, ins, a, work): self.s_init(st, a[0], 0)
        @reg(S + B_ + "(STRING const&)")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[1]); self.s_init(st, a[0], n, arr)
        @reg(S + B_ + "(STRING&&)")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[1]); self.s_init(st, a[0], n, arr)
            self.s_set(st, a[1], 0, ex.fresh_arr("moved", 1))
        @pat(r"STRING::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)")
        def _(st, fr, ins, a, work):
            n = self.strlen(st, a[1], W(fr))
            if n is None: return "dead"
            self.s_init(st, a[0], n, self.view(st, a[1], n))
        @pat(r"STRING::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)")
        def _(st, fr, ins, a, work):
            n = a[2]
            if a[1].reg and not ex.bounds(st, a[1], n, "load", W(fr)): return "dead"
            self.s_init(st, a[0], n, self.view(st, a[1], n) if a[1].reg else None)
        @pat(r"STRING::basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)")
        def _(st, fr, ins, a, work):
            n = a[1]
            if not self.len_ok(st, n): return ("throw", "_ZTISt12length_error")
            self.s_init(st, a[0], n, AFill(ex.fresh_arr("fill", 1), 0, n, a[2]))
        @pat(r"STRING::basic_string<(char const\*|__gnu_cxx::__normal_iterator<char const\*, .*>|char\*|__gnu_cxx::__normal_iterator<char\*, .*>|unsigned char const\*), void>\(")
        def _(st, fr, ins, a, work):
            n = sub64(a[2].off, a[1].off)
            if a[1].reg != a[2].reg: raise Unsupported("string range")
            if a[1].reg and not ex.bounds(st, a[1], n, "load", W(fr)): return "dead"
            self.s_init(st, a[0], n, self.view(st, a[1], n) if a[1].reg else None)
        @reg(S + "~basic_string()")
        def _(st, fr, ins, a, work): return None
        @reg(S + "operator=(STRING const&)", S + "assign(STRING const&)")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[1]); self.s_set(st, a[0], n, arr); return a[0]
        @reg(S + "operator=(STRING&&)", S + "assign(STRING&&)")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[1])
            if a[0].reg == a[1].reg and same_off(a[0].off, a[1].off): return a[0]
            self.s_set(st, a[0], n, arr); self.s_set(st, a[1], 0, ex.fresh_arr("moved", 1)); return a[0]
        @reg(S + "operator=(char const*)", S + "assign(char const*)")
        def _(st, fr, ins, a, work):
            n = self.strlen(st, a[1], W(fr))
            if n is None: return "dead"
            self.s_set(st, a[0], n, self.view(st, a[1], n)); return a[0]
        @reg(S + "assign(char const*, unsigned long)")
        def _(st, fr, ins, a, work):
            if a[1].reg and not ex.bounds(st, a[1], a[2], "load", W(fr)): return "dead"
            self.s_set(st, a[0], a[2], self.view(st, a[1], a[2])); return a[0]
        @pat(r"STRING& STRING::assign<(char const\*|__gnu_cxx::__normal_iterator<char (const)?\*, .*>|char\*|unsigned char const\*), void>\(")
        def _(st, fr, ins, a, work):
            n = sub64(a[2].off, a[1].off)
            if a[1].reg and not ex.bounds(st, a[1], n, "load", W(fr)): return "dead"
            self.s_set(st, a[0], n, self.view(st, a[1], n)); return a[0]
        @reg(S + "push_back(char)", S + "operator+=(char)")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[0])
            self.s_set(st, a[0], add64(n, 1), AStore(arr, n, a[1]))
            return a[0] if ins["t"] == "ptr" else None
        @reg(S + "append(char const*, unsigned long)")
        def _(st, fr, ins, a, work):
            return a[0] if self.s_append(st, a[0], a[1], a[2], W(fr)) else "dead"
        @reg(S + "append(STRING const&)", S + "operator+=(STRING const&)")
        def _(st, fr, ins, a, work):
            d, n = self.s_get(st, a[1])
            return a[0] if self.s_append(st, a[0], d, n, W(fr)) else "dead"
        @reg(S + "append(char const*)", S + "operator+=(char const*)")
        def _(st, fr, ins, a, work):
            n = self.strlen(st, a[1], W(fr))
            if n is None: return "dead"
            return a[0] if self.s_append(st, a[0], a[1], n, W(fr)) else "dead"
        @reg(S + "append(unsigned long, char)")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[0]); self.s_set(st, a[0], add64(n, a[1]), AFill(arr, n, a[1], a[2])); return a[0]
        @pat(r"STRING& STRING::append<.*\*(, STRING >)?, void>\(")
        def _(st, fr, ins, a, work):
            n = sub64(a[2].off, a[1].off)
            return a[0] if self.s_append(st, a[0], a[1], n, W(fr)) else "dead"
        @pat(r"(__gnu_cxx::__normal_iterator<char\*, STRING >|.*) STRING::insert<(unsigned char const\*|char const\*), void>\(")
        def _(st, fr, ins, a, work):
            d, ln = self.s_get(st, a[0])
            n = sub64(a[3].off, a[2].off)
            c = eqv(a[1].off, add64(d.off, ln))
            if not (is_c(c) and c) and not ex.valid_quick(st, c): raise Unsupported("string insert not at end")
            if not self.s_append(st, a[0], a[2], n, W(fr)): return "dead"
            return Ptr(d.reg, add64(d.off, ln))
        @reg(S + "clear()")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[0]); self.s_set(st, a[0], 0, arr)
        @reg(S + "pop_back()")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[0])
            c = simp(V(n, 64) != 0) if not is_c(n) else int(n != 0)
            if not ex.oblige(st, c, "ub.pop-empty@" + W(fr), "ub"): return "dead"
            self.s_set(st, a[0], sub64(n, 1), arr)
        @reg(S + "reserve(unsigned long)", S + "reserve()", S + "shrink_to_fit()")
        def _(st, fr, ins, a, work): return None
        @reg(S + "resize(unsigned long, char)", S + "resize(unsigned long)")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[0]); ch = a[2] if len(a) > 2 else 0
            more = ult(n, a[1])
            grown = AFill(arr, n, sub64(a[1], n), ch)
            na = grown if is_c(more) and more else arr if is_c(more) else AIte(more, grown, arr)
            self.s_set(st, a[0], a[1], na)
        @reg(S + "swap(STRING&)")
        def _(st, fr, ins, a, work):
            x, n = self.s_arr(st, a[0]); y, m = self.s_arr(st, a[1])
            self.s_set(st, a[0], m, y); self.s_set(st, a[1], n, x)
        @reg(S + "substr(unsigned long, unsigned long) const")
        def _(st, fr, ins, a, work):
            # sret: a[0]=result, a[1]=this, pos, n
            arr, n = self.s_arr(st, a[1])
            pos, cnt = a[2], a[3]
            bad = ult(n, pos)
            if not (is_c(bad) and not bad):
                if is_c(bad) or ex.feasible(st, bad):
                    if is_c(bad) or not ex.feasible(st, notb(bad)): return ("throw", "_ZTISt12out_of_range")
                    s2 = st.copy(); ex.assume(s2, bad); s2.exc = (NULL, "_ZTISt12out_of_range")
                    r = ex.unwind(s2, work)
                    if r == "cont": work.append(s2)
                    ex.assume(st, notb(bad))
            rest = sub64(n, pos)
            k = ite(ult(cnt, rest), cnt, rest, 64)
            self.s_init(st, a[0], norm(k), ACopy(ex.fresh_arr("sub", 1), 0, norm(k), arr, pos))
        @reg(S + "compare(char const*) const")
        def _(st, fr, ins, a, work):
            n = self.strlen(st, a[1], W(fr))
            d, ln = self.s_get(st, a[0])
            return self.cmp_lex(st, d, ln, a[1], n, W(fr))
        @reg(S + "compare(STRING const&) const")
        def _(st, fr, ins, a, work):
            d, ln = self.s_get(st, a[0]); d2, n2 = self.s_get(st, a[1])
            return self.cmp_lex(st, d, ln, d2, n2, W(fr))
        @pat(r"bool std::operator==<char, .*>\(STRING const&, char const\*\)")
        def _(st, fr, ins, a, work):
            n = self.strlen(st, a[1], W(fr)); d, ln = self.s_get(st, a[0])
            return self.eq_bytes(st, d, ln, a[1], n)
        @pat(r"bool std::operator!=<char, .*>\(STRING const&, char const\*\)")
        def _(st, fr, ins, a, work):
            n = self.strlen(st, a[1], W(fr)); d, ln = self.s_get(st, a[0])
            return notb(self.eq_bytes(st, d, ln, a[1], n))
        @reg(S + "find(char, unsigned long) const")
        def _(st, fr, ins, a, work):
            # first position >= pos with that char, or npos: fresh result with defining facts at a witness list
            arr, n = self.s_arr(st, a[0])
            return self.find_char(st, arr, n, a[2], [a[1]])
        @reg(S + "find_first_of(char const*, unsigned long, unsigned long) const")
        def _(st, fr, ins, a, work):
            arr, n = self.s_arr(st, a[0])
            if not is_c(a[3]): raise Unsupported("find_first_of")
            cs = [ex.load(st, Ptr(a[1].reg, add64(a[1].off, k)), 8) for k in range(a[3])]
            return self.find_char(st, arr, n, a[2], cs)
        @reg(S + "_M_disjunct(char const*) const", S + "_M_check_length(unsigned long, unsigned long, char const*) const")
        def _(st, fr, ins, a, work): raise Unsupported("string internals")

        # ---- byte vectors
        Vn = "BYTES::"
        @reg(Vn + "vector()")
        def _(st, fr, ins, a, work): self.v_init(st, a[0], 0)
        @reg(Vn + "vector(unsigned long, std::allocator<unsigned char> const&)")
        def _(st, fr, ins, a, work):
            if not self.len_ok(st, a[1]): return ("throw", "_ZTISt12length_error")
            self.v_init(st, a[0], a[1], AFill(ex.fresh_arr("z", 1), 0, a[1], 0))
        @reg(Vn + "vector(BYTES const&)")
        def _(st, fr, ins, a, work):
            arr, n = self.v_arr(st, a[1]); self.v_init(st, a[0], n, arr)
        @reg(Vn + "vector(BYTES&&)")
        def _(st, fr, ins, a, work):
            arr, n = self.v_arr(st, a[1]); self.v_init(st, a[0], n, arr); self.v_set(st, a[1], 0, ex.fresh_arr("moved", 1))
        @pat(r"BYTES::vector<.*\*(, [^>]*>)?, void>\(")
        def _(st, fr, ins, a, work):
            n = sub64(a[2].off, a[1].off)
            if a[1].reg and not ex.bounds(st, a[1], n, "load", W(fr)): return "dead"
            self.v_init(st, a[0], n, self.view(st, a[1], n) if a[1].reg else None)
        @reg(Vn + "~vector()")
        def _(st, fr, ins, a, work): return None
        @reg(Vn + "operator=(BYTES const&)")
        def _(st, fr, ins, a, work):
            arr, n = self.v_arr(st, a[1]); self.v_set(st, a[0], n, arr); return a[0]
        @reg(Vn + "operator=(BYTES&&)")
        def _(st, fr, ins, a, work):
            arr, n = self.v_arr(st, a[1]); self.v_set(st, a[0], n, arr); self.v_set(st, a[1], 0, ex.fresh_arr("moved", 1)); return a[0]
        @reg(Vn + "push_back(unsigned char&&)", Vn + "push_back(unsigned char const&)", "void BYTES::emplace_back<unsigned char>(unsigned char&&)", "unsigned char& BYTES::emplace_back<unsigned char>(unsigned char&&)")
        def _(st, fr, ins, a, work):
            if not ex.bounds(st, a[1], 1, "load", W(fr)): return "dead"
            c = ex.load(st, a[1], 8)
            arr, n = self.v_arr(st, a[0])
            self.v_set(st, a[0], add64(n, 1), AStore(arr, n, c))
            d, _ = self.v_get(st, a[0])
            return Ptr(d.reg, n) if ins["t"] == "ptr" else None
        @reg(Vn + "reserve(unsigned long)", Vn + "shrink_to_fit()")
        def _(st, fr, ins, a, work): return None
        @reg(Vn + "clear()")
        def _(st, fr, ins, a, work):
            arr, n = self.v_arr(st, a[0]); self.v_set(st, a[0], 0, arr)
        @reg(Vn + "resize(unsigned long)", Vn + "resize(unsigned long, unsigned char const&)")
        def _(st, fr, ins, a, work):
            if not self.len_ok(st, a[1]): return ("throw", "_ZTISt12length_error")
            arr, n = self.v_arr(st, a[0]); ch = ex.load(st, a[2], 8) if len(a) > 2 else 0
            more = ult(n, a[1])
            grown = AFill(arr, n, sub64(a[1], n), ch)
            na = grown if is_c(more) and more else arr if is_c(more) else AIte(more, grown, arr)
            self.v_set(st, a[0], a[1], na)
        @reg(Vn + "swap(BYTES&)")
        def _(st, fr, ins, a, work):
            x, n = self.v_arr(st, a[0]); y, m = self.v_arr(st, a[1])
            self.v_set(st, a[0], m, y); self.v_set(st, a[1], n, x)
        @pat(r".*BYTES::insert<.*\*(, BYTES )?>?.*, void>\(")
        def _(st, fr, ins, a, work):
            d, ln = self.v_get(st, a[0])
            n = sub64(a[3].off, a[2].off)
            c = eqv(a[1].off, add64(d.off, ln))
            if not (is_c(c) and c) and not ex.valid_quick(st, c): raise Unsupported("vector insert not at end")
            if is_c(n) and n == 0: return a[1]
            if a[2].reg:
                if not ex.bounds(st, a[2], n, "load", W(fr)): return "dead"
                arr, _ = self.v_arr(st, a[0])
                self.v_set(st, a[0], add64(ln, n), ACopy(arr, ln, n, self.seg_arr(st, a[2]), a[2].off))
            d2, _ = self.v_get(st, a[0])
            return Ptr(d2.reg, ln)
        @reg("std::allocator<char>::allocator()", "std::allocator<char>::~allocator()", "std::allocator<unsigned char>::allocator()", "std::allocator<unsigned char>::~allocator()")
        def _(st, fr, ins, a, work): return None
        # text used only in exception messages
        @pat(r"STRING std::operator\+<char, .*>\(.*\)$")
        def _(st, fr, ins, a, work):
            dn = norm_d(ex.mod.dname(ins["fn"]))
            args = [x.strip() for x in dn[dn.index(">(") + 2:-1].split(", ")]
            def part(ty, v):
                if ty == "char": return AStore(ex.fresh_arr("chr", 1), 0, v), 1
                if ty.startswith("STRING"): return self.s_arr(st, v)
                n = self.strlen(st, v, W(fr))
                return None if n is None else (self.view(st, v, n), n)
            x = part(args[0], a[1]); y = part(args[1], a[2])
            if x is None or y is None: return "dead"
            self.s_init(st, a[0], norm(add64(x[1], y[1])), ACopy(x[0], x[1], y[1], y[0], 0))
            return None
        @pat(r"(std::__cxx11::to_string|std::to_string|crab::details::invariant_violated)")
        def _(st, fr, ins, a, work):
            n = ex.fresh("msglen", 64); ex.assume(st, z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
            self.s_init(st, a[0], n, None, "msg")
            return None

    def len_ok(self, st, n):
        if is_c(n): return n < (1 << 62)
        c = simp(z3.ULE(n, z3.BitVecVal(1 << 46, 64)))
        # allocation of absurd sizes is assumed to fail (trusted): continue with sane sizes
        if not self.ex.feasible(st, c): return False
        self.ex.assume(st, c)
        return True

    # ---- comparisons
    def concretize(self, st, n):
        if is_c(n): return n
        ex = self.ex
        r, m = ex.solver.check(ex.facts(st), [], ex.o["feas_ms"])
        if r != z3.sat or m is None: return n
        v = m.eval(n, model_completion=True).as_long()
        if ex.valid_quick(st, simp(n == v)): return v
        return n

    def eq_bytes(self, st, a, n, b, m):
        """contents equal (as a condition)"""
        ex = self.ex
        if not is_c(n) and not is_c(m):
            n2 = self.concretize(st, n)
            if is_c(n2): n = n2
            else: m = self.concretize(st, m)
        L = m if is_c(m) else n
        if not is_c(L):
            # equality of two symbolic strings: uninterpreted predicate with consequences at witnesses
            return self.sym_eq(st, a, n, b, m)
        if L > 300: raise Unsupported("comparison of long strings")
        cs = [eqv(n, m)]
        if is_c(cs[0]) and not cs[0]: return 0
        for k in range(L):
            x = ex.load(st, Ptr(a.reg, add64(a.off, k)), 8); y = ex.load(st, Ptr(b.reg, add64(b.off, k)), 8)
            cs.append(eqv(x, y, 8))
        r = andb(*cs)
        return r if is_c(r) else simp(r)

    def sym_eq(self, st, a, n, b, m):
        raise Unsupported("comparison of two symbolic strings")

    def cmp_lex(self, st, a, n, b, m, where):
        ex = self.ex
        e = self.eq_bytes(st, a, n, b, m)
        r = ex.fresh("cmp", 32)
        if is_c(e):
            if e: return 0
            ex.assume(st, r != 0); return r
        return z3.If(e, z3.BitVecVal(0, 32), z3.If(r == 0, z3.BitVecVal(1, 32), r))

    def memcmp(self, st, a, b, n, where):
        ex = self.ex
        n = self.concretize(st, n)
        if is_c(n) and n == 0: return 0
        if not ex.bounds(st, a, n, "load", where) or not ex.bounds(st, b, n, "load", where): return "dead"
        if not is_c(n) or n > 300: raise Unsupported("memcmp symbolic length")
        res = z3.BitVecVal(0, 32)
        for k in range(n - 1, -1, -1):
            x = zext(ex.load(st, Ptr(a.reg, add64(a.off, k)), 8), 8, 32); y = zext(ex.load(st, Ptr(b.reg, add64(b.off, k)), 8), 8, 32)
            res = z3.If(V(x, 32) == V(y, 32), res, z3.If(z3.ULT(V(x, 32), V(y, 32)), z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32)))
        return norm(z3.simplify(res))

    def find_char(self, st, arr, n, pos, cs):
        """position of the first byte in cs at or after pos, else npos. Facts: definition at the result, and absence before it
        at every ghost witness registered in st.ghost['wit']"""
        ex = self.ex
        r = ex.fresh("find", 64)
        NP = mask(64)
        hit = lambda i: z3.Or([V(arr.read(i), 8) == V(c, 8) for c in cs])
        st.axioms.append(z3.Or(r == NP, z3.And(z3.UGE(r, V(pos, 64)), z3.ULT(r, V(n, 64)), hit(r))))
        for wk in st.ghost.get("wit", ()):
            st.axioms.append(z3.Implies(z3.And(z3.UGE(V(wk, 64), V(pos, 64)), z3.ULT(V(wk, 64), V(n, 64)), z3.Or(r == NP, z3.ULT(V(wk, 64), r))), z3.Not(hit(wk))))
        st.model = None
        return r

    # ---- folds
    def fold(self, st, fr, a):
        """vc_fold(step, st[nf], nf, p, n): st := step*(st, p[0..n))  as uninterpreted functions with one-step unfolding"""
        ex = self.ex
        stepp, sp, nf, p, n = a
        if not is_c(nf): raise Unsupported("fold nf")
        fname = ex.regs[stepp.reg].fn
        init = [ex.load(st, Ptr(sp.reg, add64(sp.off, 8 * k)), 64) for k in range(nf)]
        if p.reg == 0: return None
        arr = self.seg_arr(st, p)
        base = p.off
        key = (fname, id(arr), str(base), tuple(x if is_c(x) else ("e", x.get_id()) for x in init))
        fd = ex.fold_defs.get(key)
        if fd is None:
            k = len(ex.fold_defs)
            fd = [z3.Function("fold%d_%d_%s" % (k, j, re.sub(r"\W", "", fname)[:30]), z3.BitVecSort(64), z3.BitVecSort(64)) for j in range(nf)]
            ex.fold_defs[key] = fd
            ex._keep = getattr(ex, "_keep", []) + [arr, init]
        def value(n, depth):
            if is_c(n) and n == 0: return init
            gk = ("fold", fd[0].name(), n if is_c(n) else n.get_id())
            nv = V(n, 64)
            if is_c(n) and n <= 64:
                # concrete: compute
                if gk in st.ghost: return st.ghost[gk]
                prev = value(n - 1, depth)
                r = self.apply_step(st, fname, prev, arr.read(add64(base, n - 1)))
                st.ghost[gk] = r
                return r
            terms = [f(nv) for f in fd]
            if gk not in st.ghost:
                st.ghost[gk] = n
                z = simp(nv == 0)
                if depth <= 0 and not (0 < addend(n) <= 64):
                    if not is_c(z): st.axioms.append(z3.Implies(z, z3.And([terms[j] == V(init[j], 64) for j in range(nf)])))
                else:
                    m = sub64(n, 1)
                    prev = value(m, depth - 1)
                    nxt = self.apply_step(st, fname, prev, arr.read(add64(base, m)))
                    cs = [terms[j] == V(ite(z, init[j], nxt[j], 64), 64) for j in range(nf)]
                    st.axioms.append(z3.And(cs) if len(cs) > 1 else cs[0])
                st.model = None
            return terms
        r = value(n, ex.o.get("fold_depth", 0))
        self.fold_facts(st, fname, fd, arr, base, init, n, r)
        for k in range(nf): ex.store(st, Ptr(sp.reg, add64(sp.off, 8 * k)), r[k], 64)
        if ex.merging_spec and not is_c(n) and addend(n) == 0:
            for d in range(ex.o.get("fold_ahead", 0)):
                m = add64(n, d + 1)
                self.fold_facts(st, fname, fd, arr, base, init, m, value(m, 0))
        return None

    def fold_lemma(self, st, fr, ins, a):
        """vc_fold_absorb(step, pred, nf): proves pred(s) => pred(step(s,c)) for all s, c
        vc_fold_inv(step, pred, nf): the same, and the fact is then used for folds whose initial state satisfies pred"""
        ex = self.ex
        kind = "absorb" if ins["fn"] == "vc_fold_absorb" else "inv"
        step = ex.regs[a[0].reg].fn; pred = ex.regs[a[1].reg].fn; nf = a[2]
        key = ("lemma", step, pred, kind)
        if key not in ex.axiom_cache:
            t = st.copy(); t.pc = []; t.axioms = []; t.model = None
            s0 = [ex.fresh("ls", 64) for _ in range(nf)]
            c = ex.fresh("lc", 8)
            p0 = self.pred_of(t, pred, s0)
            s1 = self.apply_step(t, step, s0, c)
            p1 = self.pred_of(t, pred, s1)
            goal = simp(z3.Implies(B(p0), B(p1)))
            sc, ex.scanning = ex.scanning, 0
            ob_ok = ex.oblige(t, goal, "lemma.%s-%s" % (ex.mod.dname(pred).split("(")[0], kind), "lemma")
            ex.scanning = sc
            ok = ob_ok and ex.obls.get("lemma.%s-%s" % (ex.mod.dname(pred).split("(")[0], kind)).status == "proved"
            ex.axiom_cache[key] = ok
        if ex.axiom_cache[key]:
            L = st.ghost.get("lemmas", ())
            if (kind, step, pred) not in L: st.ghost["lemmas"] = L + ((kind, step, pred),)
        return None

    def template(self, fname, n, with_c):
        """the spec function as a term over placeholder variables, computed once"""
        ex = self.ex
        key = (fname, n, with_c)
        t = ex.tmpl.get(key)
        if t is None:
            fn = ex.mod.fns[fname]
            svars = [z3.BitVec("T!%d!%d" % (k, n), 64) for k in range(n)]
            cvar = z3.BitVec("T!c", 8)
            st = ex.new_state()
            rid = ex.new_region(st, "foldst", 8 * n, "stack", 8)
            for k, v in enumerate(svars): ex.store(st, Ptr(rid, 8 * k), v, 64)
            if with_c: r = ex.eval_merge(st, fn, [Ptr(rid, 0), cvar], outs=[(rid, 8 * k, 8) for k in range(n)], spec=True)
            else:
                r = ex.eval_merge(st, fn, [Ptr(rid, 0)], spec=True)
                r = False if r is False else [r]
            if r is False: raise Unsupported("spec function " + fname)
            if st.axioms: raise Unsupported("spec function with axioms " + fname)
            t = (svars, cvar, [x if is_c(x) else z3.simplify(x) for x in r])
            ex.tmpl[key] = t
        return t

    def instantiate(self, t, vals, c):
        svars, cvar, outs = t
        sub = [(a, V(b, 64)) for a, b in zip(svars, vals)]
        if c is not None: sub.append((cvar, V(c, 8)))
        return [o if is_c(o) else norm(z3.simplify(z3.substitute(o, *sub))) for o in outs]

    def pred_of(self, st, pred, vals):
        return self.instantiate(self.template(pred, len(vals), False), vals, None)[0]

    def fold_facts(self, st, fname, fd, arr, base, init, n, vals):
        ex = self.ex
        L = [(k, p) for (k, s, p) in st.ghost.get("lemmas", ()) if s == fname]
        if not L: return
        gk = ("foldterms", fd[0].name())
        terms = st.ghost.get(gk, ())
        nk = n if is_c(n) else n.get_id()
        if any(t[0] == nk for t in terms): return
        new = (nk, n, vals, not ex.merging_spec)
        for kind, pred in L:
            if kind == "inv":
                pi = self.pred_of(st, pred, init); pn = self.pred_of(st, pred, vals)
                e = simp(z3.Implies(B(pi), B(pn)))
                if not is_c(e): st.axioms.append(e)
            else:
                for o in terms:
                    for (x, y) in ((o, new), (new, o)):
                        if not y[3]: continue
                        lt = ult(x[1], y[1])
                        if is_c(lt) and not lt: continue
                        nx = self.apply_step(st, fname, x[2], arr.read(add64(base, x[1])))
                        e = simp(z3.Implies(z3.And(B(lt), B(self.pred_of(st, pred, nx))), B(self.pred_of(st, pred, y[2]))))
                        if not is_c(e): st.axioms.append(e)
        st.ghost[gk] = terms + (new,)
        st.model = None

    def apply_step(self, st, fname, prev, c):
        return self.instantiate(self.template(fname, len(prev), True), prev, c)

def addend(n):
    if is_c(n): return 0
    if n.decl().kind() == z3.Z3_OP_BADD:
        for c in n.children():
            if z3.is_bv_value(c): return sgn(c.as_long(), 64)
    return 0

def same_off(a, b):
    return is_c(a) and is_c(b) and a == b

from exec import Seg
