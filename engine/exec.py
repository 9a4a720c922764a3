"""Symbolic executor / verification condition generator over LLVM IR (see DESIGN.md)."""
import sys, time, itertools
import z3
import sweep
from vals import *
from ir import Module
sys.setrecursionlimit(100000)

class Reg:
    __slots__ = ("id", "name", "kind", "addr", "align", "fn", "elem", "abase")
    def __init__(self, id, name, kind, align=1):
        self.id = id; self.name = name; self.kind = kind; self.align = align; self.fn = None; self.elem = None
        k = align.bit_length() - 1 if align & (align - 1) == 0 else 0
        self.abase = z3.BitVec("addr!%d" % id, 64 - k)
        self.addr = z3.Concat(self.abase, z3.BitVecVal(0, k)) if k else self.abase

class Seg:
    __slots__ = ("lo", "hi", "arr", "nb", "pool")
    def __init__(self, lo, hi, arr, nb, pool=None):
        self.lo = lo; self.hi = hi; self.arr = arr; self.nb = nb; self.pool = pool   # hi None: up to the object's size
    def with_arr(self, arr): return Seg(self.lo, self.hi, arr, self.nb, self.pool)

class Obj:
    """contents of a region in one state (treated as immutable)"""
    __slots__ = ("size", "cells", "segs", "default", "freed")
    def __init__(self, size, cells=None, segs=(), default="undef", freed=False):
        self.size = size; self.cells = cells if cells is not None else {}; self.segs = segs; self.default = default; self.freed = freed
    def copy(self):
        return Obj(self.size, dict(self.cells), self.segs, self.default, self.freed)

class Frame:
    __slots__ = ("fn", "env", "blk", "ip", "prev", "call", "loops", "depth")
    def copy(self):
        f = Frame(); f.fn = self.fn; f.env = dict(self.env); f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.call = self.call; f.loops = dict(self.loops); f.depth = self.depth
        return f

class State:
    __slots__ = ("frames", "mem", "pc", "axioms", "inputs", "exc", "logs", "model", "ghost", "trace", "outcome", "ret", "cuts", "strings", "caught")
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.axioms = list(self.axioms); s.inputs = list(self.inputs)
        s.exc = self.exc; s.logs = dict(self.logs); s.model = self.model; s.ghost = dict(self.ghost)
        s.trace = self.trace; s.outcome = None; s.ret = None; s.cuts = self.cuts; s.strings = dict(self.strings); s.caught = list(self.caught)
        return s

class Obligation:
    __slots__ = ("name", "kind", "status", "backend", "time", "where", "cex", "reason", "cuts", "n")

class Timeout(Exception):
    pass

class Solver:
    """incremental feasibility solver + one-shot provers"""
    def __init__(self, ex):
        self.ex = ex
        self.s = z3.SolverFor("QF_AUFBV") if False else z3.Solver()
        self.stack = []
        self.nq = 0; self.tq = 0.0
    def sync(self, conj):
        k = 0
        n = min(len(conj), len(self.stack))
        while k < n and self.stack[k] is conj[k]: k += 1
        if len(self.stack) > k:
            self.s.pop(len(self.stack) - k); del self.stack[k:]
        for c in conj[k:]:
            self.s.push(); self.s.add(c); self.stack.append(c)
    def check(self, conj, extra, timeout_ms):
        t = time.time()
        self.nq += 1
        if self.nq % 400 == 0:   # z3's incremental state degrades
            self.s = z3.Solver(); self.stack = []
        self.sync(conj)
        self.s.set("timeout", int(timeout_ms))
        self.s.push()
        for e in extra: self.s.add(e)
        r = self.s.check()
        self.ex.dumpq("inc", self.s, time.time() - t, r)
        m = None
        if r == z3.sat:
            try: m = self.s.model()
            except z3.Z3Exception: m = None
        self.s.pop()
        self.tq += time.time() - t
        return r, m

class Exec:
    UNROLL_MAX = 130
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(feas_ms=1000, prove_ms=20000, prove2_ms=40000, max_paths=20000, deadline=None, verbose=0)
        self.o.update(opts or {})
        ROT.update(on=bool(self.o.get("rot")), memo={}, defs={})
        self.regs = {}
        self.nreg = itertools.count(1)
        self.serial = itertools.count(1)
        self.gl = {}             # global name -> rid
        self.ginit = {}          # rid -> Obj
        self.fnreg = {}          # function name -> rid
        self.scanning = 0
        self.solver = Solver(self); self.fsolver = Solver(self)
        self.obls = {}           # (name) -> Obligation
        self.failures = []
        self.reached = set(); self.reach_want = set()
        self.fns_executed = set()
        self.trusted_used = {}
        self.loops_cut = {}
        self.npaths = 0
        self.ninst = 0
        self.inv_fns = None
        self.replace = self.o.get("replace", {})     # demangled prefix -> replacement function demangled prefix
        self.replaced = set()
        self.axiom_cache = {}
        self.fold_defs = {}
        self.lib = None
        self.notes = set()
        self.tent = 0
        self.t0 = time.time(); self.cutcount = 0; self.cur = None; self.merging = 0; self.merging_spec = 0; self.tmpl = {}; self.p2i = {}
        import libmodel
        self.lib = libmodel.Lib(self)

    def dumpq(self, kind, s, dt, r):
        import os
        d = os.environ.get("VC_DUMPQ")
        if d and dt > float(os.environ.get("VC_DUMPT", "1")):
            n = next(self.serial)
            open("%s/q%d_%s_%s_%.1f.smt2" % (d, n, kind, r, dt), "w").write("(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n")

    # -- symbols ------------------------------------------------------------------------------------------------------
    def fresh(self, name, w):
        n = "%s!%d" % (name, next(self.serial))
        if w == 1: return z3.Bool(n)
        return z3.BitVec(n, w)
    def fresh_arr(self, name, nb):
        return ABase("%s!%d" % (name, next(self.serial)), nb * 8)

    def new_region(self, st, name, size, kind, align=1, default="undef", segs=(), cells=None):
        rid = next(self.nreg)
        r = Reg(rid, name, kind, align)
        self.regs[rid] = r
        st.mem[rid] = Obj(size, cells, segs, default)
        return rid

    def addr_axioms(self, st, rid):
        """address of a region as an integer: non-null, aligned, not wrapping"""
        key = ("addr", rid)
        if key in st.ghost: return
        st.ghost[key] = True
        r = self.regs[rid]
        a = r.addr
        st.axioms.append(z3.And(z3.UGE(a, 4096), z3.ULE(a, (1 << 47) - 1)))
        if r.align > 1 and r.align & (r.align - 1): st.axioms.append(z3.URem(a, z3.BitVecVal(r.align, 64)) == 0)
        sz = st.mem[rid].size if rid in st.mem else 8
        if not is_c(sz): st.axioms.append(z3.ULE(sz, z3.BitVecVal(1 << 46, 64)))

    def global_reg(self, st, name):
        if name in self.gl:
            rid = self.gl[name]
        else:
            if name in self.mod.fns or name in self.mod.decls:
                if name in self.fnreg: return self.fnreg[name]
                rid = next(self.nreg)
                r = Reg(rid, "fn:" + name, "fn", 16); r.fn = name
                self.regs[rid] = r; self.fnreg[name] = rid
                self.ginit[rid] = Obj(1)
                return rid
            g = self.mod.globals.get(name)
            if g is None: raise Unsupported("global " + name)
            rid = next(self.nreg)
            r = Reg(rid, name, "const" if g["const"] else "global", max(1, g["al"]))
            self.regs[rid] = r
            self.gl[name] = rid
            obj = Obj(g["z"], {}, (), "sym" if "init" not in g else "zero")
            if "init" in g:
                self.init_obj(st, obj, 0, g["init"], g["t"])
            self.add_type_segs(obj, g["t"], 0, "zero" if "init" in g else "sym")
            self.ginit[rid] = obj
        if rid not in st.mem: st.mem[rid] = self.ginit[rid]
        return rid

    def init_obj(self, st, obj, off, c, t):
        if not isinstance(c, dict): raise Unsupported("init")
        if "zero" in c or "undef" in c: return
        if "agg" in c:
            tt = c["t"]
            if "a" in tt:
                et = tt["a"]
                if isinstance(et, int) and et % 8 == 0 and all("i" in x or "zero" in x for x in c["agg"]):
                    nb = et // 8
                    vals = [int(x.get("i", "0")) for x in c["agg"]]
                    obj.segs = tuple(obj.segs) + (Seg(off, off + nb * len(vals), AConst(vals, et, nb), nb),)
                    return
                z = tt["z"] // max(1, tt["n"])
                for k, x in enumerate(c["agg"]): self.init_obj(st, obj, off + k * z, x, et)
            else:
                for k, x in enumerate(c["agg"]): self.init_obj(st, obj, off + tt["o"][k], x, tt["s"][k])
            return
        v = self.const(st, c)
        obj.cells[off] = (self.tsize(t), v)

    def add_type_segs(self, obj, t, off, default):
        """integer arrays inside the object become segments (unless initialised by a table)"""
        if not isinstance(t, dict): return
        if "a" in t:
            et = t["a"]
            if isinstance(et, int) and et % 8 == 0 and t["n"] > 1:
                nb = et // 8
                for s in obj.segs:
                    if s.lo == off: return
                if any(off <= o < off + t["z"] for o in obj.cells): return
                arr = AConst([0], et, nb) if default == "zero" else self.fresh_arr("mem", nb)
                if default == "zero":
                    arr = AFill(self.fresh_arr("z", nb), 0, (1 << 63), 0)
                obj.segs = tuple(obj.segs) + (Seg(off, off + t["z"], arr, nb),)
            elif et == "ptr" or isinstance(et, int): return
            elif t["n"] <= 64:
                z = t["z"] // max(1, t["n"])
                for k in range(t["n"]): self.add_type_segs(obj, et, off + k * z, default)
        elif "s" in t:
            for k, x in enumerate(t["s"]): self.add_type_segs(obj, x, off + t["o"][k], default)

    # -- constants / operands ------------------------------------------------------------------------------------------
    def tsize(self, t):
        if isinstance(t, int): return (t + 7) // 8
        if t == "ptr" or t == "double": return 8
        if t == "float": return 4
        if isinstance(t, dict):
            if "z" in t: return t["z"]
            if "v" in t: return self.tsize(t["v"]) * t["n"]
        if t == "x86_fp80": return 16
        raise Unsupported("size of %s" % (t,))

    def const(self, st, c):
        if "i" in c: return int(c["i"])
        if "null" in c: return NULL
        if "g" in c: return Ptr(self.global_reg(st, c["g"]), 0)
        if "gep" in c:
            p = self.val(st, None, c["gep"])
            return Ptr(p.reg, add64(p.off, c["off"] & mask(64)))
        if "f" in c:
            n = int(c["f"])
            if c["t"] == "double": return z3.fpBVToFP(z3.BitVecVal(n, 64), z3.Float64())
            if c["t"] == "float": return z3.fpBVToFP(z3.BitVecVal(n, 32), z3.Float32())
            raise Unsupported("fp const")
        if "undef" in c: return self.undef(c["undef"])
        if "zero" in c: return self.zero(c["zero"])
        if "agg" in c: return [self.const(st, x) for x in c["agg"]]
        if "meta" in c: return None
        if "ce" in c:
            ops = [self.val(st, None, x) for x in c["ops"]]
            if c["ce"] in ("bitcast", "addrspacecast"): return ops[0]
            if c["ce"] == "ptrtoint": return self.ptrtoint(st, ops[0])
            if c["ce"] == "inttoptr": return self.inttoptr(st, ops[0])
        raise Unsupported("constant %s" % (str(c)[:80],))

    def undef(self, t):
        if isinstance(t, int): return self.fresh("undef", t)
        if t == "ptr": return NULL
        if t in ("double", "float"): return z3.FreshConst(z3.Float64() if t == "double" else z3.Float32(), "undef")
        if isinstance(t, dict) and "s" in t: return [self.undef(x) for x in t["s"]]
        if isinstance(t, dict) and "a" in t: return [self.undef(t["a"]) for _ in range(t["n"])]
        raise Unsupported("undef %s" % (t,))

    def zero(self, t):
        if isinstance(t, int): return 0
        if t == "ptr": return NULL
        if t == "double": return z3.FPVal(0.0, z3.Float64())
        if t == "float": return z3.FPVal(0.0, z3.Float32())
        if isinstance(t, dict) and "s" in t: return [self.zero(x) for x in t["s"]]
        if isinstance(t, dict) and "a" in t: return [self.zero(t["a"]) for _ in range(t["n"])]
        raise Unsupported("zero %s" % (t,))

    def val(self, st, fr, o):
        if isinstance(o, int): return fr.env[o]
        return self.const(st, o)

    # -- pointers as integers -------------------------------------------------------------------------------------------
    def ptrtoint(self, st, p):
        if not isinstance(p, Ptr): return p
        if p.reg == 0: return p.off
        if self.regs[p.reg].kind == "pool": return p.off
        self.addr_axioms(st, p.reg)
        r = self.regs[p.reg]
        k = r.addr.size() - r.abase.size()
        if k and is_c(p.off) and p.off < (1 << 40):     # low bits stay constants
            lo = z3.BitVecVal(p.off & ((1 << k) - 1), k)
            return norm(z3.simplify(z3.Concat(r.abase + (p.off >> k), lo)))
        return norm(z3.simplify(r.addr + V(p.off, 64)))

    def inttoptr(self, st, v):
        if is_c(v): return Ptr(0, v)
        names = {}
        seen = set(); todo = [v]
        while todo:
            e = todo.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("addr!"):
                names[int(e.decl().name()[5:])] = e
            todo.extend(e.children())
        if len(names) != 1: raise Unsupported("inttoptr %s" % str(v)[:100])
        (rid, a), = names.items()
        a = self.regs[rid].addr
        w = norm(z3.simplify(z3.substitute(v, (self.regs[rid].abase, z3.BitVecVal(0, self.regs[rid].abase.size())))))
        if is_c(w) and self.valid_quick(st, simp(v == a + z3.BitVecVal(w, 64))): return Ptr(rid, w)
        return Ptr(rid, sub64(v, a))

    # -- queries ---------------------------------------------------------------------------------------------------------
    def facts(self, st):
        if ROT["defs"]: return st.pc + st.axioms + [c == d for c, d in ROT["defs"].values()]
        return st.pc + st.axioms

    def facts_matter(self, st):
        """does the path condition mention a defined constant?"""
        if not ROT["defs"]: return False
        seen = set(); todo = list(st.pc + st.axioms)
        while todo:
            e = todo.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if e.get_id() in ROT["defs"]: return True
            todo.extend(e.children())
        return False

    def deadline(self):
        d = self.o["deadline"]
        if d and time.time() > d: raise Timeout()

    def feasible(self, st, cond):
        """may cond be true in st?"""
        if is_c(cond): return bool(cond)
        self.deadline()
        if st.model is not None:
            v = st.model.eval(cond, model_completion=True)
            if z3.is_true(v): return True
        r, m = self.fsolver.check(st.pc, [cond], self.o["feas_ms"])
        if r == z3.unsat: return False
        if self.o.get("feas_full") and st.axioms:
            r, m = self.solver.check(self.facts(st), [cond], self.o["feas_ms"])
        if r == z3.sat and m is not None:
            st.model = m
        if r == z3.unknown and self.int_unsat(st.pc + [cond]): return False
        return r != z3.unsat

    def int_unsat(self, conj, ms=2000):
        """refutation by cvc5 after translation to integer arithmetic (good at offsets and lengths)"""
        if self.o.get("fp") or self.o.get("no_int"): return False
        import subprocess
        conj = self.ackermann(conj)
        if conj is None: return False
        s = z3.Solver()
        for c in conj: s.add(c)
        txt = s.sexpr()
        if "(lambda" in txt or "(_ map" in txt: return False
        for op in ("udiv", "urem", "sdiv", "srem", "smod"): txt = txt.replace("bv%s_i " % op, "bv%s " % op)
        t = time.time()
        try:
            r = subprocess.run(["cvc5", "--solve-bv-as-int=iand", "--tlimit=%d" % ms, "--lang=smt2", "-"], input="(set-logic ALL)\n" + txt + "\n(check-sat)\n",
                               capture_output=True, text=True, timeout=ms / 1000 + 5).stdout.strip()
        except subprocess.TimeoutExpired: r = ""
        self.solver.nq += 1; self.solver.tq += time.time() - t
        return r == "unsat"

    def valid_quick(self, st, cond, ms=None):
        if is_c(cond): return bool(cond)
        if st.model is not None:
            v = st.model.eval(cond, model_completion=True)
            if z3.is_false(v): return False
        r, m = self.solver.check(self.facts(st), [z3.Not(cond)], ms or self.o["feas_ms"])
        if r == z3.sat and m is not None: st.model = m
        if r == z3.unknown and self.o.get("vq_int"): return self.int_unsat(self.facts(st) + [z3.Not(cond)])
        return r == z3.unsat

    def assume(self, st, cond):
        if is_c(cond):
            if not cond: return False
            return True
        if z3.is_and(cond):
            ok = True
            for c in cond.children():
                if not self.assume(st, norm(c)): return False
            return ok
        st.pc.append(cond)
        if st.model is not None and not z3.is_true(st.model.eval(cond, model_completion=True)):
            st.model = None
        return True

    def prove(self, st, cond):
        """returns (status, backend, model, reason)"""
        if is_c(cond):
            if cond: return "proved", "trivial", None, ""
        cond = z3.BoolVal(False) if is_c(cond) else z3.simplify(cond)
        if z3.is_true(cond): return "proved", "simplifier", None, ""
        self.deadline()
        r, m = self.solver.check(self.facts(st), [z3.Not(cond)], self.o.get("inc_ms", 250))
        if r == z3.unsat: return "proved", "z3", None, ""
        if r == z3.sat and m is not None: return "failed", "z3", m, "sat"
        if self.o.get("sweep", 1):
            try: g, pt = sweep.sweep(cond, {k: d[1] for k, d in ROT["defs"].items()}, self.o.get("sweep_s", 60))
            except z3.Z3Exception: g = pt = None
            if g is not None and z3.is_true(g): return "proved", "z3(sweep)", None, ""
            if pt is not None:              # fails on random input: is that input admitted by the path?
                r, m = self.solver.check(self.facts(st) + [z3.Not(cond)] + pt, [], self.o["prove_ms"])
                if r == z3.sat and m is not None: return "failed", "z3(random input)", m, "sat"
        # one-shot, non-incremental, several solvers
        self.deadline()
        t = time.time()
        r2, who = self.portfolio(self.facts(st) + [z3.Not(cond)], self.o["prove_ms"])
        self.solver.nq += 1; self.solver.tq += time.time() - t
        if r2 == "unsat": return "proved", who, None, ""
        # counterexample wanted
        self.deadline()
        t = time.time()
        s = z3.Tactic("qfaufbv").solver() if not self.o.get("fp") else z3.Solver()
        s.set("timeout", self.o["prove_ms"])
        for c in self.facts(st): s.add(c)
        s.add(z3.Not(cond))
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        self.solver.nq += 1; self.solver.tq += time.time() - t
        if r == z3.unsat: return "proved", "z3(qfaufbv)", None, ""
        if r == z3.sat: return "failed", "z3(qfaufbv)", s.model(), "sat"
        if r2 == "sat": return "failed", who, None, "sat"
        return "unknown", "z3+cvc5", None, "timeout/unknown"

    def ackermann(self, conj, limit=40):
        """array reads -> fresh values plus pairwise congruence (the queries only ever read base arrays)"""
        conj = list(conj)
        reads = {}; subs = []; seen = {}
        def visit(t):
            stack = [(t, False)]
            while stack:
                x, ready = stack.pop()
                k = x.get_id()
                if k in seen: continue
                if not ready:
                    stack.append((x, True))
                    for c in x.children(): stack.append((c, False))
                    continue
                ch = [seen[c.get_id()][1] for c in x.children()]
                y = x
                if ch and any(a.get_id() != b.get_id() for a, b in zip(ch, x.children())): y = x.decl()(*ch)
                if z3.is_select(x) and z3.is_const(x.arg(0)):
                    l = reads.setdefault(x.arg(0).get_id(), [])
                    for i, v in l:
                        if i.get_id() == y.arg(1).get_id(): y = v; break
                    else:
                        v = z3.FreshConst(x.sort(), "rd"); l.append((y.arg(1), v)); y = v
                seen[k] = (x, y)
        for c in conj: visit(c)
        n = sum(len(l) for l in reads.values())
        if n == 0: return conj
        if n > limit: return None
        out = [seen[c.get_id()][1] for c in conj]
        for l in reads.values():
            for a in range(len(l)):
                for b in range(a):
                    if z3.is_bv_value(l[a][0]) and z3.is_bv_value(l[b][0]) : continue
                    out.append(z3.Implies(l[a][0] == l[b][0], l[a][1] == l[b][1]))
        return out

    def portfolio(self, conj, ms):
        """independent solvers side by side on the SMT-LIB text; returns (answer, solver)"""
        import subprocess, tempfile, os
        s = z3.Solver()
        for c in conj: s.add(c)
        txt = s.sexpr()
        if "(lambda" in txt or "(_ map" in txt: return "unknown", ""
        for op in ("udiv", "urem", "sdiv", "srem", "smod"): txt = txt.replace("bv%s_i " % op, "bv%s " % op)
        def file(check):
            f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
            f.write("(set-logic ALL)\n" + txt + "\n" + check + "\n"); f.close()
            return f.name
        plain = file("(check-sat)")
        sec = max(1, (ms + 999) // 1000)
        plan = [(0, "z3-4.8", ["z3", "-T:%d" % sec, "-memory:4000", plain]), (4, "cvc5", ["cvc5", "--tlimit=%d" % ms, plain])]
        files = [plain]
        if not self.o.get("fp"):
            files.append(file("(check-sat-using qfaufbv)"))
            ack = self.ackermann(conj)
            if ack is not None:
                s = z3.Solver()
                for c in ack: s.add(c)
                txt = s.sexpr()
                for op in ("udiv", "urem", "sdiv", "srem", "smod"): txt = txt.replace("bv%s_i " % op, "bv%s " % op)
                files.append(file("(check-sat)"))
                plan.insert(0, (0, "cvc5(bv-as-int)", ["cvc5", "--solve-bv-as-int=iand", "--tlimit=%d" % ms, files[-1]]))  # only its unsat answers are used
            plan.insert(len(plan) - 1, (0.6, "z3(qfaufbv)", ["z3-new", "-T:%d" % sec, "-memory:4000", files[1]]))
        live = []; allp = []
        t0 = time.time()
        try:
            while time.time() < t0 + ms / 1000 + 3:
                while plan and time.time() >= t0 + plan[0][0]:
                    _, nm, cmd = plan.pop(0)
                    p = (nm, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
                    live.append(p); allp.append(p)
                for x in list(live):
                    if x[1].poll() is not None:
                        live.remove(x)
                        r = (x[1].stdout.read() or "unknown").strip().split("\n")[0]
                        if r == "unsat" or (r == "sat" and "as-int" not in x[0]): return r, x[0]
                if not live and not plan: break
                time.sleep(0.01)
            return "unknown", ""
        finally:
            for _, p in allp:
                if p.poll() is None: p.kill()
                p.wait()
            d = os.environ.get("VC_DUMPQ")
            if d and time.time() - t0 > float(os.environ.get("VC_DUMPT", "1")):
                import shutil
                n = next(self.serial)
                for i, f in enumerate(files): shutil.copy(f, "%s/p%d_%.1f_%d.smt2" % (d, n, time.time() - t0, i))
            for f in files: os.unlink(f)

    # -- obligations -----------------------------------------------------------------------------------------------------
    def oblige(self, st, cond, name, kind="check", where=""):
        """prove cond in st, then continue under it. Returns False if the path dies."""
        if is_c(cond) and cond:
            if not self.scanning and kind == "check": self.record(name, kind, "proved", "trivial", 0.0, where, st)
            return True
        if self.scanning:
            return self.assume(st, cond)
        t = time.time()
        status, backend, model, reason = self.prove(st, cond)
        dt = time.time() - t
        ob = self.record(name, kind, status, backend, dt, where, st)
        if status == "failed":
            if ob.cex is None:
                ob.cex = self.counterexample(st, cond, model)
                ob.cuts = tuple(st.cuts)
            ob.reason = "counterexample (sat)"
        elif status == "unknown": ob.reason = reason
        if status != "proved":
            if is_c(cond): return False
            if not self.feasible(st, cond): return False
        return self.assume(st, cond)

    def record(self, name, kind, status, backend, dt, where, st):
        ob = self.obls.get(name)
        if ob is None:
            ob = Obligation(); ob.name = name; ob.kind = kind; ob.status = "proved"; ob.backend = {}; ob.time = 0.0; ob.where = where
            ob.cex = None; ob.reason = ""; ob.cuts = (); ob.n = 0
            self.obls[name] = ob
        ob.n += 1
        ob.time += dt
        ob.backend[backend] = ob.backend.get(backend, 0) + 1
        rank = {"proved": 0, "unknown": 1, "failed": 2}
        if rank[status] > rank[ob.status]: ob.status = status
        if self.o["verbose"] and status != "proved":
            print("  [%s] %s %s (%s) %.1fs" % (status, name, where, backend, dt), file=sys.stderr)
        return ob

    def counterexample(self, st, cond, model):
        """prefer small buffers"""
        facts = self.facts(st) + [z3.Not(B(cond))]
        small = []
        for (nm, kind, e, extra) in st.inputs:
            if kind == "buf" and not is_c(e): small.append(e)
        m = model
        for lim in (24, 96, 2000):
            if not small: break
            s = z3.Solver(); s.set("timeout", 4000)
            for c in facts: s.add(c)
            for e in small: s.add(z3.ULE(e, lim))
            try:
                if s.check() == z3.sat: m = s.model(); break
            except z3.Z3Exception: pass
        if m is None: return None
        out = []
        for (nm, kind, e, extra) in st.inputs:
            if kind == "buf":
                n = e if is_c(e) else m.eval(e, model_completion=True).as_long()
                data = []
                for k in range(min(n, 4096)):
                    b = extra.read(k)
                    data.append(b if is_c(b) else m.eval(b, model_completion=True).as_long())
                out.append((nm, kind, n, data))
            elif kind == "fp":
                v = m.eval(z3.fpToIEEEBV(e), model_completion=True)
                out.append((nm, kind, v.as_long() if z3.is_bv_value(v) else 0, None))
            else:
                if is_c(e): out.append((nm, kind, e, None))
                else:
                    v = m.eval(e, model_completion=True)
                    out.append((nm, kind, (1 if z3.is_true(v) else 0) if z3.is_bool(v) else v.as_long(), None))
        return out

    # -- memory ----------------------------------------------------------------------------------------------------------
    def obj(self, st, rid):
        o = st.mem.get(rid)
        if o is None:
            o = self.ginit.get(rid)
            if o is None: raise Unsupported("dead region %s" % self.regs[rid].name)
            st.mem[rid] = o
        return o

    def bounds(self, st, p, nb, what, where):
        if p.reg == 0:
            if not self.oblige(st, 0, "ub.null-deref@" + where, "ub", where): return False
            return False
        o = self.obj(st, p.reg)
        if o.freed:
            if not self.oblige(st, 0, "ub.use-after-free@" + where, "ub", where): return False
        k = self.regs[p.reg].kind
        if k == "pool": return True
        if k == "const" and what == "store":
            self.oblige(st, 0, "ub.write-to-constant@" + where, "ub", where); return False
        if k == "fn":
            raise Unsupported("memory access to function")
        sz = o.size
        if is_c(p.off) and is_c(sz) and is_c(nb):
            c = int(p.off + nb <= sz)
        else:
            off, n, s = V(p.off, 64), V(nb, 64), V(sz, 64)
            c = simp(z3.And(z3.ULE(n, s), z3.ULE(off, s - n)))
        if is_c(c) and c: return True
        return self.oblige(st, c, "ub.out-of-bounds-%s@%s" % (what, where), "ub", where)

    def find_seg(self, st, o, off, nb):
        if is_c(off):
            for k, s in enumerate(o.segs):
                if s.lo <= off and (s.hi is None or off < s.hi): return k
            return None
        if not o.segs: return -1
        if len(o.segs) == 1 and o.segs[0].lo == 0 and (o.segs[0].hi is None or (is_c(o.size) and o.segs[0].hi == o.size)): return 0
        # guess by the constant part
        order = list(range(len(o.segs)))
        cpart = self.const_part(off)
        order.sort(key=lambda k: 0 if o.segs[k].lo <= cpart and (o.segs[k].hi is None or cpart < o.segs[k].hi) else 1)
        for k in order:
            s = o.segs[k]
            hi = s.hi if s.hi is not None else o.size
            c = simp(z3.And(z3.UGE(off, V(s.lo, 64)), z3.ULT(off, V(hi, 64))))
            if self.valid_quick(st, c): return k
        return -1

    def const_part(self, off):
        if is_c(off): return off
        e = z3.simplify(off)
        if e.decl().kind() == z3.Z3_OP_BADD:
            for c in e.children():
                if z3.is_bv_value(c): return c.as_long()
        return 0

    def load(self, st, p, t, where=""):
        if isinstance(t, dict):
            if "s" in t: return [self.load(st, Ptr(p.reg, add64(p.off, t["o"][k])), x, where) for k, x in enumerate(t["s"])]
            if "a" in t:
                z = t["z"] // max(1, t["n"])
                return [self.load(st, Ptr(p.reg, add64(p.off, k * z)), t["a"], where) for k in range(t["n"])]
            raise Unsupported("load %s" % t)
        nb = self.tsize(t)
        o = self.obj(st, p.reg) if p.reg else None
        if p.reg and self.regs[p.reg].kind == "pool":
            return self.lib.pool_load(st, p, nb, t, where)
        k = self.find_seg(st, o, p.off, nb)
        if k is not None and k >= 0:
            s = o.segs[k]
            off = p.off
            if t == "ptr" and s.pool is not None:
                v = s.arr.read(off)
                return Ptr(s.pool, v)
            if s.nb == nb:
                v = s.arr.read(off)
                if self.regs[p.reg].kind == "pool": pass
            elif s.nb < nb:
                parts = [s.arr.read(add64(off, j)) for j in range(0, nb, s.nb)]
                v = self.concat(parts, s.nb * 8)
            else:
                # narrower access inside wider elements (only concrete offsets)
                if not is_c(off): raise Unsupported("narrow load in wide array")
                base = off - (off - s.lo) % s.nb
                e = s.arr.read(base)
                sh = (off - base) * 8
                v = (e >> sh) & mask(nb * 8) if is_c(e) else norm(z3.simplify(z3.Extract(sh + nb * 8 - 1, sh, e)))
            return self.as_type(st, v, nb, t)
        if not is_c(p.off):
            # symbolic offset into plain cells
            v = self.load_cells_sym(st, p, o, nb, t, where)
            return v
        c = o.cells.get(p.off)
        if c is not None and c[0] == nb: return self.as_type(st, c[1], nb, t)
        v = self.load_compose(st, p, o, nb, t)
        return self.as_type(st, v, nb, t)

    def load_cells_sym(self, st, p, o, nb, t, where):
        if t == "ptr" or not is_c(o.size): raise Unsupported("symbolic offset load in %s %s" % (self.regs[p.reg].name, p.off))
        offs = [k for k in sorted(o.cells) if o.cells[k][0] == nb and not isinstance(o.cells[k][1], Ptr)]
        # admissible targets: existing cells of that width which the offset can hit
        res = None
        hits = []
        for k in offs:
            if self.feasible(st, simp(p.off == k)): hits.append(k)
        if not hits: raise Unsupported("symbolic offset load")
        if not self.valid_quick(st, simp(z3.Or([p.off == k for k in hits]))): raise Unsupported("symbolic offset load (2)")
        w = nb * 8
        for k in hits:
            v = V(self.as_type(st, o.cells[k][1], nb, w), w)
            res = v if res is None else z3.If(p.off == k, v, res)
        return self.as_type(st, norm(res), nb, t)

    def concat(self, parts, w):
        if all(is_c(x) for x in parts):
            r = 0
            for k, x in enumerate(parts): r |= x << (k * w)
            return r
        if len(parts) == 1: return parts[0]
        return norm(z3.simplify(z3.Concat(*[V(x, w) for x in reversed(parts)])))

    def load_byte(self, st, rid, off):
        o = st.mem[rid]
        for s in o.segs:
            if s.lo <= off and (s.hi is None or off < s.hi):
                base = off - (off - s.lo) % s.nb
                e = s.arr.read(base); sh = (off - base) * 8
                if is_c(e): return (e >> sh) & 255
                return e if s.nb == 1 else norm(z3.simplify(z3.Extract(sh + 7, sh, e)))
        for b in range(off, off - 16, -1):
            c = o.cells.get(b)
            if c is not None:
                if b + c[0] > off:
                    v = c[1]
                    if isinstance(v, Ptr): v = self.ptrtoint(st, v)
                    if z3.is_fp(v) if not is_c(v) else False: v = z3.fpToIEEEBV(v)
                    sh = (off - b) * 8
                    if is_c(v): return (v >> sh) & 255
                    w = c[0] * 8
                    return norm(z3.simplify(z3.Extract(sh + 7, sh, V(v, w))))
                break
        if o.default == "zero": return 0
        v = self.fresh("mem_%s_%d" % (self.regs[rid].name, off), 8)
        o = o.copy(); o.cells[off] = (1, v); st.mem[rid] = o
        return v

    def load_compose(self, st, p, o, nb, t):
        lo, hi = p.off, p.off + nb
        touched = any(b < hi and b + c[0] > lo for b, c in o.cells.items() if b > lo - 16 and b < hi)
        if not touched and not any(s.lo < hi and (s.hi is None or s.hi > lo) for s in o.segs):
            if o.default == "zero":
                return 0 if t != "ptr" else NULL
            if t == "ptr" :
                raise Unsupported("load of uninitialised pointer in %s+%d" % (self.regs[p.reg].name, p.off))
            v = self.fresh("mem_%s_%d" % (self.regs[p.reg].name, p.off), nb * 8)
            o = o.copy(); o.cells[p.off] = (nb, v); st.mem[p.reg] = o
            return v
        return self.concat([self.load_byte(st, p.reg, p.off + k) for k in range(nb)], 8)

    def as_type(self, st, v, nb, t):
        if t == "ptr":
            if isinstance(v, Ptr): return v
            if is_c(v): return Ptr(0, v) if v else NULL
            return self.inttoptr(st, v)
        if isinstance(v, Ptr): v = self.ptrtoint(st, v)
        if t == "double":
            if is_c(v): return z3.fpBVToFP(z3.BitVecVal(v, 64), z3.Float64())
            return v if z3.is_fp(v) else z3.fpBVToFP(v, z3.Float64())
        if t == "float":
            if is_c(v): return z3.fpBVToFP(z3.BitVecVal(v, 32), z3.Float32())
            return v if z3.is_fp(v) else z3.fpBVToFP(v, z3.Float32())
        if not is_c(v) and z3.is_fp(v): v = z3.fpToIEEEBV(v)
        if isinstance(t, int) and t < nb * 8: v = trunc(V(v, nb * 8) if not is_c(v) else v, nb * 8, t)
        return v

    def store(self, st, p, v, t, where=""):
        if isinstance(t, dict):
            if "s" in t:
                for k, x in enumerate(t["s"]): self.store(st, Ptr(p.reg, add64(p.off, t["o"][k])), v[k], x, where)
                return
            if "a" in t:
                z = t["z"] // max(1, t["n"])
                for k in range(t["n"]): self.store(st, Ptr(p.reg, add64(p.off, k * z)), v[k], t["a"], where)
                return
            raise Unsupported("store %s" % t)
        nb = self.tsize(t)
        if isinstance(t, int) and t % 8:
            v = zext(v, t, nb * 8)
        if self.regs[p.reg].kind == "pool":
            return self.lib.pool_store(st, p, nb, v, t, where)
        o = self.obj(st, p.reg)
        k = self.find_seg(st, o, p.off, nb)
        if k is not None and k >= 0:
            s = o.segs[k]
            if isinstance(v, Ptr):
                v = v.off if s.pool is not None else self.ptrtoint(st, v)
            if not is_c(v) and z3.is_fp(v): v = z3.fpToIEEEBV(v)
            arr = s.arr
            if s.nb == nb: arr = AStore(arr, p.off, norm(V(v, nb * 8)))
            elif s.nb < nb:
                w = s.nb * 8
                for j in range(nb // s.nb):
                    e = (v >> (j * w)) & mask(w) if is_c(v) else norm(z3.simplify(z3.Extract(j * w + w - 1, j * w, v)))
                    arr = AStore(arr, add64(p.off, j * s.nb), e)
            else:
                if not is_c(p.off): raise Unsupported("narrow store in wide array")
                base = p.off - (p.off - s.lo) % s.nb
                e = V(s.arr.read(base), s.nb * 8)
                sh = (p.off - base) * 8; W = s.nb * 8; w = nb * 8
                parts = []
                if sh + w < W: parts.append(z3.Extract(W - 1, sh + w, e))
                parts.append(V(v, w))
                if sh: parts.append(z3.Extract(sh - 1, 0, e))
                arr = AStore(arr, base, norm(z3.simplify(z3.Concat(*parts) if len(parts) > 1 else parts[0])))
            no = o.copy()
            no.segs = o.segs[:k] + (s.with_arr(arr),) + o.segs[k + 1:]
            st.mem[p.reg] = no
            return
        if not is_c(p.off):
            return self.store_cells_sym(st, p, o, nb, v, t)
        # remove overlaps
        lo, hi = p.off, p.off + nb
        over = [b for b in o.cells if b < hi and b + o.cells[b][0] > lo and not (b == lo and o.cells[b][0] == nb)]
        keep = []
        for b in over:
            for q in range(b, b + o.cells[b][0]):
                if not (lo <= q < hi): keep.append((q, self.load_byte(st, p.reg, q)))
        no = st.mem[p.reg].copy()
        for b in over: no.cells.pop(b, None)
        for q, x in keep: no.cells[q] = (1, x)
        no.cells[p.off] = (nb, v)
        st.mem[p.reg] = no

    def store_cells_sym(self, st, p, o, nb, v, t):
        if isinstance(v, Ptr): raise Unsupported("symbolic offset pointer store")
        offs = [k for k in sorted(o.cells) if o.cells[k][0] == nb and not isinstance(o.cells[k][1], Ptr)]
        hits = [k for k in offs if self.feasible(st, simp(p.off == k))]
        if not hits or not self.valid_quick(st, simp(z3.Or([p.off == k for k in hits]))): raise Unsupported("symbolic offset store in %s" % self.regs[p.reg].name)
        no = o.copy()
        for k in hits: no.cells[k] = (nb, ite(p.off == k, v, no.cells[k][1], nb * 8))
        st.mem[p.reg] = no

    def seg_for(self, st, p, n):
        """segment index for a byte range operation, or None"""
        o = self.obj(st, p.reg)
        k = self.find_seg(st, o, p.off, 1)
        if k is None or k < 0: return None
        return k

    def make_bytes(self, st, rid):
        """turn a cells-only int region of concrete size into one byte segment"""
        o = st.mem[rid]
        if any(x.nb != 1 or not is_c(x.lo) or x.hi is None or not is_c(x.hi) for x in o.segs) or not is_c(o.size): raise Unsupported("make_bytes %s" % self.regs[rid].name)
        if any(isinstance(c[1], Ptr) for c in o.cells.values()): raise Unsupported("make_bytes ptr")
        if o.size > 65536: raise Unsupported("make_bytes big")
        arr = self.fresh_arr("mk", 1)
        if o.default == "zero": arr = AFill(arr, 0, o.size, 0)
        for b, c in sorted(o.cells.items()):
            v = self.as_type(st, c[1], c[0], c[0] * 8)
            for j in range(c[0]):
                e = (v >> (8 * j)) & 255 if is_c(v) else norm(z3.simplify(z3.Extract(8 * j + 7, 8 * j, v)))
                arr = AStore(arr, b + j, e)
        for x in o.segs: arr = ACopy(arr, x.lo, x.hi - x.lo, x.arr, x.lo)
        st.mem[rid] = Obj(o.size, {}, (Seg(0, o.size, arr, 1),), o.default, o.freed)

    def copy_bytes(self, st, d, s, n, where, move=False):
        if is_c(n) and n == 0: return True
        nz = simp(V(n, 64) != 0) if not is_c(n) else 1
        if not is_c(nz) and (d.reg == 0 or s.reg == 0):
            # memcpy(null, ..., 0) tolerated when the length is provably zero
            if self.valid_quick(st, notb(nz)): return True
        if not is_c(n):
            if self.valid_quick(st, notb(nz)): return True
        if not self.bounds(st, s, n, "load", where): return False
        if not self.bounds(st, d, n, "store", where): return False
        if s.reg == 0 or d.reg == 0: return False
        ks, kd = self.seg_for(st, s, n), self.seg_for(st, d, n)
        so, do = self.obj(st, s.reg), self.obj(st, d.reg)
        if is_c(n) and is_c(s.off) and is_c(d.off) and n <= 512 and (kd is None or ks is None or n <= 16):
            # cell-wise copy
            if kd is None and ks is None:
                items = []; off = 0
                b = s.off
                cov = {}
                end = s.off + n
                # exact cells inside range
                cells = so.cells
                pos = s.off
                while pos < end:
                    c = cells.get(pos)
                    if c is not None and pos + c[0] <= end:
                        items.append((pos - s.off, c[0], c[1])); pos += c[0]
                        continue
                    sg = [x for x in so.segs if x.lo <= pos and x.hi is not None and pos < x.hi]
                    if sg:
                        x = sg[0]
                        items.append((pos - s.off, ("seg", x), None)); pos = x.hi
                        continue
                    # gap: advance to the next cell
                    nxt = min([k for k in cells if k > pos and k < end] + [x.lo for x in so.segs if x.lo > pos and x.lo < end] + [end])
                    part = [k for k in cells if k < pos and k + cells[k][0] > pos]
                    if part:
                        items.append((pos - s.off, 1, self.load_byte(st, s.reg, pos))); pos += 1
                        continue
                    if so.default == "zero":
                        for q in range(pos, nxt): items.append((q - s.off, 1, 0))
                    elif so.default == "sym":
                        q = pos
                        while q < nxt:
                            step = 8 if q % 8 == 0 and q + 8 <= nxt else 4 if q % 4 == 0 and q + 4 <= nxt else 1
                            items.append((q - s.off, step, self.load(st, Ptr(s.reg, q), step * 8))); q += step
                    pos = nxt
                for (k, nb, v) in items:
                    if isinstance(nb, tuple):
                        x = nb[1]
                        dobj = self.obj(st, d.reg)
                        j = self.find_seg(st, dobj, d.off + k, 1)
                        if j is None:
                            no = dobj.copy()
                            no.segs = no.segs + (Seg(d.off + k, d.off + k + x.hi - x.lo, ACopy(self.fresh_arr("cp", x.nb), d.off + k, x.hi - x.lo, x.arr, x.lo), x.nb),)
                            for b in [b for b in no.cells if d.off + k <= b < d.off + k + x.hi - x.lo]: no.cells.pop(b)
                            st.mem[d.reg] = no
                        else:
                            sg = dobj.segs[j]
                            if sg.nb != x.nb: raise Unsupported("copy between different arrays")
                            no = dobj.copy()
                            no.segs = dobj.segs[:j] + (sg.with_arr(ACopy(sg.arr, d.off + k, x.hi - x.lo, x.arr, x.lo)),) + dobj.segs[j + 1:]
                            st.mem[d.reg] = no
                    else:
                        self.store(st, Ptr(d.reg, d.off + k), v, "ptr" if isinstance(v, Ptr) else nb * 8, where)
                return True
            if n <= 64:
                # element-wise through loads/stores
                w = 8 if ((ks is not None and so.segs[ks].nb == 8) or (kd is not None and do.segs[kd].nb == 8)) and n % 8 == 0 else 1
                if ks is not None and so.segs[ks].nb in (2, 4) and n % so.segs[ks].nb == 0: w = so.segs[ks].nb
                if kd is not None and do.segs[kd].nb in (2, 4) and n % do.segs[kd].nb == 0: w = do.segs[kd].nb
                vals = [self.load(st, Ptr(s.reg, s.off + j), w * 8) for j in range(0, n, w)]
                for j, v in enumerate(vals): self.store(st, Ptr(d.reg, d.off + j * w), v, w * 8)
                return True
        if ks is not None and so.segs[ks].hi is not None and so.segs[ks].hi is not so.size:
            h = so.segs[ks].hi
            fits = int(s.off + n <= h) if is_c(n) and is_c(s.off) and is_c(h) else simp(z3.ULE(V(n, 64), V(sub64(h, s.off), 64)))
            if not (fits if is_c(fits) else self.valid_quick(st, fits)): ks = None      # reads past this array: flatten the source first
        if ks is None:
            self.make_bytes(st, s.reg); ks = 0; so = st.mem[s.reg]
        if kd is None:
            self.make_bytes(st, d.reg); kd = 0
        do = st.mem[d.reg]; so = st.mem[s.reg]
        ss, ds = so.segs[ks], do.segs[kd]
        if ss.nb != ds.nb: raise Unsupported("copy between arrays of different element size")
        if ds.hi is not None and len(do.segs) > 1:
            c = simp(z3.ULE(V(n, 64), V(sub64(ds.hi, d.off), 64))) if not (is_c(n) and is_c(d.off)) else int(d.off + n <= ds.hi)
            if not self.oblige(st, c, "ub.copy-past-array@" + where, "ub", where): return False
        arr = ACopy(ds.arr, d.off, n, ss.arr, sub64(s.off, 0))
        no = do.copy()
        no.segs = do.segs[:kd] + (ds.with_arr(arr),) + do.segs[kd + 1:]
        st.mem[d.reg] = no
        return True

    def fill_bytes(self, st, d, v, n, where):
        if is_c(n) and n == 0: return True
        if d.reg == 0 and not is_c(n) and self.valid_quick(st, simp(n == 0)): return True
        if not self.bounds(st, d, n, "store", where): return False
        k = self.seg_for(st, d, n)
        o = self.obj(st, d.reg)
        if is_c(n) and is_c(d.off) and (k is None or (o.segs[k].hi is not None and d.off + n > o.segs[k].hi) or n <= 16):
            if k is None or not (o.segs[k].hi is None or d.off + n <= o.segs[k].hi):
                if not is_c(v): raise Unsupported("memset symbolic")
                no = o.copy()
                for b in [b for b in no.cells if d.off <= b < d.off + n]: no.cells.pop(b)
                segs = []
                covered = []
                for s in no.segs:
                    if s.hi is not None and d.off <= s.lo and s.hi <= d.off + n:
                        ev = int.from_bytes(bytes([v]) * s.nb, "little")
                        segs.append(s.with_arr(AFill(s.arr, s.lo, s.hi - s.lo, ev))); covered.append((s.lo, s.hi))
                    else: segs.append(s)
                no.segs = tuple(segs)
                q = d.off; end = d.off + n
                while q < end:
                    cv = [c for c in covered if c[0] <= q < c[1]]
                    if cv: q = cv[0][1]; continue
                    step = 8 if q % 8 == 0 and q + 8 <= end and not any(q < c[0] < q + 8 for c in covered) else 4 if q % 4 == 0 and q + 4 <= end and not any(q < c[0] < q + 4 for c in covered) else 1
                    no.cells[q] = (step, int.from_bytes(bytes([v]) * step, "little")); q += step
                st.mem[d.reg] = no
                return True
        if k is None:
            self.make_bytes(st, d.reg); k = 0; o = st.mem[d.reg]
        s = o.segs[k]
        if s.nb != 1:
            if not (is_c(v) and v == 0): raise Unsupported("memset wide")
        no = o.copy()
        no.segs = o.segs[:k] + (s.with_arr(AFill(s.arr, d.off, n, v)),) + o.segs[k + 1:]
        st.mem[d.reg] = no
        return True

    # -- execution -------------------------------------------------------------------------------------------------------
    def new_state(self):
        s = State()
        s.frames = []; s.mem = {}; s.pc = []; s.axioms = []; s.inputs = []; s.exc = None; s.logs = {}; s.model = None; s.ghost = {}
        s.trace = (); s.outcome = None; s.ret = None; s.cuts = (); s.strings = {}; s.caught = []
        return s

    def push_frame(self, st, fn, args, call=None):
        fr = Frame()
        fr.fn = fn; fr.env = {}; fr.blk = 0; fr.ip = 0; fr.prev = -1; fr.call = call; fr.loops = {}; fr.depth = len(st.frames)
        if len(st.frames) > 200: raise Unsupported("recursion")
        for p, a in zip(fn.params, args): fr.env[p["id"]] = a
        st.frames.append(fr)
        self.fns_executed.add(fn.d)

    def run(self, states, stop=None):
        """run all states to termination; stop(state) -> True ends a path (used by scans). Returns finished states."""
        work = list(states); done = []
        while work:
            st = work.pop()
            while True:
                r = self.step_block(st, work)
                if r == "cont":
                    continue
                if r == "done":
                    self.npaths += 1
                    done.append(st)
                    if self.npaths > self.o["max_paths"]: raise Unsupported("too many paths")
                break
        return done

    def where(self, fr, ins):
        return "%s" % (short(fr.fn.d),)

    def step_block(self, st, work):
        """execute until a terminator was processed; returns 'cont', 'done' (finished) or 'dead'"""
        self.deadline()
        fr = st.frames[-1]
        blk = fr.fn.blocks[fr.blk]
        n = len(blk)
        while fr.ip < n:
            ins = blk[fr.ip]
            self.ninst += 1
            op = ins["op"]
            if op == "phi":   # handled on the edge
                fr.ip += 1; continue
            h = getattr(self, "i_" + op, None)
            if h is None: raise Unsupported("instruction " + op)
            r = h(st, fr, ins, work)
            if r is None:
                fr.ip += 1; continue
            return r
        raise Unsupported("fell off block")

    # control transfer
    def jump(self, st, fr, tgt, work):
        src = fr.blk
        fn = fr.fn
        if fr.loops:
            for h in list(fr.loops):
                if tgt not in fn.loops[h]["blocks"]:
                    info = fr.loops.pop(h)
                    if info[0] == "scan":
                        info[1].exits.append(st)
                        return "dead"
                    if info[0] == "tent" and info[1] is not None:
                        pass
        # phis
        blk = fn.blocks[tgt]
        vals = []
        for ins in blk:
            if ins["op"] != "phi": break
            for (o, b) in ins["ops"]:
                if b == src:
                    vals.append((ins["id"], self.val(st, fr, o))); break
        if tgt in fn.loops:
            return self.loop_header(st, fr, src, tgt, vals, work)
        for k, v in vals: fr.env[k] = v
        fr.prev = src; fr.blk = tgt; fr.ip = 0
        return "cont"

    def loop_header(self, st, fr, src, h, vals, work):
        info = fr.loops.get(h)
        if info is not None:
            kind = info[0]
            if kind == "scan":
                info[1].latches.append((st, dict(vals)))
                return "dead"
            if kind == "final":
                return "dead"
            if kind in ("unroll", "tent"):
                cnt = info[2] + 1
                lim = 300 if self.merging_spec else self.o.get("unroll_max", 4200) if kind == "unroll" else 1200
                if cnt > lim:
                    if kind == "tent": raise TentFail()
                    if self.o.get("bmc"): self.notes.add("bounded-unroll"); return "dead"
                    raise Unsupported("unroll limit")
                fr.loops[h] = (kind, info[1], cnt)
                for k, v in vals: fr.env[k] = v
                fr.prev = src; fr.blk = h; fr.ip = 0
                return "cont"
        trip = fr.fn.loops[h]["trip"]
        mode = self.loop_mode(fr.fn, h, trip)
        if mode == "unroll":
            fr.loops[h] = ("unroll", None, 0)
            for k, v in vals: fr.env[k] = v
            fr.prev = src; fr.blk = h; fr.ip = 0
            return "cont"
        # tentative concrete execution
        if mode == "auto":
            t = self.tentative(st, fr, src, h, vals)
            if t is not None:
                st.frames = t.frames; st.mem = t.mem; st.pc = t.pc; st.axioms = t.axioms; st.inputs = t.inputs; st.exc = t.exc
                st.logs = t.logs; st.ghost = t.ghost; st.model = t.model; st.strings = t.strings; st.caught = t.caught
                return "cont"
        if self.o.get("bmc"):
            fr.loops[h] = ("unroll", None, 0)
            for k, v in vals: fr.env[k] = v
            fr.prev = src; fr.blk = h; fr.ip = 0
            return "cont"
        import loops
        return loops.cut(self, st, fr, src, h, vals, work)

    def loop_mode(self, fn, h, trip):
        for pat, m in self.o.get("loops", {}).items():
            if pat in fn.d: return m
        if trip and trip <= self.UNROLL_MAX: return "unroll"
        if self.merging_spec: return "unroll"        # specification functions are evaluated exactly: never cut their loops
        return "auto"

    def tentative(self, st, fr, src, h, vals):
        t = st.copy()
        tf = t.frames[-1]
        tf.loops[h] = ("tent", None, 0)
        for k, v in vals: tf.env[k] = v
        tf.prev = src; tf.blk = h; tf.ip = 0
        depth = len(t.frames)
        self.tent += 1; self.scanning += 1
        obs = []
        try:
            w = []
            while True:
                r = self.step_block(t, w)
                if w: return None
                if r != "cont": return None
                if len(t.frames) < depth: return None
                if len(t.frames) == depth and h not in t.frames[-1].loops: break
            # obligations inside were skipped: re-run for real is needed if not scanning
        except (TentFail, Unsupported):
            return None
        finally:
            self.tent -= 1; self.scanning -= 1
        if self.scanning == 0:
            # replay with obligations on: behaviour is deterministic
            t = st.copy(); tf = t.frames[-1]
            tf.loops[h] = ("unroll", None, 0)
            for k, v in vals: tf.env[k] = v
            tf.prev = src; tf.blk = h; tf.ip = 0
            w = []
            while True:
                r = self.step_block(t, w)
                if w or r != "cont": raise Unsupported("tentative replay diverged")
                if len(t.frames) == depth and h not in t.frames[-1].loops: break
        return t

    def fork(self, st, conds_targets, fr, work):
        """conds_targets: list of (cond, target block)"""
        live = []
        for c, t in conds_targets:
            if is_c(c):
                if c: live.append((c, t))
            else:
                live.append((c, t))
        if len(live) == 1: return self.jump(st, fr, live[0][1], work)
        if self.merging:
            node = next(self.serial)
            known = {}
            for (nd, j, c) in st.trace: known[c.get_id()] = c
            out = []
            for j, (c, t) in enumerate(live):
                if c.get_id() in known: out = [(j, c, t)]; break
                nc = norm(z3.simplify(z3.Not(c)))
                if not is_c(nc) and nc.get_id() in known: continue
                out.append((j, c, t))
            if not out: return "dead"
            for k, (j, c, t) in enumerate(out):
                s2 = st.copy() if k < len(out) - 1 else st
                if len(out) > 1: s2.trace = s2.trace + ((node, j, c),)
                if not self.merging_spec and not self.assume(s2, c): continue
                r = self.jump(s2, s2.frames[-1], t, work)
                if s2 is st: return r
                if r == "cont": work.append(s2)
                elif r == "done": raise Unsupported("jump done")
            return "dead"
        feas = []
        for c, t in live:
            if self.feasible(st, c): feas.append((c, t))
        if not feas: return "dead"
        if len(feas) > 1 and self.tent: raise TentFail()
        for c, t in feas[:-1]:
            s2 = st.copy()
            if not self.assume(s2, c): continue
            r = self.jump(s2, s2.frames[-1], t, work)
            if r == "cont": work.append(s2)
            elif r == "done": raise Unsupported("jump done")
        c, t = feas[-1]
        if not self.assume(st, c): return "dead"
        return self.jump(st, fr, t, work)

    def i_br(self, st, fr, ins, work):
        s = ins["succ"]
        if len(s) == 1: return self.jump(st, fr, s[0], work)
        c = self.val(st, fr, ins["ops"][0])
        if s[0] == s[1]: return self.jump(st, fr, s[0], work)
        if not is_c(c): c = simp(B(c))
        if is_c(c): return self.jump(st, fr, s[0] if c else s[1], work)
        return self.fork(st, [(c, s[0]), (simp(z3.Not(c)), s[1])], fr, work)

    def i_switch(self, st, fr, ins, work):
        v = self.val(st, fr, ins["ops"][0])
        if is_c(v):
            for c, t in ins["cases"]:
                if int(c["i"]) == v: return self.jump(st, fr, t, work)
            return self.jump(st, fr, ins["def"], work)
        by = {}
        for c, t in ins["cases"]: by.setdefault(t, []).append(V(v, c["w"]) == z3.BitVecVal(int(c["i"]), c["w"]))
        w = ins["cases"][0][0]["w"] if ins["cases"] else 32
        allc = [e for l in by.values() for e in l]
        L = [(simp(z3.Or(l) if len(l) > 1 else l[0]), t) for t, l in by.items()]
        L.append((simp(z3.Not(z3.Or(allc))), ins["def"]))
        return self.fork(st, L, fr, work)

    def i_unreachable(self, st, fr, ins, work):
        self.oblige(st, 0, "ub.unreachable@" + self.where(fr, ins), "ub")
        return "dead"

    def i_ret(self, st, fr, ins, work):
        v = self.val(st, fr, ins["ops"][0]) if ins["ops"] else None
        return self.do_return(st, v, work)

    def do_return(self, st, v, work):
        fr = st.frames.pop()
        for h, info in fr.loops.items():
            if info[0] == "scan":
                info[1].exits.append(st); return "dead"
        if not st.frames:
            st.outcome = "return"; st.ret = v
            return "done"
        c = fr.call
        if c is None:      # base frame of a nested evaluation
            st.outcome = "return"; st.ret = v
            return "done"
        pf = st.frames[-1]
        if v is not None: pf.env[c["id"]] = v
        if "nd" in c: return self.jump(st, pf, c["nd"], work)
        pf.ip += 1
        return "cont"

    def unwind(self, st, work):
        """st.exc set; pop frames to a handler"""
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            if ins["op"] == "invoke":
                return self.jump(st, fr, ins["ud"], work)
            f = st.frames.pop()
            for h, info in f.loops.items():
                if info[0] == "scan":
                    info[1].exits.append(st); return "dead"
            if not st.frames or f.call is None:
                st.outcome = "throw"
                return "done"

    def throw(self, st, tname, work, ptr=NULL):
        st.exc = (ptr, tname)
        return self.unwind(st, work)

    def i_landingpad(self, st, fr, ins, work):
        if st.exc is None: raise Unsupported("landingpad")
        p, tn = st.exc
        for kind, c in ins["cl"]:
            if kind == "catch":
                if "null" in c:
                    fr.env[ins["id"]] = [p, 0x7fffffff]; return None
                nm = c["g"]
                if self.lib.is_subtype(tn, nm):
                    fr.env[ins["id"]] = [p, self.lib.typeid(nm)]; return None
            else:
                # exception specification (noexcept -> filter []): terminates
                self.oblige(st, 0, "ub.terminate@" + self.where(fr, ins), "ub"); return "dead"
        if ins["cleanup"]:
            fr.env[ins["id"]] = [p, 0]; return None
        # not handled here
        f = st.frames.pop()
        for h, info in f.loops.items():
            if info[0] == "scan":
                info[1].exits.append(st); return "dead"
        if not st.frames or f.call is None:
            st.outcome = "throw"; return "done"
        return self.unwind(st, work)

    def i_resume(self, st, fr, ins, work):
        f = st.frames.pop()
        for h, info in f.loops.items():
            if info[0] == "scan":
                info[1].exits.append(st); return "dead"
        if not st.frames or f.call is None:
            st.outcome = "throw"; return "done"
        return self.unwind(st, work)

    # calls
    def i_call(self, st, fr, ins, work): return self.do_call(st, fr, ins, work)
    def i_invoke(self, st, fr, ins, work): return self.do_call(st, fr, ins, work)

    def finish_call(self, st, fr, ins, v, work):
        """a call completed with result v"""
        if v is not None: fr.env[ins["id"]] = v
        if ins["op"] == "invoke": return self.jump(st, fr, ins["nd"], work)
        return None

    def do_call(self, st, fr, ins, work):
        args = [self.val(st, fr, o) for o in ins["ops"]]
        if "fn" in ins: name = ins["fn"]
        else:
            if isinstance(ins["cal"], dict) and "asm" in ins["cal"]: return self.finish_call(st, fr, ins, None, work)
            p = self.val(st, fr, ins["cal"])
            if not isinstance(p, Ptr) or p.reg == 0: 
                self.oblige(st, 0, "ub.null-call@" + self.where(fr, ins), "ub"); return "dead"
            r = self.regs[p.reg]
            if r.kind != "fn": raise Unsupported("indirect call to %s" % r.name)
            name = r.fn
        d = self.mod.dname(name)
        return self.call_named(st, fr, ins, name, d, args, work)

    def call_named(self, st, fr, ins, name, d, args, work):
        # contract replacement
        if self.replace:
            for pat, rep in self.replace.items():
                if (d.startswith(pat) if not pat.endswith("$") else d == pat[:-1]) and not any(f.fn.d.startswith(rep) for f in st.frames):
                    tgt = self.find_fn(rep)
                    self.replaced.add(d)
                    self.push_frame(st, tgt, args, ins)
                    return "cont"
        h = self.lib.lookup(name, d)
        if h is not None:
            r = h(st, fr, ins, args, work)
            if isinstance(r, str): return r
            if isinstance(r, tuple) and r and r[0] == "throw":
                return self.throw(st, r[1], work, r[2] if len(r) > 2 else NULL)
            if isinstance(r, tuple) and r and r[0] == "val": r = r[1]
            return self.finish_call(st, fr, ins, r, work)
        fn = self.mod.fns.get(name)
        if fn is None: raise Unsupported("external function %s" % d)
        bv = ins.get("bv")
        if bv:
            for k, z in enumerate(bv):
                if z:
                    rid = self.new_region(st, "byval", z, "stack", 16)
                    self.copy_bytes(st, Ptr(rid, 0), args[k], z, self.where(fr, ins))
                    args[k] = Ptr(rid, 0)
        if self.mergeable(fn):
            v = self.eval_merge(st, fn, args)
            if v is not False: return self.finish_call(st, fr, ins, v, work)
        self.push_frame(st, fn, args, ins)
        return "cont"

    def find_fn(self, prefix):
        for f in self.mod.fns.values():
            if f.d == prefix or f.d.startswith(prefix + "(") or f.d.startswith(prefix): return f
        raise Unsupported("no function " + prefix)

    def mergeable(self, fn):
        if fn.d.startswith(("vcinv::", "vcspec::", "spec::")): return isinstance(fn.ret, int)
        if (fn.pure or fn.ro) and fn.nounwind and isinstance(fn.ret, int) and len(fn.blocks) > 1:
            for l in fn.loops.values():
                if not (l["trip"] and l["trip"] <= 16): return False
            return True
        return False

    def eval_merge(self, st, fn, args, outs=None, spec=None):
        """run fn on a copy of st without solver calls, merge all paths into one value as a decision tree (side effects dropped,
        except `outs` cells which are returned)"""
        sub = st.copy()
        sub.frames = []; sub.trace = ()
        nested = spec if spec is not None else fn.d.startswith(("vcinv::", "vcspec::", "spec::"))
        if nested: self.scanning += 1
        tent = self.tent; self.tent = 0
        ms = self.merging_spec
        self.merging += 1; self.merging_spec = 1 if nested else 0
        try:
            self.push_frame(sub, fn, args, None)
            done = self.run([sub])
        finally:
            if nested: self.scanning -= 1
            self.tent = tent
            self.merging -= 1; self.merging_spec = ms
        rets = []
        for d in done:
            if d.outcome != "return":
                if nested: continue
                return False
            rets.append(d)
        if not rets: return False
        w = fn.ret
        seen = set(id(a) for a in st.axioms)
        for d in rets:
            for a in d.axioms:
                if id(a) not in seen: seen.add(id(a)); st.axioms.append(a)
            for k, v in d.ghost.items():
                if isinstance(k, tuple) and k[0] in ("addr", "fold"): st.ghost.setdefault(k, v)
                elif isinstance(k, tuple) and k[0] == "foldterms":
                    old = st.ghost.get(k, ())
                    if old is v: continue
                    have = set(t[0] for t in old)
                    st.ghost[k] = old + tuple(t for t in v if t[0] not in have)
        def merged(get, w):
            def rec(ds, k):
                if len(ds) == 1: return get(ds[0])
                groups = {}
                for d in ds: groups.setdefault(d.trace[k][1], []).append(d)
                if len(groups) == 1: return rec(ds, k + 1)
                r = None
                for jn in groups:
                    v = rec(groups[jn], k + 1)
                    r = v if r is None else ite(groups[jn][0].trace[k][2], v, r, w)
                return r
            return rec(rets, 0)
        if outs is not None:
            res = []
            for (rid, off, nb) in outs:
                res.append(merged(lambda d: self.load(d, Ptr(rid, off), nb * 8), nb * 8))
            return res
        if w == "void" or w is None: return None
        r = merged(lambda d: d.ret, w)
        return simp(r) if w == 1 and not is_c(r) else r

    # instructions
    def i_alloca(self, st, fr, ins, work):
        n = self.val(st, fr, ins["ops"][0])
        if not is_c(n): raise Unsupported("vla")
        z = ins["z"] * n
        rid = self.new_region(st, "%s" % (short(fr.fn.d)), z, "stack", ins["al"])
        self.add_type_segs(st.mem[rid], ins["at"], 0, "undef")
        fr.env[ins["id"]] = Ptr(rid, 0)

    def i_load(self, st, fr, ins, work):
        p = self.val(st, fr, ins["ops"][0])
        if not isinstance(p, Ptr): p = self.inttoptr(st, p)
        w = self.where(fr, ins)
        if not self.bounds(st, p, ins["z"], "load", w): return "dead"
        fr.env[ins["id"]] = self.load(st, p, ins["t"], w)

    def i_store(self, st, fr, ins, work):
        v = self.val(st, fr, ins["ops"][0]); p = self.val(st, fr, ins["ops"][1])
        if not isinstance(p, Ptr): p = self.inttoptr(st, p)
        w = self.where(fr, ins)
        if not self.bounds(st, p, ins["z"], "store", w): return "dead"
        if ins["al"] > 1 and not is_c(p.off) and self.regs[p.reg].kind != "pool" and ins["ot"] in (16, 32, 64) and self.regs[p.reg].kind == "heap":
            c = simp(((self.regs[p.reg].addr + p.off) & (ins["al"] - 1)) == 0)
            self.addr_axioms(st, p.reg)
            if not self.oblige(st, c, "ub.misaligned-store@" + w, "ub", w): return "dead"
        self.store(st, p, v, ins["ot"], w)

    def i_getelementptr(self, st, fr, ins, work):
        p = self.val(st, fr, ins["ops"][0])
        if not isinstance(p, Ptr): p = self.inttoptr(st, p)
        if p.reg and self.regs[p.reg].kind == "pool":
            off = ins["off"]
            if ins["sc"]: raise Unsupported("pool gep")
            fr.env[ins["id"]] = self.lib.pool_gep(p, off); return
        off = add64(p.off, ins["off"] & mask(64))
        for o, sc, w in ins["sc"]:
            v = self.val(st, fr, o)
            if w < 64: v = sext(v, w, 64)
            off = add64(off, mul64(v, sc))
        fr.env[ins["id"]] = Ptr(p.reg, off)

    def i_binop(self, st, fr, ins, work):
        op = ins["op"]
        w = ins["t"]
        if not isinstance(w, int): raise Unsupported("vector op")
        a = self.val(st, fr, ins["ops"][0]); b = self.val(st, fr, ins["ops"][1])
        wh = self.where(fr, ins)
        if op in ("shl", "lshr", "ashr") and not is_c(b):
            if not self.oblige(st, ult(b, w, w), "ub.shift@" + wh, "ub", wh): return "dead"
        elif op in ("shl", "lshr", "ashr") and b >= w:
            self.oblige(st, 0, "ub.shift@" + wh, "ub", wh); return "dead"
        if op in ("udiv", "sdiv", "urem", "srem"):
            c = int(b != 0) if is_c(b) else simp(V(b, w) != 0)
            if not self.oblige(st, c, "ub.div-zero@" + wh, "ub", wh): return "dead"
            if op in ("sdiv", "srem") and (not is_c(b) or sgn(b, w) == -1):
                c = simp(z3.Not(z3.And(V(a, w) == z3.BitVecVal(1 << (w - 1), w), V(b, w) == z3.BitVecVal(mask(w), w))))
                if not self.oblige(st, c, "ub.div-overflow@" + wh, "ub", wh): return "dead"
        if op == "sub" and w == 64 and not is_c(a) and not is_c(b):
            pa = self.p2i.get(a.get_id()); pb = self.p2i.get(b.get_id())
            if pa and pb and pa[1].reg == pb[1].reg:      # difference of two pointers into the same object
                fr.env[ins["id"]] = norm(sub64(pa[1].off, pb[1].off)); return
        if "nsw" in ins and w > 1 and not (is_c(a) and is_c(b)) and op in ("add", "sub", "mul"):
            c = self.nsw_cond(op, a, b, w)
            if not self.oblige(st, c, "ub.signed-overflow@" + wh, "ub", wh): return "dead"
        elif "nsw" in ins and is_c(a) and is_c(b) and op in ("add", "sub", "mul"):
            x, y = sgn(a, w), sgn(b, w)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                self.oblige(st, 0, "ub.signed-overflow@" + wh, "ub", wh); return "dead"
        fr.env[ins["id"]] = binop(op, a, b, w)

    def nsw_cond(self, op, a, b, w):
        x, y = V(a, w), V(b, w)
        # cheap range argument: operands that are extensions of narrow values cannot overflow
        def bits(e):
            if z3.is_bv_value(e):
                v = e.as_signed_long()
                return (v if v >= 0 else -v - 1).bit_length()
            k = e.decl().kind()
            if k == z3.Z3_OP_ZERO_EXT: return e.arg(0).size()
            if k == z3.Z3_OP_SIGN_EXT: return e.arg(0).size() - 1
            if k == z3.Z3_OP_ITE: return max(bits(e.arg(1)), bits(e.arg(2)))
            if k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0: return w - e.arg(0).size()
            n = e.size()
            if k in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)):
                c = e.arg(1).as_signed_long()
                if c > 1: return (c - 1).bit_length()           # |x % c| <= c - 1
            if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
                b = bits(e.arg(0))
                if b < n: return b
            if k == z3.Z3_OP_BADD and e.num_args() == 2:
                b = max(bits(e.arg(0)), bits(e.arg(1))) + 1
                if b < n: return b
            if k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
                b = bits(e.arg(1)) if e.arg(0).as_signed_long() == -1 else bits(e.arg(0)) + bits(e.arg(1))
                b += 1
                if b < n: return b
            return max(w, n)
        bx, by = bits(z3.simplify(x)), bits(z3.simplify(y))
        if op in ("add", "sub") and max(bx, by) + 1 < w: return 1
        if op == "mul" and bx + by < w - 1: return 1
        if op == "add": c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
        elif op == "sub": c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
        else:
            X, Y = z3.SignExt(w, x), z3.SignExt(w, y)
            c = z3.SignExt(w, x * y) == X * Y
        return simp(c)

    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = i_udiv = i_sdiv = i_urem = i_srem = i_binop

    def i_icmp(self, st, fr, ins, work):
        a = self.val(st, fr, ins["ops"][0]); b = self.val(st, fr, ins["ops"][1])
        fr.env[ins["id"]] = self.compare(st, ins["p"], a, b, ins["ot"])

    def compare(self, st, p, a, b, t):
        if t == "ptr":
            if not isinstance(a, Ptr): a = self.inttoptr(st, a)
            if not isinstance(b, Ptr): b = self.inttoptr(st, b)
            if a.reg == b.reg: 
                if p in ("eq", "ne"): return icmp(p, a.off, b.off, 64)
                # same object: order by offset (addresses do not wrap)
                return icmp("s" + p[1:] if p[0] == "u" else p, a.off, b.off, 64)
            for x, y in ((a, b), (b, a)):
                if y.reg == 0 and is_c(y.off) and y.off == 0 and p in ("eq", "ne"):
                    if self.regs[x.reg].kind == "pool": return icmp(p, x.off, 0, 64)
                    return 0 if p == "eq" else 1
            if p in ("eq", "ne") :
                # distinct objects
                return 0 if p == "eq" else 1
            return icmp(p, self.ptrtoint(st, a), self.ptrtoint(st, b), 64)
        return icmp(p, a, b, t)

    def i_select(self, st, fr, ins, work):
        c = self.val(st, fr, ins["ops"][0]); a = self.val(st, fr, ins["ops"][1]); b = self.val(st, fr, ins["ops"][2])
        if not is_c(c): c = simp(B(c))
        if is_c(c):
            fr.env[ins["id"]] = a if c else b; return
        t = ins["t"]
        if isinstance(t, int):
            fr.env[ins["id"]] = ite(c, a, b, t); return
        if t == "ptr" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg:
            fr.env[ins["id"]] = Ptr(a.reg, norm(ite(c, a.off, b.off, 64))); return
        if t in ("double", "float"):
            fr.env[ins["id"]] = z3.If(c, a, b); return
        # fork
        fa, fb = self.feasible(st, c), self.feasible(st, simp(z3.Not(c)))
        if fa and fb:
            if self.tent: raise TentFail()
            s2 = st.copy()
            s2.frames[-1].env[ins["id"]] = b; s2.frames[-1].ip += 1
            self.assume(s2, simp(z3.Not(c)))
            work.append(s2)
            self.assume(st, c)
            fr.env[ins["id"]] = a
            return
        if not fa and not fb: return "dead"
        self.assume(st, c if fa else simp(z3.Not(c)))
        fr.env[ins["id"]] = a if fa else b

    def i_trunc(self, st, fr, ins, work):
        fr.env[ins["id"]] = trunc(self.val(st, fr, ins["ops"][0]), ins["ot"], ins["t"])
    def i_zext(self, st, fr, ins, work):
        fr.env[ins["id"]] = zext(self.val(st, fr, ins["ops"][0]), ins["ot"], ins["t"])
    def i_sext(self, st, fr, ins, work):
        fr.env[ins["id"]] = sext(self.val(st, fr, ins["ops"][0]), ins["ot"], ins["t"])
    def i_bitcast(self, st, fr, ins, work):
        fr.env[ins["id"]] = self.as_type(st, self.val(st, fr, ins["ops"][0]), self.tsize(ins["t"]), ins["t"])
    def i_freeze(self, st, fr, ins, work):
        fr.env[ins["id"]] = self.val(st, fr, ins["ops"][0])
    def i_ptrtoint(self, st, fr, ins, work):
        p = self.val(st, fr, ins["ops"][0])
        v = self.ptrtoint(st, p)
        if not is_c(v): self.p2i[v.get_id()] = (v, p)
        if ins["t"] != 64: v = trunc(v, 64, ins["t"])
        fr.env[ins["id"]] = v
    def i_inttoptr(self, st, fr, ins, work):
        fr.env[ins["id"]] = self.inttoptr(st, self.val(st, fr, ins["ops"][0]))
    def i_extractvalue(self, st, fr, ins, work):
        v = self.val(st, fr, ins["ops"][0])
        for k in ins["ix"]: v = v[k]
        fr.env[ins["id"]] = v
    def i_insertvalue(self, st, fr, ins, work):
        a = self.val(st, fr, ins["ops"][0]); v = self.val(st, fr, ins["ops"][1])
        def ins_(a, ix, v):
            a = list(a)
            a[ix[0]] = v if len(ix) == 1 else ins_(a[ix[0]], ix[1:], v)
            return a
        fr.env[ins["id"]] = ins_(a, ins["ix"], v)
    def i_fence(self, st, fr, ins, work): return None

    # floating point
    RM = z3.RNE()
    def i_fcmp(self, st, fr, ins, work):
        a = self.val(st, fr, ins["ops"][0]); b = self.val(st, fr, ins["ops"][1])
        p = ins["p"]
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {"eq": z3.fpEQ(a, b), "gt": z3.fpGT(a, b), "ge": z3.fpGEQ(a, b), "lt": z3.fpLT(a, b), "le": z3.fpLEQ(a, b)}
        if p == "ord": r = z3.Not(un)
        elif p == "uno": r = un
        elif p == "one": r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
        elif p == "une": r = z3.Or(un, z3.Not(z3.fpEQ(a, b)))
        elif p[0] == "o": r = base[p[1:]]
        elif p[0] == "u": r = z3.Or(un, base[p[1:]])
        else: raise Unsupported("fcmp " + p)
        fr.env[ins["id"]] = simp(r)
    def fsort(self, t): return z3.Float64() if t == "double" else z3.Float32()
    def i_fadd(self, st, fr, ins, work): fr.env[ins["id"]] = z3.fpAdd(self.RM, self.val(st, fr, ins["ops"][0]), self.val(st, fr, ins["ops"][1]))
    def i_fsub(self, st, fr, ins, work): fr.env[ins["id"]] = z3.fpSub(self.RM, self.val(st, fr, ins["ops"][0]), self.val(st, fr, ins["ops"][1]))
    def i_fmul(self, st, fr, ins, work): fr.env[ins["id"]] = z3.fpMul(self.RM, self.val(st, fr, ins["ops"][0]), self.val(st, fr, ins["ops"][1]))
    def i_fdiv(self, st, fr, ins, work): fr.env[ins["id"]] = z3.fpDiv(self.RM, self.val(st, fr, ins["ops"][0]), self.val(st, fr, ins["ops"][1]))
    def i_fneg(self, st, fr, ins, work): fr.env[ins["id"]] = z3.fpNeg(self.val(st, fr, ins["ops"][0]))
    def i_sitofp(self, st, fr, ins, work): fr.env[ins["id"]] = z3.fpSignedToFP(self.RM, V(self.val(st, fr, ins["ops"][0]), ins["ot"]), self.fsort(ins["t"]))
    def i_uitofp(self, st, fr, ins, work): fr.env[ins["id"]] = z3.fpUnsignedToFP(self.RM, V(self.val(st, fr, ins["ops"][0]), ins["ot"]), self.fsort(ins["t"]))
    def i_fpext(self, st, fr, ins, work): fr.env[ins["id"]] = z3.fpFPToFP(self.RM, self.val(st, fr, ins["ops"][0]), self.fsort(ins["t"]))
    i_fptrunc = i_fpext
    def i_fptosi(self, st, fr, ins, work): return self.fpto(st, fr, ins, True)
    def i_fptoui(self, st, fr, ins, work): return self.fpto(st, fr, ins, False)
    def fpto(self, st, fr, ins, signed):
        a = self.val(st, fr, ins["ops"][0]); w = ins["t"]; wh = self.where(fr, ins)
        S = a.sort()
        if signed: lo, hi = -(1 << (w - 1)), (1 << (w - 1))
        else: lo, hi = 0, 1 << w
        # defined iff trunc(a) fits: lo-1 < a < hi
        t = z3.fpRoundToIntegral(z3.RTZ(), a)
        c = z3.And(z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsInf(a)), z3.fpLT(t, z3.FPVal(float(hi), S)), z3.fpGEQ(t, z3.FPVal(float(lo), S)))
        if not self.oblige(st, simp(c), "ub.float-cast@" + wh, "ub", wh): return "dead"
        fr.env[ins["id"]] = z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(w))

class TentFail(Exception):
    pass

def short(d):
    # function name without arguments and template noise
    depth = 0; out = []
    for ch in d:
        if ch == "<": depth += 1
        elif ch == ">": depth -= 1
        elif ch == "(" and depth == 0 and out and "".join(out[-8:]) != "operator": break
        elif depth == 0: out.append(ch)
    s = "".join(out).strip()
    return s.split(" ")[-1] if "operator" not in s else s
