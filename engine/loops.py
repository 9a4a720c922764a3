"""Loop rule: cut at the header, havoc what the body changes, infer the strongest inductive subset of candidate invariants
(Houdini), and continue under it. Candidates come from generic templates, from the branch conditions in the body and from
the contract's vcinv:: functions; none refers to names of local variables."""
import os, sys, itertools, time
import z3
from vals import *

class Scan:
    def __init__(self):
        self.latches = []; self.exits = []; self.nested = 0

class Var:
    __slots__ = ("name", "kind", "w", "ent", "hav", "key", "reg")
    def __repr__(self): return "%s:%s%s" % (self.name, self.kind, self.w)

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and same(a.off, b.off)
    if is_c(a) or is_c(b): return is_c(a) and is_c(b) and a == b
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a.sort() != b.sort(): return False
    if a.eq(b): return True
    return z3.simplify(a).eq(z3.simplify(b))

def diff(ex, hs, lst, mods):
    new = False
    for rid, ho in hs.mem.items():
        lo = lst.mem.get(rid)
        if lo is ho or lo is None: continue
        for off in set(ho.cells) | set(lo.cells):
            a = ho.cells.get(off); b = lo.cells.get(off)
            if a is b: continue
            if a is not None and b is not None and a[0] == b[0] and same(a[1], b[1]): continue
            k = ("cell", rid, off)
            if k not in mods:
                if b is not None and a is not None and isinstance(a[1], Ptr) and isinstance(b[1], Ptr) and a[1].reg != b[1].reg and a[1].reg != 0:
                    pass
                mods[k] = (a or b)[0]; new = True
        if len(ho.segs) != len(lo.segs):
            raise Unsupported("array created in loop: %s" % ex.regs[rid].name)
        for i, (s, t) in enumerate(zip(ho.segs, lo.segs)):
            if s.arr is not t.arr:
                k = ("seg", rid, i)
                if k not in mods: mods[k] = 0; new = True
        if not same(ho.size, lo.size):
            k = ("size", rid)
            if k not in mods: mods[k] = 0; new = True
    for nm in set(hs.logs) | set(lst.logs):
        if hs.logs.get(nm) is not lst.logs.get(nm):
            k = ("log", nm)
            if k not in mods: mods[k] = 0; new = True
    return new

def havoc(ex, st, h, src, vals, mods, phis):
    hs = st.copy()
    fr = hs.frames[-1]
    vars = []
    def mk(name, kind, w, ent, key, reg=None):
        v = Var(); v.name = name; v.kind = kind; v.w = w; v.ent = ent; v.key = key; v.reg = reg
        v.hav = ex.fresh("h_" + name, w)
        vars.append(v); return v
    for pid, val in vals:
        t = phis[pid]
        if isinstance(val, Ptr):
            if val.reg == 0 and ("phi", pid) in mods:
                r = mods[("phi", pid)]
                v = mk("phi%d" % pid, "ptr", 64, val.off, ("phi", pid), r)
                fr.env[pid] = Ptr(r, v.hav)
                continue
            v = mk("phi%d" % pid, "ptr", 64, val.off, ("phi", pid), val.reg)
            fr.env[pid] = Ptr(val.reg, v.hav)
        elif isinstance(t, int):
            v = mk("phi%d" % pid, "bv", t, val, ("phi", pid))
            fr.env[pid] = v.hav
        elif t in ("double", "float"):
            fr.env[pid] = z3.FreshConst(z3.Float64() if t == "double" else z3.Float32(), "hf")
        else: raise Unsupported("loop phi type %s" % (t,))
    done = {}
    for k, nb in mods.items():
        if k[0] == "cell":
            _, rid, off = k
            o = done.get(rid) or st.mem[rid].copy(); done[rid] = o
            c = st.mem[rid].cells.get(off)
            if c is None:
                o.cells.pop(off, None); continue
            if isinstance(c[1], Ptr):
                if c[1].reg == 0:
                    r = mods.get(("preg", rid, off))
                    if r is None:
                        o.cells.pop(off, None); continue
                    v = mk("m%d_%d" % (rid, off), "ptr", 64, c[1].off, k, r)
                    o.cells[off] = (8, Ptr(r, v.hav)); continue
                v = mk("m%d_%d" % (rid, off), "ptr", 64, c[1].off, k, c[1].reg)
                o.cells[off] = (8, Ptr(c[1].reg, v.hav))
            elif not is_c(c[1]) and z3.is_fp(c[1]):
                o.cells[off] = (c[0], z3.FreshConst(c[1].sort(), "hf"))
            else:
                v = mk("m%d_%d" % (rid, off), "bv", c[0] * 8, c[1], k)
                o.cells[off] = (c[0], v.hav)
        elif k[0] == "seg":
            _, rid, i = k
            o = done.get(rid) or st.mem[rid].copy(); done[rid] = o
            s = o.segs[i]
            o.segs = o.segs[:i] + (s.with_arr(ex.fresh_arr("h_arr%d" % rid, s.nb)),) + o.segs[i + 1:]
        elif k[0] == "size":
            _, rid = k
            o = done.get(rid) or st.mem[rid].copy(); done[rid] = o
            v = mk("size%d" % rid, "bv", 64, o.size, k)
            o.size = v.hav
        elif k[0] == "log":
            hs.logs[k[1]] = ("HAVOC", next(ex.serial))
    for rid, o in done.items(): hs.mem[rid] = o
    it = mk("it", "bv", 64, 0, ("it",))
    return hs, vars

def latch_val(ex, v, lst, lphi):
    k = v.key
    if k[0] == "phi":
        x = lphi[k[1]]
    elif k[0] == "cell":
        c = lst.mem[k[1]].cells.get(k[2])
        if c is None: raise Unsupported("cell vanished")
        x = c[1]
        if c[0] * 8 != v.w and v.kind == "bv": raise Unsupported("cell resized")
    elif k[0] == "size": return lst.mem[k[1]].size
    elif k[0] == "it": return add64(v.hav, 1)
    if v.kind == "ptr":
        if not isinstance(x, Ptr) or (x.reg != v.reg):
            if isinstance(x, Ptr) and x.reg == 0 and v.reg is not None and ex.regs[v.reg].kind == "pool": return x.off
            raise Unsupported("pointer changes object in loop")
        return x.off
    if isinstance(x, Ptr): x = ex.ptrtoint(lst, x)
    return x

def consts_of(e, cache={}):
    out = {}
    seen = set(); todo = [e]
    hasarr = False
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        else:
            if x.decl().kind() == z3.Z3_OP_SELECT: hasarr = True
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: hasarr = True
            todo.extend(x.children())
        if len(seen) > 400: return None, True
    return out, hasarr

def atoms(e, out):
    k = e.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (k == z3.Z3_OP_ITE and z3.is_bool(e)):
        for c in e.children(): atoms(c, out)
    else: out[e.get_id()] = e

def odd_mul(e):
    """multiplication by a constant other than a small one (overflow conditions of the code): no useful invariant"""
    seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_BMUL:
            for ch in x.children():
                if z3.is_bv_value(ch) and 8 < abs(ch.as_signed_long()) and ch.as_long() & (ch.as_long() - 1): return True
        todo.extend(x.children())
    return False

def templates(ex, vars, scan, hs, base_pc):
    """auto candidates as z3 Bool over hav symbols"""
    C = []
    def add(nm, e):
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e): return
        C.append((nm, e))
    ints = [v for v in vars if v.w > 1]
    lat = []
    for (ls, lp) in scan.latches:
        d = {}
        for v in vars: d[v.name] = latch_val(ex, v, ls, lp)
        lat.append(d)
    deltas = {}
    for v in ints:
        ds = set()
        for d in lat:
            x = simp(V(d[v.name], v.w) - v.hav)
            ds.add(x if is_c(x) else None)
        deltas[v.name] = ds.pop() if len(ds) == 1 and None not in ds else None
    byw = {}
    for v in ints:
        e = V(v.ent, v.w)
        if v.key[0] != "it":
            add("%s==init" % v.name, v.hav == e)
            add("%s<=init" % v.name, z3.ULE(v.hav, e)); add("%s>=init" % v.name, z3.UGE(v.hav, e))
            if v.w <= 32:
                add("%s>=0" % v.name, v.hav >= 0)
            cs = {v.ent} if is_c(v.ent) else None
            if cs is not None:
                for d in lat:
                    x = simp(V(d[v.name], v.w))
                    if is_c(x): cs.add(x)
                    elif x.eq(v.hav): pass
                    else: cs = None; break
                if cs and 1 < len(cs) <= 12: add("%s in set" % v.name, z3.Or([v.hav == z3.BitVecVal(c, v.w) for c in cs]))
                if cs and len(cs) > 1: add("%s<=max" % v.name, z3.ULE(v.hav, z3.BitVecVal(max(cs), v.w)))
        byw.setdefault(v.w, []).append(v)
    it = [v for v in vars if v.key[0] == "it"][0]
    for v in ints:
        if v is it: continue
        d = deltas[v.name]
        if d is not None and d != 0:
            i = z3.Extract(v.w - 1, 0, it.hav) if v.w < 64 else (it.hav if v.w == 64 else z3.ZeroExt(v.w - 64, it.hav))
            add("%s==init+%d*it" % (v.name, sgn(d, v.w)), v.hav == V(v.ent, v.w) + z3.BitVecVal(d, v.w) * i)
    for w, vs in byw.items():
        vs2 = [v for v in vs if v is not it]
        if len(vs2) > 14: vs2 = vs2[:14]
        for a, b in itertools.combinations(vs2, 2):
            ea, eb = V(a.ent, w), V(b.ent, w)
            if deltas[a.name] is not None and deltas[b.name] is not None:
                da, db = sgn(deltas[a.name], w), sgn(deltas[b.name], w)
                if db in (1, -1) and da: add("%s~%s" % (a.name, b.name), a.hav - ea == (b.hav - eb) * z3.BitVecVal((da // db) & mask(w), w))
                elif da in (1, -1) and db: add("%s~%s" % (b.name, a.name), b.hav - eb == (a.hav - ea) * z3.BitVecVal((db // da) & mask(w), w))
                continue
            add("%s+%s const" % (a.name, b.name), a.hav + b.hav == ea + eb)
            add("%s-%s const" % (a.name, b.name), a.hav - b.hav == ea - eb)
    for v in vars:
        if v.w == 1:
            add("%s" % v.name, v.hav); add("!%s" % v.name, z3.Not(v.hav))
    # branch conditions
    havnames = {v.hav.decl().name() for v in vars}
    lim = min(int(v.hav.decl().name().rsplit("!", 1)[1]) for v in vars) if vars else 0
    at = {}
    for s in [x[0] for x in scan.latches] + scan.exits:
        for c in s.pc[base_pc:]: atoms(c, at)
    n = 0
    for e in at.values():
        cs, arr = consts_of(e)
        if cs is None or arr: continue
        ok = True; uses = False
        for nm in cs:
            if nm in havnames: uses = True
            else:
                try: ser = int(nm.rsplit("!", 1)[1])
                except Exception: ser = 0
                if ser > lim and not nm.startswith("addr!"): ok = False; break
        if not ok or not uses or odd_mul(e): continue
        n += 1
        if n > 60: break
        add("atom", e); add("not atom", z3.Not(e))
        k = e.decl().kind()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ, z3.Z3_OP_ULT, z3.Z3_OP_SLT, z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ) and z3.is_bv(e.arg(0)):
            a, b = e.arg(0), e.arg(1)
            for x, y in ((a, b), (b, a)):
                add("a<=b", z3.ULE(x, y)); add("a<=s b", x <= y)
                for p_, q_ in ((x, y), (y, x)):
                    if p_.decl().kind() == z3.Z3_OP_BADD and any(z3.is_bv_value(ch) for ch in p_.children()):
                        m_ = z3.simplify(p_ - [ch for ch in p_.children() if z3.is_bv_value(ch)][0])
                        add("a+k<=b", z3.ULE(m_, y if p_ is x else x) if p_ is x else z3.ULE(y, m_))
    # dedupe
    seen = {}; out = []
    for nm, e in C:
        if e.get_id() in seen: continue
        seen[e.get_id()] = e; out.append((nm, e))
    return out

DBG = os.environ.get("VC_INV")
def dbg(c, why):
    if DBG and c.user: print("    inv %s(%s): %s" % (c.name, ",".join(str(x.name if hasattr(x, "name") else x) for _, x in c.args), why), file=sys.stderr)

class Cand:
    __slots__ = ("name", "expr", "fn", "args", "hs_val", "user")

def user_candidates(ex, vars, hs, mods, live=()):
    res = []
    fns = [f for f in ex.mod.fns.values() if f.d.startswith("vcinv::")]
    only = ex.o.get("inv")
    strs = [p for p in hs.strings if any(k[0] in ("cell", "size", "seg") and (k[1] == p[0] or k[1] == hs.strings[p][1]) for k in mods)]
    for f in fns:
        nm = f.d.split("(")[0][7:]
        if only is not None and not any(nm.startswith(x) for x in only): continue
        sig = f.d[f.d.index("(") + 1:f.d.rindex(")")]
        ps = split_sig(sig); prms = f.params
        pvars = vars + live if nm.endswith("_lv") else vars   # name_lv: pointers may also be loop constants
        ini = nm.endswith("_init")      # second half of the parameters: values of the same variables at loop entry
        if ini: ps = ps[:len(ps) // 2]; prms = prms[:len(ps)]
        pools = []
        noit = any(nm.startswith(x) for x in ex.o.get("no_it", ()))      # ghost iteration counter not offered to these
        for p, prm in zip(ps, prms):
            if "basic_string" in p:
                pools.append([("str", q) for q in strs if hs.strings[q][0] == "string"])
            elif "vector" in p:
                pools.append([("str", q) for q in strs if hs.strings[q][0] == "bytes"])
            elif p.endswith("*"):
                pools.append([("var", v) for v in pvars if v.kind == "ptr"])
            else:
                w = prm["t"]
                pools.append([("var", v) for v in vars if v.kind == "bv" and v.w == w and not (noit and v.key[0] == "it")])
        n = 1
        for q in pools: n *= len(q)
        if n > 150: raise Unsupported("too many candidate instances for " + nm)
        for combo in itertools.product(*pools):
            if len(set(id(c[1]) if c[0] == "var" else c[1] for c in combo)) < len(combo): continue
            c = Cand(); c.name = nm; c.fn = f; c.args = combo + tuple((k + "0", x) for k, x in combo) if ini else combo; c.expr = None; c.user = True
            res.append(c)
    return res

def livein(fr, h):
    """pointer values computed before the loop and used in it (constant while it runs)"""
    fn = fr.fn
    blocks = fn.loops[h]["blocks"]
    uses = set(); defs = set()
    for b in blocks:
        for ins in fn.blocks[b]:
            if "id" in ins: defs.add(ins["id"])
            if ins["op"] != "phi":
                for o in list(ins.get("ops", ())) + list(ins.get("args", ())):
                    if isinstance(o, int): uses.add(o)
    out = []; seen = set()
    for i in sorted(uses - defs):
        x = fr.env.get(i)
        if not isinstance(x, Ptr) or x.reg == 0: continue
        k = (x.reg, x.off if is_c(x.off) else x.off.get_id())
        if k in seen: continue
        seen.add(k)
        v = Var(); v.name = "live%d" % i; v.kind = "ptr"; v.w = 64; v.reg = x.reg; v.ent = v.hav = x.off; v.key = ("live",)
        out.append(v)
    return out

def split_sig(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def eval_user(ex, c, st, get):
    """evaluate C++ invariant candidate in st with variable valuation get(var)"""
    args = []
    for kind, x in c.args:
        if kind == "var0": args.append(Ptr(x.reg, x.ent) if x.kind == "ptr" else x.ent)
        elif kind == "str": args.append(Ptr(x[0], x[1]))
        elif x.kind == "ptr": args.append(Ptr(x.reg, get(x)))
        else: args.append(get(x))
    try:
        r = ex.eval_merge(st, c.fn, args)
    except Unsupported as e:
        if DBG: print("    inv %s: %s" % (c.name, e), file=sys.stderr)
        return None
    if r is False or r is None: return None
    return B(r)

def cut(ex, st, fr, src, h, vals, work):
    fn = fr.fn
    t_start = time.time()
    phis = {}
    for ins in fn.blocks[h]:
        if ins["op"] != "phi": break
        phis[ins["id"]] = ins["t"]
    mods = {}
    rounds = 0
    nested_before = len(ex.loops_cut)
    def scan_from(hs):
        sc = Scan()
        f = hs.frames[-1]
        f.loops = dict(f.loops); f.loops[h] = ("scan", sc, 0)
        f.prev = src; f.blk = h; f.ip = 0
        ex.scanning += 1
        tent, ex.tent = ex.tent, 0
        c0 = ex.cutcount
        try: ex.run([hs])
        finally: ex.scanning -= 1; ex.tent = tent
        sc.nested = ex.cutcount - c0
        return sc

    while True:
        rounds += 1
        if rounds > 12: raise Unsupported("loop frame does not stabilise")
        hs, vars = havoc(ex, st, h, src, vals, mods, phis)
        hs0 = hs.copy()
        sc = scan_from(hs)
        new = False
        for ls, lp in sc.latches:
            if diff(ex, hs0, ls, mods): new = True
            for pid, v in vals:
                if isinstance(v, Ptr) and v.reg == 0 and ("phi", pid) not in mods:
                    x = lp[pid]
                    if isinstance(x, Ptr) and x.reg != 0: mods[("phi", pid)] = x.reg; new = True
            for k in list(mods):
                if k[0] == "cell":
                    c = st.mem[k[1]].cells.get(k[2])
                    if c is not None and isinstance(c[1], Ptr) and c[1].reg == 0 and ("preg",) + k[1:] not in mods:
                        x = ls.mem[k[1]].cells.get(k[2])
                        if x is not None and isinstance(x[1], Ptr) and x[1].reg != 0: mods[("preg",) + k[1:]] = x[1].reg; new = True
        if not new: break
    base_pc = len(hs0.pc)
    # candidates
    cands = []
    for nm, e in templates(ex, vars, sc, hs0, base_pc):
        c = Cand(); c.name = nm; c.expr = e; c.fn = None; c.user = False; cands.append(c)
    live = livein(st.frames[-1], h)
    ucands = user_candidates(ex, vars, hs0, mods, live)
    ent = st.copy()
    for k, v in vals: ent.frames[-1].env[k] = v
    sub_e = [(v.hav, V(v.ent, v.w) if v.w > 1 else B(v.ent)) for v in vars]
    alive = []
    # entry
    todo = []
    for c in cands + ucands:
        if c.expr is not None: g = z3.simplify(z3.substitute(c.expr, sub_e))
        else: g = eval_user(ex, c, ent, lambda v: v.ent)
        if g is None: dbg(c, "entry: unsupported"); continue
        g = z3.simplify(B(g)) if not is_c(g) else B(g)
        if z3.is_true(g): alive.append(c); continue
        if z3.is_false(g): dbg(c, "entry: false"); continue
        todo.append((c, g))
    if todo:
        kp = houdini_filter(ex, ex.facts(ent), todo)
        for c, g in todo:
            if c not in kp: dbg(c, "entry: not proved")
        alive += kp
    # hypothesis at header
    for c in alive:
        if c.expr is not None: c.hs_val = c.expr
        else:
            c.hs_val = eval_user(ex, c, hs0, lambda v: v.hav)
    alive = [c for c in alive if c.hs_val is not None]
    first = True
    while True:
        if sc.nested:
            # nested loops: their invariants depend on ours, so rescan under the current set
            h2 = hs0.copy()
            for c in alive: ex.assume(h2, norm(c.hs_val))
            if first or True: sc2 = scan_from(h2)
        else: sc2 = sc
        first = False
        n0 = len(alive)
        changed = True
        goals_by_latch = []
        for ls, lp in sc2.latches:
            lv = {v.name: latch_val(ex, v, ls, lp) for v in vars}
            for v in live: lv[v.name] = v.ent
            sub_l = [(v.hav, V(lv[v.name], v.w) if v.w > 1 else B(lv[v.name])) for v in vars]
            gs = {}
            for c in alive:
                if c.expr is not None: g = z3.substitute(c.expr, sub_l)
                else: g = eval_user(ex, c, ls, lambda v: lv[v.name])
                gs[c] = g
            goals_by_latch.append((ls, gs))
        while changed:
            changed = False
            for ls, gs in goals_by_latch:
                cur = [(c, gs[c]) for c in alive]
                bad = [c for c, g in cur if g is None]
                cur = [(c, g) for c, g in cur if g is not None]
                hyp = [c.hs_val for c in alive]
                keep = houdini_filter(ex, ex.facts(ls) + hs0.axioms + [B(x) for x in hyp], cur, rehyp=lambda al: ex.facts(ls) + hs0.axioms + [B(c.hs_val) for c in al])
                if len(keep) < len(alive):
                    ks = set(map(id, keep))
                    for c in alive:
                        if id(c) not in ks: dbg(c, "latch: " + ("unsupported" if gs[c] is None else "not kept"))
                    alive = [c for c in alive if id(c) in ks]
                    changed = True
        if not sc.nested or len(alive) == n0: break
    if ex.o["verbose"] > 1 and not ex.scanning:
        print("  loop %s@%d: kept %s" % (fn.d[:60], h, [c.name for c in alive]), file=sys.stderr)
    # continue under the invariant
    fin = hs0
    for c in alive: ex.assume(fin, norm(c.hs_val))
    f = fin.frames[-1]
    f.loops = dict(f.loops); f.loops[h] = ("final", None, 0)
    f.prev = src; f.blk = h; f.ip = 0
    ex.cutcount += 1
    st.frames = fin.frames; st.mem = fin.mem; st.pc = fin.pc; st.axioms = fin.axioms; st.logs = fin.logs; st.ghost = fin.ghost; st.model = None
    key = "%s#%d" % (short_(fn.d), sorted(fn.loops).index(h))
    st.cuts = st.cuts + (key,)
    if not ex.scanning:
        u = sorted(set(c.name for c in alive if c.user))
        nob = len(alive) * (1 + len(sc2.latches))
        ob = ex.record("loop-invariants@%s" % key, "loop", "proved", "z3", time.time() - t_start, "", st)
        ob.n += nob - 1 if nob else 0
        ex.loops_cut[key] = dict(kept=len(alive), user=u)
    return "cont"

def short_(d):
    import exec as E
    return E.short(d)

def houdini_filter(ex, facts, goals, rehyp=None):
    """largest subset of goals [(c, g)] implied (with rehyp: hypotheses shrink with the set)"""
    alive = list(goals)
    out_unknown = []
    s = z3.Solver(); s.set("timeout", ex.o.get("houdini_ms", 3000))
    cur_facts = facts
    s.add(*cur_facts)
    while alive:
        ex.deadline()
        t = time.time()
        s.push()
        s.add(z3.Not(z3.And([B(g) for c, g in alive])) if len(alive) > 1 else z3.Not(B(alive[0][1])))
        r = s.check()
        ex.solver.nq += 1; ex.solver.tq += time.time() - t
        ex.dumpq("houdini", s, time.time() - t, r)
        if r == z3.unsat:
            s.pop(); break
        if r == z3.sat:
            m = s.model(); s.pop()
            keep = []
            for c, g in alive:
                v = m.eval(B(g), model_completion=True)
                if z3.is_false(v): continue
                keep.append((c, g))
            if len(keep) == len(alive):
                # model evaluation undetermined: test one by one
                keep = one_by_one(ex, s, alive, rehyp)
                if len(keep) == len(alive): break
        else:
            s.pop()
            keep = one_by_one(ex, s, alive)
            if len(keep) == len(alive): break
        alive = keep
        if rehyp is not None:
            s = z3.Solver(); s.set("timeout", ex.o.get("houdini_ms", 3000))
            s.add(*rehyp([c for c, g in alive]))
    return [c for c, g in alive]

def one_by_one(ex, s, alive, rehyp=None):
    keep = []
    for c, g in alive:
        ex.deadline()
        s.push(); s.add(z3.Not(B(g)))
        t = time.time()
        hm = ex.o.get("houdini_ms", 3000)
        s.set("timeout", hm if c.user else min(hm, 1500))
        r = s.check()
        s.set("timeout", hm)
        ex.dumpq("one", s, time.time() - t, r)
        if DBG and time.time() - t > 1: print("    one %s %s %.1f %s" % (c.name, r, time.time() - t, str(c.expr)[:100] if c.expr is not None else [str(x) for _, x in c.args]), file=sys.stderr)
        if r == z3.unknown and c.user and ex.o.get("houdini2_ms"):
            p, who = ex.portfolio(list(s.assertions()), ex.o["houdini2_ms"])
            if p == "unsat": r = z3.unsat
        ex.solver.nq += 1; ex.solver.tq += time.time() - t
        s.pop()
        if r == z3.unsat: keep.append((c, g))
    return keep
