"""Equality sweeping: turns a goal over a large expression DAG into one where nodes that are equal for every input have been merged.
Nodes that agree on random inputs are candidates; a merge happens only after the solver has proved the two nodes equal as functions of
cut leaves (fresh variables for their sub-terms), which implies equality for every input.  Sound: only proved equalities are used."""
import random, time, z3
M = lambda w: (1 << w) - 1
def _s(v, w): return v - (1 << w) if v >> (w - 1) else v
def _red(f):
    def g(cs, w):
        r = cs[0]
        for c in cs[1:]: r = [f(a, b) for a, b in zip(r, c)]
        return r
    return g
def _ev(d, x, kids, cs):
    """values of application x over all rounds (argument value lists cs), or None when the operator is not known"""
    k = d.kind(); so = x.sort()
    if z3.is_bv_sort(so):
        w = so.size(); m = M(w)
        if k == z3.Z3_OP_BADD: return [sum(v) & m for v in zip(*cs)]
        if k == z3.Z3_OP_BMUL:
            r = list(cs[0])
            for c in cs[1:]: r = [a * b & m for a, b in zip(r, c)]
            return r
        if k == z3.Z3_OP_BSUB:
            r = list(cs[0])
            for c in cs[1:]: r = [a - b & m for a, b in zip(r, c)]
            return r
        if k == z3.Z3_OP_BNEG: return [-a & m for a in cs[0]]
        if k == z3.Z3_OP_BNOT: return [~a & m for a in cs[0]]
        if k == z3.Z3_OP_BAND: return _red(lambda a, b: a & b)(cs, w)
        if k == z3.Z3_OP_BOR: return _red(lambda a, b: a | b)(cs, w)
        if k == z3.Z3_OP_BXOR: return _red(lambda a, b: a ^ b)(cs, w)
        if k == z3.Z3_OP_CONCAT:
            r = cs[0]
            for c, y in zip(cs[1:], kids[1:]):
                n = y.sort().size(); r = [a << n | b for a, b in zip(r, c)]
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = d.params(); return [a >> lo & m for a in cs[0]]
        if k == z3.Z3_OP_ZERO_EXT: return cs[0]
        if k == z3.Z3_OP_SIGN_EXT: n = kids[0].sort().size(); return [_s(a, n) & m for a in cs[0]]
        if k in (z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT):
            n = d.params()[0] % w
            if k == z3.Z3_OP_ROTATE_RIGHT: n = (w - n) % w
            return [(a << n | a >> (w - n)) & m for a in cs[0]]
        if k == z3.Z3_OP_EXT_ROTATE_LEFT: return [(a << b % w | a >> (w - b % w)) & m for a, b in zip(*cs)]
        if k == z3.Z3_OP_EXT_ROTATE_RIGHT: return [(a >> b % w | a << (w - b % w)) & m for a, b in zip(*cs)]
        if k == z3.Z3_OP_BSHL: return [(a << b) & m if b < w else 0 for a, b in zip(*cs)]
        if k == z3.Z3_OP_BLSHR: return [a >> b if b < w else 0 for a, b in zip(*cs)]
        if k == z3.Z3_OP_BASHR: return [(_s(a, w) >> min(b, w - 1)) & m for a, b in zip(*cs)]
        if k == z3.Z3_OP_ITE: return [b if a else c for a, b, c in zip(*cs)]
        return None
    if z3.is_bool(x):
        if k == z3.Z3_OP_EQ: return [a == b for a, b in zip(*cs)]
        if k == z3.Z3_OP_DISTINCT and len(cs) == 2: return [a != b for a, b in zip(*cs)]
        if k == z3.Z3_OP_AND: return [all(v) for v in zip(*cs)]
        if k == z3.Z3_OP_OR: return [any(v) for v in zip(*cs)]
        if k == z3.Z3_OP_NOT: return [not a for a in cs[0]]
        if k == z3.Z3_OP_ITE: return [b if a else c for a, b, c in zip(*cs)]
        if k == z3.Z3_OP_ULEQ: return [a <= b for a, b in zip(*cs)]
        if k == z3.Z3_OP_ULT: return [a < b for a, b in zip(*cs)]
        if k == z3.Z3_OP_UGEQ: return [a >= b for a, b in zip(*cs)]
        if k == z3.Z3_OP_UGT: return [a > b for a, b in zip(*cs)]
        c = kids[0].sort() if kids else None
        if c is not None and z3.is_bv_sort(c):
            w = c.size()
            if k == z3.Z3_OP_SLEQ: return [_s(a, w) <= _s(b, w) for a, b in zip(*cs)]
            if k == z3.Z3_OP_SLT: return [_s(a, w) < _s(b, w) for a, b in zip(*cs)]
            if k == z3.Z3_OP_SGEQ: return [_s(a, w) >= _s(b, w) for a, b in zip(*cs)]
            if k == z3.Z3_OP_SGT: return [_s(a, w) > _s(b, w) for a, b in zip(*cs)]
    return None

def dag(goal, defs, limit):
    order = []; seen = set(); stack = [(goal, False)]
    while stack:
        x, ready = stack.pop()
        k = x.get_id()
        if ready: order.append(x); continue
        if k in seen: continue
        seen.add(k)
        if len(seen) > limit: return None
        stack.append((x, True))
        if k in defs:
            if defs[k].get_id() not in seen: stack.append((defs[k], False))
        elif z3.is_app(x) and not (z3.is_select(x) and z3.is_const(x.arg(0))):
            for c in x.children():
                if c.get_id() not in seen: stack.append((c, False))
    return order

def sweep(goal, defs, seconds=60, minimum=150, limit=60000, rounds=8):
    """(goal with proved-equal nodes merged or None, equations of an input on which the goal is false or None)
    defs: constant id -> its defining expression"""
    order = dag(goal, defs, limit)
    if order is None or len(order) < minimum: return None, None
    rng = random.Random(20240611); end = time.time() + seconds
    val = {}; leaf = {}
    for x in order:
        k = x.get_id(); so = x.sort()
        if k in defs: val[k] = val[defs[k].get_id()]; continue
        if z3.is_bv_value(x): val[k] = (x.as_long(),) * rounds; continue
        if z3.is_true(x): val[k] = (True,) * rounds; continue
        if z3.is_false(x): val[k] = (False,) * rounds; continue
        r = None
        if x.num_args() and not z3.is_select(x):
            kids = x.children()
            cs = [val.get(c.get_id()) for c in kids]
            if all(c is not None for c in cs): r = _ev(x.decl(), x, kids, cs)
        if r is None:
            leaf[k] = x
            if z3.is_bv_sort(so): r = [rng.getrandbits(so.size()) for _ in range(rounds)]
            elif z3.is_bool(x): r = [rng.getrandbits(1) == 1 for _ in range(rounds)]
            else: return None, None
        val[k] = tuple(r)
    gv = val[goal.get_id()]
    if not all(gv):
        i = gv.index(False)
        return None, [x == (z3.BitVecVal(val[k][i], x.sort().size()) if z3.is_bv_sort(x.sort()) else z3.BoolVal(val[k][i])) for k, x in leaf.items()]
    rep = {}; classes = {}; keep = []
    def rebuild(x):
        ch = [rep[c.get_id()] for c in x.children()]
        k = x.decl().kind()
        if k == z3.Z3_OP_EQ and ch[0].get_id() == ch[1].get_id(): return z3.BoolVal(True)
        if k == z3.Z3_OP_AND:
            ch = [c for c in ch if not z3.is_true(c)]
            return z3.BoolVal(True) if not ch else ch[0] if len(ch) == 1 else z3.And(ch)
        if all(a.get_id() == b.get_id() for a, b in zip(ch, x.children())): return x
        return x.decl()(*ch)
    def cone(a, depth, kids={}):
        """node id -> smallest distance from a, down to the given depth"""
        d = {a.get_id(): 0}; front = [a]
        for n in range(1, depth + 1):
            nxt = []
            for x in front:
                if x.get_id() in leaf: continue
                for c in x.children():
                    if c.get_id() not in d: d[c.get_id()] = n; nxt.append(c)
            front = nxt
        return d
    def cut(x, stop, sub):
        """x with the stop nodes replaced by variables"""
        k = x.get_id()
        if k in sub: return sub[k]
        if z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x): r = x
        elif x.num_args() == 0 or k in leaf or stop(k): r = z3.Const("cut!%d" % len(sub), x.sort())
        else: r = x.decl()(*[cut(c, stop, sub) for c in x.children()])
        sub[k] = r
        return r
    def same(a, b):
        for depth, common in ((3, 1), (6, 1), (3, 0), (10, 1), (6, 0)):
            if time.time() > end: return False
            ca, cb = cone(a, depth), cone(b, depth); ia, ib = a.get_id(), b.get_id()
            def stop(k):
                if k == ia or k == ib: return False
                if common and k in ca and k in cb: return True
                return min(ca.get(k, 99), cb.get(k, 99)) >= depth
            sub = {}
            g = z3.simplify(cut(a, stop, sub) == cut(b, stop, sub))
            if z3.is_true(g): return True
            if z3.is_false(g): continue
            s = z3.SolverFor("QF_BV"); s.set("timeout", 400)
            s.add(z3.Not(g))
            if s.check() == z3.unsat: return True
        return False
    merged = 0
    for x in order:
        k = x.get_id()
        if k in defs: rep[k] = rep[defs[k].get_id()]; continue
        if k in leaf or not x.num_args(): rep[k] = x; continue
        y = rebuild(x)
        keep.append(y)
        if z3.is_bool(x): rep[k] = y; continue
        w = x.sort().size()
        if w < 8: rep[k] = y; continue          # too narrow for a telling signature
        l = classes.setdefault((w, val[k]), [])
        hit = None
        for r in l[:3]:
            if r.get_id() == y.get_id(): hit = r; break
            if same(r, y): hit = r; break
        if hit is None: l.append(y); hit = y
        elif hit.get_id() != y.get_id(): merged += 1
        rep[k] = hit
        if time.time() > end: return None, None
    return (rep[goal.get_id()], None) if merged else (None, None)
