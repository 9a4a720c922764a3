"""Verifies one harness: worker.py module.json H_name options.json out.json"""
import sys, json, time, os, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def main():
    mod_p, hname, opts_p, out_p = sys.argv[1:5]
    opts = json.load(open(opts_p))
    mem = int(opts.pop("mem_mb", 7000)) << 20
    try: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception: pass
    import threading
    threading.stack_size(512 << 20)
    res = {}
    t = threading.Thread(target=lambda: res.update(work(mod_p, hname, opts)))
    t.start(); t.join()
    json.dump(res, open(out_p + ".tmp", "w"))
    os.replace(out_p + ".tmp", out_p)
    sys.stdout.flush()
    os._exit(0)

def work(mod_p, hname, opts):
    t0 = time.time()
    out = dict(harness=hname, status="ok", error="")
    ex = None
    try:
        from ir import Module
        import exec as E, vals
        mod = Module(mod_p)
        limit = opts.pop("limit_s", 300)
        opts["deadline"] = time.time() + limit
        ex = E.Exec(mod, opts)
        fn = [f for f in mod.fns.values() if f.d.split("(")[0] == hname]
        if not fn: raise vals.Unsupported("harness missing")
        st = ex.new_state()
        ex.push_frame(st, fn[0], [], None)
        if os.environ.get("VC_PROF"):
            import cProfile, pstats
            pr = cProfile.Profile(); pr.enable()
            try: done = ex.run([st])
            finally:
                pr.disable(); pstats.Stats(pr, stream=sys.stderr).sort_stats("tottime").print_stats(25)
        else: done = ex.run([st])
        nret = 0
        for d in done:
            if d.outcome == "return": nret += 1
            elif d.outcome == "throw":
                ex.oblige(d, 0, "unexpected-exception", "check", str(d.exc[1] if d.exc else ""))
        out["paths"] = len(done); out["returns"] = nret
    except Exception as e:
        nm = type(e).__name__
        out["status"] = {"Timeout": "timeout", "Unsupported": "unsupported", "MemoryError": "memory"}.get(nm, "error")
        out["error"] = "%s: %s" % (nm, str(e)[:300])
        if ex is not None and opts.get("verbose"): traceback.print_exc()
        elif out["status"] == "error": out["trace"] = traceback.format_exc()[-1500:]
        if ex is not None and ex.cur is not None: out["at"] = [str(x) for x in ex.cur][:12]
    if ex is not None:
        out["obls"] = [dict(name=o.name, kind=o.kind, status=o.status, n=o.n, time=round(o.time, 3), backend=o.backend, where=o.where, cex=o.cex, cuts=list(o.cuts), reason=o.reason) for o in ex.obls.values()]
        out["reached"] = sorted(ex.reached)
        out["functions"] = sorted(ex.fns_executed)
        out["trusted"] = sorted(ex.trusted_used)
        out["loops"] = ex.loops_cut
        out["replaced"] = sorted(ex.replaced)
        out["notes"] = sorted(ex.notes)
        out["queries"] = ex.solver.nq; out["solver_s"] = round(ex.solver.tq, 2); out["insts"] = ex.ninst
    out["wall"] = round(time.time() - t0, 2)
    return out

if __name__ == "__main__": main()
