"""Loads the JSON produced by irdump."""
import json

class Fn:
    __slots__ = ("name", "d", "params", "blocks", "loops", "ret", "pure", "ro", "nounwind", "file", "line", "loop_of", "loopset")
    def __init__(self, name, j):
        self.name = name; self.d = j["d"]; self.params = j["params"]; self.blocks = j["blocks"]
        self.ret = j["ret"]; self.pure = j["pure"]; self.ro = j["ro"]; self.nounwind = j["nounwind"]
        self.file = j.get("file", ""); self.line = j.get("line", 0)
        self.loops = {l["h"]: dict(blocks=frozenset(l["b"]), trip=l.get("trip", 0)) for l in j["loops"]}

class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = {n: Fn(n, f) for n, f in j["fns"].items()}
        self.globals = j["globals"]
        self.decls = j["decls"]
        self.by_d = {}
        for f in self.fns.values():
            self.by_d.setdefault(f.d, f)
    def dname(self, n):
        if n in self.fns: return self.fns[n].d
        if n in self.decls: return self.decls[n]["d"]
        return n
