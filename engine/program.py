"""The extracted program: types, records, functions and their keys."""
import json
import re

SEQ = {"std::vector", "std::deque", "std::list", "std::array", "std::initializer_list", "std::queue", "std::stack",
       "std::forward_list"}
SET = {"std::set", "std::unordered_set", "std::multiset"}
MAP = {"std::map", "std::unordered_map"}
PTR = {"std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::weak_ptr"}
SMART = PTR


class Program:
    def __init__(self, path):
        d = json.loads(re.sub(r"\(lambda at [^)\"]*\)", "(lambda)", open(path).read()))
        self.types = d["types"]
        self.files = d["files"]
        self.records = {}
        self.reclist = d["records"]
        for r in d["records"]:
            self.records.setdefault(r["q"], r)
        self.enums = d.get("enums", [])
        self.globals = d.get("globals", [])
        self.narrow = d.get("narrow", [])
        self.funcs = {f["id"]: f for f in d["functions"]}
        self.entities = set()
        for t in self.types:
            if not t:
                continue
            if t.get("c") == "rec" and t.get("r") in PTR and t.get("a"):
                a = t["a"][0]
                if "t" in a:
                    q = self.types[a["t"]].get("r")
                    if q and not q.startswith("std::"):
                        self.entities.add(q)
        for r in d["records"]:
            if r.get("poly"):
                self.entities.add(r["q"])
        # bases of entities share their identity
        again = True
        while again:
            again = False
            for r in d["records"]:
                if r["q"] in self.entities:
                    for b in r.get("bases", []):
                        if b["q"] not in self.entities:
                            self.entities.add(b["q"])
                            again = True
                else:
                    if any(b["q"] in self.entities for b in r.get("bases", [])):
                        self.entities.add(r["q"])
                        again = True
        self.keys = {}
        for f in d["functions"]:
            self.keys[f["id"]] = self.key_of(f)
        self.bykey = {}
        for i, k in self.keys.items():
            self.bykey.setdefault(k, i)
        self.overriders = {}
        for f in d["functions"]:
            for o in f.get("over") or []:
                self.overriders.setdefault(o, []).append(f["id"])

    # ------------------------------------------------------------------ types
    def ty(self, t):
        return self.types[t] if t is not None and t >= 0 else {"c": "void", "s": "void"}

    def strip(self, t):
        x = self.ty(t)
        while x["c"] == "ref":
            x = self.ty(x["p"])
        return x

    def rec(self, t):
        x = self.strip(t)
        return x.get("r") if x["c"] == "rec" else None

    def is_entity(self, t):
        return self.rec(t) in self.entities

    def cls_kind(self, q):
        if q in SEQ:
            return "seq"
        if q in SET:
            return "set"
        if q in MAP:
            return "map"
        return None

    def targ(self, x, i):
        a = x.get("a") or []
        if i < len(a) and "t" in a[i]:
            return a[i]["t"]
        return None

    def elem(self, x):
        """element type of a container type"""
        if x.get("r") in MAP:
            return None
        return self.targ(x, 0)

    def tstr(self, a):
        return self.ty(a["t"])["s"] if "t" in a else str(a.get("v"))

    def key_of(self, f):
        k = f["q"]
        if f.get("ca"):
            k += "@" + ",".join(self.tstr(a) for a in f["ca"])
        if f.get("ta"):
            k += "<" + ",".join(self.tstr(a) for a in f["ta"]) + ">"
        k += "(" + ",".join(self.cano(p["t"]) for p in f.get("params", [])) + ")"
        if f.get("const"):
            k += "c"
        return k

    def cano(self, t):
        """parameter type up to top-level const and the value / const reference distinction"""
        x = self.ty(t)
        if x["c"] == "ref":
            y = self.ty(x["p"])
            if y.get("const") or x.get("rv"):
                return self.plain(y)
            return self.plain(y) + "&"
        return self.plain(x)

    def plain(self, x):
        s = x["s"]
        if s.startswith("const "):
            s = s[6:]
        if s.endswith(" const"):
            s = s[:-6]
        return s

    def is_mut_ref(self, t):
        x = self.ty(t)
        if x["c"] == "ref":
            return not self.ty(x["p"]).get("const") and not x.get("rv")
        return False

    def where(self, l):
        if not l:
            return "?"
        return "%s:%d" % (self.files[l[0]], l[1])
