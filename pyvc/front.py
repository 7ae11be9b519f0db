"""Front end: parses the Python sources under verification (from /repo, on every run) and resolves names."""
import ast
import os
from .terms import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


class ClassInfo:
    def __init__(self, qual, node, module, outer):
        self.qual, self.node, self.module, self.outer = qual, node, module, outer
        self.methods, self.nested, self.consts, self.bases = {}, {}, {}, []
        self.enum = None

    def __repr__(self):
        return "class " + self.qual


class FuncInfo:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        decs = [d.id for d in getattr(node, "decorator_list", []) if isinstance(d, ast.Name)]
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = "property" in decs
        self.otherdecs = [d for d in getattr(node, "decorator_list", [])
                          if not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"))]

    def __repr__(self):
        return "fun " + self.qual


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.names = {}          # name -> ('class', ClassInfo) ('func', FuncInfo) ('import', mod, attr|None) ('expr', node)
        for st in self.tree.body:
            self._top(st)

    def _top(self, st):
        if isinstance(st, ast.ClassDef):
            self.names[st.name] = ("class", self._cls(st, None))
        elif isinstance(st, (ast.FunctionDef,)):
            self.names[st.name] = ("func", FuncInfo(self.name + "." + st.name, st, self))
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.names[(a.asname or a.name).split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0], None)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.names[a.asname or a.name] = ("import", st.module, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.names[t.id] = ("expr", st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.names[st.target.id] = ("expr", st.value)
        elif isinstance(st, ast.If):
            pass
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._top(s)

    def _cls(self, node, outer):
        qual = (outer.qual if outer else self.name) + "." + node.name
        ci = ClassInfo(qual, node, self, outer)
        ci.bases = node.bases
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                ci.methods[s.name] = FuncInfo(qual + "." + s.name, s, self, ci)
            elif isinstance(s, ast.ClassDef):
                ci.nested[s.name] = self._cls(s, ci)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                ci.consts[s.target.id] = s.value
        bn = [b.id if isinstance(b, ast.Name) else getattr(b, "attr", "") for b in node.bases]
        if "IntEnum" in bn or "Enum" in bn:
            ci.enum = []
            for s in node.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    try:
                        val = ast.literal_eval(s.value)
                    except Exception:
                        raise Unsupported("enum member %s" % s.targets[0].id)
                    ci.enum.append((s.targets[0].id, val))
        return ci


class Program:
    def __init__(self, extra=()):
        self.mods = {}
        self.extra = list(extra)

    def find(self, name):
        rel = name.replace(".", "/")
        for root in [REPO] + self.extra:
            for p in (os.path.join(root, rel + ".py"), os.path.join(root, rel, "__init__.py")):
                if os.path.isfile(p):
                    return p
        return None

    def module(self, name):
        if name not in self.mods:
            p = self.find(name)
            self.mods[name] = Module(name, p) if p and (name.split(".")[0] == "diffkemp" or name.startswith("specs")) else None
        return self.mods[name]

    def lookup(self, qual):
        """qual 'pkg.mod.Class.func' -> ('func'|'class', info)"""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = self.module(".".join(parts[:i]))
            if m:
                rest = parts[i:]
                if not rest:
                    return ("module", m)
                if rest[0] not in m.names:
                    return None
                cur = m.names[rest[0]]
                for r in rest[1:]:
                    if cur[0] != "class":
                        return None
                    ci = cur[1]
                    if r in ci.nested:
                        cur = ("class", ci.nested[r])
                    elif r in ci.methods:
                        cur = ("func", ci.methods[r])
                    else:
                        return None
                return cur
        return None
