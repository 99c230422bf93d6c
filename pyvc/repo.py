"""Loads the repository's modules: functions, classes and module-level names, from the current working tree."""
import ast
import hashlib
import os
from .values import Fn, Cls, Mod
from .anchor import Anchors

ROOT = os.environ.get("DANY_ROOT", "/repo")
FILES = {"dem_conditioning": "dany/dem_conditioning.py", "flow_directions": "dany/flow_directions.py", "stream_util": "dany/stream_util.py"}


class Repo:
    def __init__(self, root=ROOT):
        self.fns, self.classes, self.globals, self.src = {}, {}, {}, {}
        files = dict(FILES)
        d = os.path.join(root, "dany")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py") and f not in ("__init__.py", "version.py", "author.py"):
                files.setdefault(f[:-3], "dany/" + f)
        for m, p in files.items():
            path = os.path.join(root, p)
            if not os.path.exists(path):
                continue
            src = open(path).read()
            self.src[m] = src
            tree = ast.parse(src)
            g = self.globals[m] = {}
            for st in tree.body:
                if isinstance(st, ast.FunctionDef):
                    q = f"{m}.{st.name}"
                    self.fns[q] = Fn(q, st, m)
                    g[st.name] = self.fns[q]
                elif isinstance(st, ast.ClassDef):
                    bases = [b.id for b in st.bases if isinstance(b, ast.Name)]
                    c = Cls(st.name, st, m, bases)
                    c.methods = {}
                    self.classes[st.name] = c
                    g[st.name] = c
                    for x in st.body:
                        if isinstance(x, ast.FunctionDef):
                            q = f"{m}.{st.name}.{x.name}"
                            f = Fn(q, x, m)
                            self.fns[q] = f
                            c.methods[x.name] = f
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        g[(a.asname or a.name).split(".")[0]] = Mod(a.name)
                elif isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        g[a.asname or a.name] = st
                elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    try:
                        v = ast.literal_eval(st.value)
                        if isinstance(v, (int, float, str, bool)) or v is None or isinstance(v, tuple):
                            g[st.targets[0].id] = v
                    except Exception:
                        pass
        self.anchors = Anchors(self)

    def fn(self, qual):
        """function by qualified name; methods are searched through base classes"""
        if qual in self.fns:
            return self.fns[qual]
        if qual in self.anchors.renamed:
            return self.fns[self.anchors.renamed[qual]]
        parts = qual.split(".")
        if len(parts) == 3:
            return self.method(parts[1], parts[2])
        return None

    def method(self, cls, name):
        c = self.classes.get(cls)
        while c is not None:
            if name in c.methods:
                return c.methods[name]
            nxt = None
            for b in c.bases:
                if b in self.classes:
                    nxt = self.classes[b]
                    break
            c = nxt
        return None

    def super_method(self, cls, name):
        c = self.classes.get(cls)
        for b in (c.bases if c else []):
            f = self.method(b, name)
            if f is not None:
                return f
        return None

    def global_(self, mod, n):
        return self.globals.get(mod, {}).get(n)

    def lookup_import(self, module, name):
        m = (module or "").split(".")[-1]
        return self.globals.get(m, {}).get(name)

    def segment(self, qual):
        f = self.fn(qual)
        return ast.get_source_segment(self.src[f.mod], f.node)

    def digest(self):
        return hashlib.sha1("".join(self.src[m] for m in sorted(self.src)).encode()).hexdigest()
