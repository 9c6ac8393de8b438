"""Program model of the code under verification.

Everything here is read from the working tree of the repository on every run; nothing of the code under
verification is copied.  A function body handed to the VC generator *is* the `ast` of the file in /repo/src.
"""
import ast
import os
import hashlib


class Unsupported(Exception):
    """A construct outside the verified subset: the obligation stays undischarged (never silently accepted)."""


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []          # names
        self.is_dataclass = False
        self.is_enum = False
        self.enum_members = []   # (name, python literal | None)
        self.own_fields = []     # (name, ann, default_node|None)
        self.methods = {}
        self.mro = []

    def __repr__(self):
        return f"<class {self.name}>"


class FuncInfo:
    def __init__(self, name, module, cls, node, kind):
        self.name, self.module, self.cls, self.node, self.kind = name, module, cls, node, kind
        self.setter = None

    @property
    def qualname(self):
        return f"{self.module.name}:{self.cls.name + '.' if self.cls else ''}{self.name}"

    def __repr__(self):
        return f"<func {self.qualname}>"


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.text = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.text, path)
        self.defs = {}     # name -> ClassInfo|FuncInfo|('import', mod, name|None)|('const', node)


def _deco_names(node):
    out = []
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.append(ast.unparse(d))
    return out


class Program:
    def __init__(self, root, stubs=None):
        self.root = root
        self.modules = {}
        self.classes = {}
        base = os.path.join(root, "svdsuite")
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.modules[rel] = Module(rel, p)
        self.stubs = set()
        for m in list(self.modules.values()):
            self._scan(m)
        # declarations of external classes
        for d, dirs, files in sorted(os.walk(stubs)) if stubs else []:
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    n = os.path.relpath(p, stubs)[:-3].replace(os.sep, ".")
                    self.modules[n] = Module(n, p)
                    self.stubs.add(n)
                    self._scan(self.modules[n])
        for c in self.classes.values():
            c.mro = self._mro(c)
            c.is_enum = any(b.name in ("Enum",) if isinstance(b, ClassInfo) else b == "Enum" for b in self._all_bases(c))
            if c.is_enum:
                self._scan_enum(c)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(set(self.modules) - self.stubs):
            h.update(n.encode())
            h.update(self.modules[n].text.encode())
        return h.hexdigest()

    # ------------------------------------------------------------------ scanning
    def _scan(self, m):
        for st in m.tree.body:
            self._scan_stmt(m, st)

    def _scan_stmt(self, m, st):
        if isinstance(st, ast.ClassDef):
            m.defs[st.name] = self._scan_class(m, st)
        elif isinstance(st, ast.FunctionDef):
            if "overload" not in _deco_names(st):
                m.defs[st.name] = FuncInfo(st.name, m, None, st, "plain")
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                m.defs[a.asname or a.name] = ("import", st.module, a.name)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    m.defs[a.asname] = ("import", a.name, None)
                else:
                    m.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            m.defs[st.targets[0].id] = ("const", st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            m.defs[st.target.id] = ("const", st.value)
        elif isinstance(st, ast.If):  # TYPE_CHECKING and friends
            for s in st.body:
                self._scan_stmt(m, s)

    def _scan_class(self, m, node):
        c = ClassInfo(node.name, m, node)
        if node.name in self.classes:
            raise Unsupported(f"class name {node.name} defined twice")
        self.classes[node.name] = c
        c.bases = [ast.unparse(b) for b in node.bases]
        c.is_dataclass = any(x.split(".")[-1] == "dataclass" for x in _deco_names(node))
        for st in node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.own_fields.append((st.target.id, st.annotation, st.value))
            elif isinstance(st, ast.FunctionDef):
                d = _deco_names(st)
                if "overload" in d:
                    continue
                kind = "method"
                if "staticmethod" in d:
                    kind = "static"
                elif "classmethod" in d:
                    kind = "class"
                elif "property" in d:
                    kind = "property"
                if any(x.endswith(".setter") for x in d):
                    c.methods.setdefault(st.name + "!setter", FuncInfo(st.name, m, c, st, "setter"))
                    continue
                c.methods[st.name] = FuncInfo(st.name, m, c, st, kind)
        return c

    def _scan_enum(self, c):
        for st in c.node.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                try:
                    v = ast.literal_eval(st.value)
                except Exception:
                    v = None
                c.enum_members.append((st.targets[0].id, v))

    def _all_bases(self, c):
        for b in c.bases:
            b = b.split(".")[-1].split("[")[0]
            if b in self.classes:
                yield self.classes[b]
                yield from self._all_bases(self.classes[b])
            else:
                yield b

    def _mro(self, c):
        # linearisation good enough for single/diamond-free hierarchies (checked: no class is reached twice)
        out = [c]
        for b in c.bases:
            b = b.split(".")[-1].split("[")[0]
            if b in self.classes:
                for x in self._mro(self.classes[b]):
                    if x in out:
                        raise Unsupported(f"diamond inheritance at {c.name}")
                    out.append(x)
        return out

    # ------------------------------------------------------------------ lookup
    def lookup(self, m, name, depth=0):
        d = m.defs.get(name)
        if d is None or depth > 10:
            return None
        if isinstance(d, tuple) and d[0] == "import":
            mod, nm = d[1], d[2]
            if nm is None:
                return ("ext", mod)
            if mod in self.modules:
                sub = self.lookup(self.modules[mod], nm, depth + 1)
                if sub is not None:
                    return sub
                if f"{mod}.{nm}" in self.modules:
                    return ("module", self.modules[f"{mod}.{nm}"])
                return None
            return ("ext", f"{mod}.{nm}")
        if isinstance(d, tuple) and d[0] == "const":
            return ("const", m, d[1])
        return d

    def external(self, dotted):
        """what a stub declares under the dotted name"""
        for n in self.stubs:
            if dotted == n:
                return ("module", self.modules[n])
            if dotted.startswith(n + ".") and "." not in dotted[len(n) + 1:]:
                return self.modules[n].defs.get(dotted[len(n) + 1:])
        return None

    def find_method(self, c, name):
        for k in c.mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def dc_fields(self, c):
        """dataclass fields in definition order with inheritance, as dataclasses.fields returns them"""
        order = {}
        for k in reversed(c.mro):
            for (n, ann, dflt) in k.own_fields:
                order[n] = (n, ann, dflt, k)
        return list(order.values())

    def function(self, qual):
        """'svdsuite.process:Cls.meth' or 'svdsuite.process:fn' -> FuncInfo | None"""
        mod, _, path = qual.partition(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        parts = path.split(".")
        d = m.defs.get(parts[0])
        if len(parts) == 1:
            return d if isinstance(d, FuncInfo) else None
        if not isinstance(d, ClassInfo):
            return None
        return d.methods.get(parts[1])

    def find_function_anywhere(self, qual):
        """the same class/function name in whichever module it lives now (a moved definition)"""
        f = self.function(qual)
        if f is not None:
            return f
        _, _, path = qual.partition(":")
        for m in self.modules.values():
            f = self.function(f"{m.name}:{path}")
            if f is not None:
                return f
        return None

    def subclasses(self, name):
        return {c.name for c in self.classes.values() if any(k.name == name for k in c.mro)}
