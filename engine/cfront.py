"""C front end: preprocess with the library's own flags against stub system headers, parse with
pycparser, resolve types and link the translation units of /repo/src."""
import os, re, glob, subprocess
from concurrent.futures import ThreadPoolExecutor
from pycparser import c_parser, c_ast
from terms import AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
INC = os.path.join(os.path.dirname(HERE), "include")

class Ty(object):
    __slots__ = ("kind", "name", "to", "n", "fields", "params", "ret", "size", "signed", "variadic", "const")
    def __init__(self, kind, **kw):
        self.kind = kind
        self.name = self.to = self.n = self.fields = self.params = self.ret = None
        self.size = 0
        self.signed = True
        self.variadic = False
        self.const = False
        for k, v in kw.items():
            setattr(self, k, v)
    def __repr__(self):
        if self.kind == "ptr":
            return "%r*" % (self.to,)
        if self.kind == "array":
            return "%r[%s]" % (self.to, self.n)
        if self.kind in ("int", "float"):
            return "%s%d%s" % (self.kind, self.size * 8, "" if self.signed else "u")
        if self.kind == "struct":
            return "struct %s" % self.name
        return self.kind
    def same(self, o):
        if self.kind != o.kind:
            return False
        if self.kind in ("int", "float"):
            return self.size == o.size and self.signed == o.signed
        if self.kind == "ptr":
            return self.to.same(o.to)
        if self.kind == "array":
            return self.to.same(o.to)
        if self.kind == "struct":
            return self.name == o.name
        return True

INT = Ty("int", size=4)
UINT = Ty("int", size=4, signed=False)
LONG = Ty("int", size=8)
SIZE = Ty("int", size=8, signed=False)
CHAR = Ty("int", size=1)
BOOL = Ty("int", size=1, signed=False, name="_Bool")
DOUBLE = Ty("float", size=8)
FLOAT = Ty("float", size=4)
VOID = Ty("void")

def ptr(t):
    return Ty("ptr", to=t, size=8)

class Func(object):
    def __init__(self, name, ty, node, file, static):
        self.name, self.ty, self.node, self.file, self.static = name, ty, node, file, static
        self.params = []
    @property
    def where(self):
        return "%s:%s" % (os.path.basename(self.file), self.node.decl.coord.line if self.node else "?")

class GVar(object):
    def __init__(self, name, ty, init, file, static, coord):
        self.name, self.ty, self.init, self.file, self.static, self.coord = name, ty, init, file, static, coord
        self.threadprivate = False
        self.const = False
    @property
    def key(self):
        return "%s:%s" % (os.path.basename(self.file), self.name) if self.static else self.name

class Unit(object):
    def __init__(self, file):
        self.file = file
        self.typedefs = {}
        self.structs = {}
        self.enums = {}
        self.funcs = {}
        self.protos = {}
        self.gvars = {}
        self.ast = None

class Program(object):
    """All translation units of the library under one configuration."""
    def __init__(self, repo="/repo", defines=()):
        self.repo = repo
        self.defines = tuple(defines)
        self.units = {}
        self.funcs = {}       # external linkage
        self.protos = {}
        self.gvars = {}       # external linkage
        srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c")))
        if not srcs:
            raise AnalysisError("no C sources in %s/src" % repo)
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(self._pre, srcs))
        for s, t in zip(srcs, texts):
            self.units[s] = self._parse(s, t)
        self._link()

    def _pre(self, src):
        cmd = ["gcc", "-E", "-nostdinc", "-I", INC, "-I", os.path.join(self.repo, "src"), "-D_OPENMP=201511"] + ["-D" + d for d in self.defines] + [src]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise AnalysisError("cannot preprocess %s: %s" % (src, p.stderr[-800:]))
        t = p.stdout
        t = re.sub(r"__attribute__\s*\(\((?:[^()]|\([^()]*\))*\)\)", "", t)
        t = re.sub(r"\b__(inline|restrict|const|volatile|extension)(__)?\b", lambda m: "" if m.group(1) == "extension" else m.group(1), t)
        return t

    def _parse(self, src, text):
        u = Unit(src)
        try:
            u.ast = c_parser.CParser().parse(text, src)
        except Exception as e:
            raise AnalysisError("cannot parse %s: %s" % (src, e))
        tp = set()
        for d in u.ast.ext:
            if isinstance(d, c_ast.Typedef):
                u.typedefs[d.name] = self.ty(u, d.type)
            elif isinstance(d, c_ast.Decl):
                self._decl(u, d)
            elif isinstance(d, c_ast.FuncDef):
                t = self.ty(u, d.decl.type)
                f = Func(d.decl.name, t, d, src, "static" in d.decl.storage)
                if t.params is None:
                    t.params = []
                f.params = self.param_names(d.decl.type)
                u.funcs[f.name] = f
                u.protos[f.name] = t
            elif isinstance(d, c_ast.Pragma):
                m = re.match(r"\s*omp\s+threadprivate\s*\((.*)\)", d.string or "")
                if m:
                    for n in m.group(1).split(","):
                        tp.add(n.strip())
        for n in tp:
            if n in u.gvars:
                u.gvars[n].threadprivate = True
            else:
                raise AnalysisError("threadprivate of unknown variable %s in %s" % (n, src))
        return u

    def param_names(self, fd):
        out = []
        if fd.args is None:
            return out
        for p in fd.args.params:
            if isinstance(p, c_ast.EllipsisParam):
                continue
            if isinstance(p, c_ast.Typename):
                out.append(None)
            else:
                out.append(p.name)
        if out == [None]:
            return []
        return out

    def _decl(self, u, d):
        if isinstance(d.type, c_ast.FuncDecl):
            u.protos[d.name] = self.ty(u, d.type)
            u.protos[d.name].name = d.name
            return
        if d.name is None:
            self.ty(u, d.type)
            return
        t = self.ty(u, d.type)
        if t.kind == "array" and t.n is None and d.init is not None:
            t.n = len(d.init.exprs) if isinstance(d.init, c_ast.InitList) else len(d.init.value) - 1
        if "extern" in d.storage and d.init is None:
            u.gvars.setdefault(d.name, None)
            return
        g = GVar(d.name, t, d.init, u.file, "static" in d.storage, d.coord)
        g.const = "const" in (d.quals or [])
        old = u.gvars.get(d.name)
        if old is not None and g.init is None:
            return
        u.gvars[d.name] = g

    def _link(self):
        for u in self.units.values():
            for f in u.funcs.values():
                if not f.static:
                    if f.name in self.funcs:
                        raise AnalysisError("duplicate function %s" % f.name)
                    self.funcs[f.name] = f
            for n, g in u.gvars.items():
                if g is not None and not g.static:
                    old = self.gvars.get(n)
                    if old is None or old.init is None:
                        self.gvars[n] = g
            for n, t in u.protos.items():
                self.protos.setdefault(n, t)

    # -- lookups
    def find_func(self, u, name):
        f = u.funcs.get(name)
        return f if f is not None else self.funcs.get(name)

    def find_gvar(self, u, name):
        g = u.gvars.get(name)
        if g is None and name in u.gvars or g is None:
            g = self.gvars.get(name)
        return g

    def proto(self, u, name):
        return u.protos.get(name) or self.protos.get(name)

    # -- types
    def ty(self, u, n, scope=None):
        if isinstance(n, c_ast.TypeDecl):
            t = self.ty(u, n.type, scope)
            return t
        if isinstance(n, c_ast.IdentifierType):
            return self._basic(u, n.names, scope)
        if isinstance(n, c_ast.PtrDecl):
            return ptr(self.ty(u, n.type, scope))
        if isinstance(n, c_ast.ArrayDecl):
            k = None
            if n.dim is not None:
                k = self.constexpr(u, n.dim)
            to = self.ty(u, n.type, scope)
            return Ty("array", to=to, n=k, size=(k or 0) * to.size if isinstance(k, int) else 0)
        if isinstance(n, c_ast.FuncDecl):
            ps, var = [], False
            if n.args is not None:
                for p in n.args.params:
                    if isinstance(p, c_ast.EllipsisParam):
                        var = True
                        continue
                    pt = self.ty(u, p.type, scope)
                    if pt.kind == "array":
                        pt = ptr(pt.to)
                    if pt.kind == "func":
                        pt = ptr(pt)
                    ps.append(pt)
                if len(ps) == 1 and ps[0].kind == "void":
                    ps = []
            return Ty("func", ret=self.ty(u, n.type, scope), params=ps, variadic=var)
        if isinstance(n, c_ast.Typename):
            return self.ty(u, n.type, scope)
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            if isinstance(n, c_ast.Union):
                raise AnalysisError("union at %s" % n.coord)
            name = n.name or "anon@%s" % n.coord
            if n.decls is None:
                return u.structs.setdefault(name, Ty("struct", name=name, fields=[]))
            st = u.structs.setdefault(name, Ty("struct", name=name, fields=[]))
            st.fields = [(d.name, self.ty(u, d.type, scope)) for d in n.decls]
            st.size = sum(t.size for _, t in st.fields)
            return st
        if isinstance(n, c_ast.Enum):
            if n.values is not None:
                v = 0
                for e in n.values.enumerators:
                    if e.value is not None:
                        v = self.constexpr(u, e.value)
                    u.enums[e.name] = v
                    v += 1
            return Ty("int", size=4, signed=False, name="enum")
        raise AnalysisError("type %s" % type(n).__name__)

    def _basic(self, u, names, scope):
        if len(names) == 1:
            n = names[0]
            if scope and n in scope:
                return scope[n]
            if n in u.typedefs:
                return u.typedefs[n]
            b = {"int": INT, "double": DOUBLE, "float": FLOAT, "void": VOID, "char": CHAR, "_Bool": BOOL, "long": LONG, "short": Ty("int", size=2), "unsigned": UINT, "signed": INT}.get(n)
            if b:
                return b
            raise AnalysisError("unknown type %s" % n)
        s = list(names)
        uns = "unsigned" in s
        nl = s.count("long")
        if "double" in s:
            return DOUBLE
        if "char" in s:
            return Ty("int", size=1, signed=not uns)
        if "short" in s:
            return Ty("int", size=2, signed=not uns)
        if nl:
            return Ty("int", size=8, signed=not uns)
        return Ty("int", size=4, signed=not uns)

    def constexpr(self, u, e):
        if isinstance(e, c_ast.Constant):
            if e.type in ("int", "unsigned int", "long int", "unsigned long int", "long long int") or e.value.rstrip("uUlL").isdigit() or e.value.startswith("0x"):
                return int(e.value.rstrip("uUlL"), 0)
            if e.type == "char":
                return ord(eval(e.value))
        if isinstance(e, c_ast.ID):
            if e.name in u.enums:
                return u.enums[e.name]
            g = u.gvars.get(e.name)
            if g is not None and g.const and g.init is not None:
                return self.constexpr(u, g.init)
        if isinstance(e, c_ast.UnaryOp):
            if e.op == "-":
                return -self.constexpr(u, e.expr)
            if e.op == "+":
                return self.constexpr(u, e.expr)
            if e.op == "sizeof":
                if isinstance(e.expr, c_ast.Typename):
                    return self.ty(u, e.expr).size
        if isinstance(e, c_ast.Cast):
            return self.constexpr(u, e.expr)
        if isinstance(e, c_ast.BinaryOp):
            a, b = self.constexpr(u, e.left), self.constexpr(u, e.right)
            if a is not None and b is not None:
                try:
                    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b,
                            "<<": lambda: a << b, ">>": lambda: a >> b, "==": lambda: int(a == b), "<": lambda: int(a < b), ">": lambda: int(a > b)}[e.op]()
                except KeyError:
                    pass
        return e     # not a constant: the interpreter evaluates it
