"""C source -> a program of the language the abstract interpreter analyses.

The translation unit is parsed and typed by clang (its syntax tree, all implicit
conversions included, is dumped as JSON); every function reachable from the
entry points becomes a Python function with the same control flow, the same
integer conversions and an explicit memory: each object that has an address is a
block of octets, each access names block, offset, size and signedness.  Line
numbers are those of the C file.  Nothing is compiled to machine code or run.
"""
import ast
import json
import keyword
import re
import subprocess

INTS = {"_Bool": (1, False), "bool": (1, False), "char": (1, True), "signed char": (1, True), "unsigned char": (1, False),
        "short": (2, True), "unsigned short": (2, False), "int": (4, True), "unsigned int": (4, False),
        "long": (8, True), "unsigned long": (8, False), "long long": (8, True), "unsigned long long": (8, False)}
NORMAL = {"short int": "short", "long int": "long", "long unsigned int": "unsigned long", "unsigned": "unsigned int",
          "short unsigned int": "unsigned short", "long long int": "long long", "signed": "int", "signed int": "int",
          "long long unsigned int": "unsigned long long", "unsigned long int": "unsigned long",
          "unsigned short int": "unsigned short"}


class Unsupported(Exception):
    pass


def num(e):
    return int(e.strip("()")) if re.match(r"^\(*-?\d+\)*$", e) else None


def lit(n):
    return str(n) if n >= 0 else "(%d)" % n


def wrap(n, bits, signed):
    n &= (1 << bits) - 1
    return n - (1 << bits) if signed and n >> (bits - 1) else n


def fname(n):
    return n + "_" if keyword.iskeyword(n) else n


def parse(path, clang="clang"):
    p = subprocess.run([clang, "-w", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", path],
                       capture_output=True, text=True, timeout=120)
    if p.returncode != 0:
        raise Unsupported("clang: " + p.stderr[-2000:])
    tree = json.loads(p.stdout)
    Lines(path).walk(tree)
    return tree


class Lines:
    """clang names a line only where it changes; every node gets its own"""

    def __init__(self, path):
        self.path, self.line, self.file = path, 0, None

    def loc(self, d):
        if "spellingLoc" in d or "expansionLoc" in d:
            out = None
            for k, v in d.items():
                if k in ("spellingLoc", "expansionLoc"):
                    r = self.loc(v)
                    if k == "expansionLoc":
                        out = r
            return out
        if "offset" not in d:
            return None
        if "file" in d:
            self.file = d["file"]
        if "line" in d:
            self.line = d["line"]
        return (self.file, self.line)

    def walk(self, n):
        for k, v in list(n.items()):
            if k == "loc" and type(v) is dict:
                r = self.loc(v)
                if r:
                    n["_loc"] = r
            elif k == "range":
                for kk, vv in list(v.items()):
                    r = self.loc(vv)
                    if kk == "begin" and r:
                        n["_line"] = r[1]
                        n["_file"] = r[0]
            elif k == "inner":
                for x in v:
                    self.walk(x)


def nodes(xs):
    todo = list(xs)
    while todo:
        n = todo.pop()
        if type(n) is dict:
            yield n
            todo += n.get("inner", [])


def jumps(xs, label):
    return any(n.get("kind") == "GotoStmt" and n.get("targetLabelDeclId") == label for n in nodes(xs))


def leaves(xs):
    """is there a break or continue of a statement outside of these?"""
    for n in xs:
        if type(n) is not dict:
            continue
        k = n.get("kind")
        if k in ("BreakStmt", "ContinueStmt"):
            return True
        if k in ("ForStmt", "WhileStmt", "DoStmt"):
            continue
        if k == "SwitchStmt":
            if any(m.get("kind") == "ContinueStmt" for m in nodes([n])):
                return True
            continue
        if leaves(n.get("inner", [])):
            return True
    return False


class Unit:
    def __init__(self, path):
        self.path = path
        self.tree = parse(path)
        self.typedefs, self.records, self.recid, self.enums, self.funcs, self.globals = {}, {}, {}, {}, {}, {}
        self.fields = {}
        self.ownedtag = {}
        self.lay = {}
        self.index(self.tree)
        self.out = []          # (line of text, C line)
        self.data = []         # initialisation of globals
        self.todo = []
        self.done = set()
        self.extern = set()
        self.strings = {}
        self.labels = {}
        self.gnames = {}
        self.fnames = {}
        self.tmp = 0

    # ------------------------------------------------------------ declarations
    def index(self, n):
        for x in n.get("inner", []):
            k = x.get("kind")
            if k == "TypedefDecl":
                self.typedefs[x["name"]] = x["type"].get("qualType")
                t = x["inner"][0] if x.get("inner") else {}
                if "ownedTagDecl" in t:
                    self.ownedtag[x["name"]] = t["ownedTagDecl"]["id"]
            elif k == "RecordDecl":
                self.record(x)
            elif k == "EnumDecl":
                self.enum(x)
            elif k == "FunctionDecl":
                if any(y.get("kind") == "CompoundStmt" for y in x.get("inner", [])):
                    self.funcs[x["name"]] = x
            elif k == "VarDecl":
                if x["name"] not in self.globals or x.get("storageClass") != "extern":
                    self.globals[x["name"]] = x
            elif k == "LinkageSpecDecl":
                self.index(x)

    def record(self, x):
        for y in x.get("inner", []):
            if y.get("kind") == "RecordDecl":
                self.record(y)
        self.recid[x["id"]] = x
        if x.get("completeDefinition") and x.get("name"):
            self.records[x["name"]] = x
        if "_loc" in x:
            self.recid[x["_loc"]] = x

    def enum(self, x):
        v = -1
        for y in x.get("inner", []):
            if y.get("kind") != "EnumConstantDecl":
                continue
            v += 1
            for z in y.get("inner", []):
                if "value" in z:
                    v = int(z["value"])
            self.enums[y["id"]] = v

    # ------------------------------------------------------------------- types
    def ty(self, t):
        s = t if type(t) is str else t["qualType"]
        return self.declarator(s)

    def declarator(self, s):
        s = re.sub(r"\b(const|volatile|restrict|__restrict|static|register|struct|union)\b",
                   lambda m: m.group(1) + " " if m.group(1) in ("struct", "union") else " ", s)
        m = re.match(r"^\s*(enum\s+\w+|(struct|union)\s+\((?:unnamed|anonymous)[^)]*\)|(?:struct|union)\s+\w+|[A-Za-z_][\w ]*?)\s*(?=[*(\[]|$)(.*)$", s, re.S)
        if not m:
            raise Unsupported("type " + s)
        base, rest = m.group(1).strip(), m.group(3).strip()
        return self.decl_rest(self.base(base), rest)

    def decl_rest(self, b, r):
        r = r.strip()
        while r.startswith("*"):
            b = ("ptr", b)
            r = r[1:].strip()
        if not r:
            return b
        if r.startswith("["):
            dims = re.findall(r"\[([^\]]*)\]", r)
            if "".join("[%s]" % d for d in dims) != r.replace(" ", ""):
                raise Unsupported("type suffix " + r)
            for d in reversed(dims):
                if not d.strip().isdigit():
                    if d.strip() == "":
                        b = ("arr", b, 0)
                        continue
                    raise Unsupported("array size " + d)
                b = ("arr", b, int(d))
            return b
        if r.startswith("("):
            depth = 0
            for i, c in enumerate(r):
                depth += (c == "(") - (c == ")")
                if depth == 0:
                    break
            inner, after = r[1:i].strip(), r[i + 1:].strip()
            if inner.startswith("*"):
                if after.startswith("["):
                    return self.decl_rest(self.decl_rest(b, after), inner)
                return self.decl_rest(("fn",), inner)
            return ("fn",)
        raise Unsupported("type suffix " + r)

    def base(self, s):
        s = " ".join(s.split())
        s = NORMAL.get(s, s)
        if s in INTS:
            return ("int",) + INTS[s]
        if s == "void":
            return ("void",)
        if s in ("float", "double", "long double"):
            return ("float", {"float": 4, "double": 8, "long double": 16}[s])
        if s.startswith("enum "):
            return ("int", 4, False)
        m = re.match(r"^(struct|union) (.*)$", s)
        if m:
            if m.group(2).startswith("("):
                mm = re.search(r" at (.*):(\d+):(\d+)\)", m.group(2))
                x = self.recid.get((mm.group(1), int(mm.group(2)))) if mm else None
                if x is None:
                    raise Unsupported("record " + s)
                return ("rec", x["id"])
            if m.group(2) in self.records:
                return ("rec", self.records[m.group(2)]["id"])
            return ("rec", "?" + m.group(2))
        if s in self.ownedtag and self.ownedtag[s] in self.recid:
            return ("rec", self.ownedtag[s])
        if s in self.typedefs:
            return self.ty(self.typedefs[s])
        if s == "__builtin_va_list":
            return ("ptr", ("void",))
        raise Unsupported("type " + s)

    def sizeof(self, t):
        return self.sa(t)[0]

    def sa(self, t):
        k = t[0]
        if k == "int":
            return t[1], t[1]
        if k in ("ptr", "fn"):
            return 8, 8
        if k == "float":
            return t[1], t[1]
        if k == "void":
            return 1, 1
        if k == "arr":
            n, a = self.sa(t[1])
            return n * t[2], a
        if k == "rec":
            lay = self.layout(t[1])
            return lay["size"], lay["align"]
        raise Unsupported("size of %s" % (t,))

    def layout(self, rid):
        if rid in self.lay:
            return self.lay[rid]
        x = self.recid.get(rid)
        if x is None:
            raise Unsupported("incomplete record %s" % rid)
        union = x.get("tagUsed") == "union"
        off, al, size, fields = 0, 1, 0, {}
        for y in x.get("inner", []):
            if y.get("kind") != "FieldDecl":
                continue
            if y.get("isBitfield"):
                raise Unsupported("bit-field")
            t = self.ty(y["type"])
            n, a = self.sa(t)
            if union:
                o = 0
            else:
                off = (off + a - 1) // a * a
                o = off
                off += n
            fields[y["id"]] = (o, t)
            if y.get("name"):
                fields[y["name"]] = (o, t)
            size, al = max(size, o + n), max(al, a)
        size = (size + al - 1) // al * al
        self.lay[rid] = dict(size=size, align=al, fields=fields,
                             order=[fields[y["id"]] for y in x.get("inner", []) if y.get("kind") == "FieldDecl"])
        return self.lay[rid]

    # ---------------------------------------------------------------- programs
    def translate(self, entries):
        """-> Python syntax tree of the functions reachable from the entries"""
        for e in entries:
            if e not in self.funcs:
                raise Unsupported("no function " + e)
            self.need(e)
        body = []
        while self.todo:
            name = self.todo.pop(0)
            body += Fun(self, self.funcs[name]).emit()
        lines = [("    pass" if False else ln, no) for ln, no in self.data] + body
        text = "\n".join(ln for ln, _ in lines) + "\n"
        tree = ast.parse(text)
        for n in ast.walk(tree):
            if hasattr(n, "lineno"):
                n.lineno = n.end_lineno = max(1, lines[n.lineno - 1][1])
        self.text = text
        return tree

    def need(self, name):
        if name in self.done:
            return
        self.done.add(name)
        if name in self.funcs:
            self.todo.append(name)
        else:
            self.extern.add(name)

    def label(self, ident):
        """the exception of the jumps to a label"""
        if ident not in self.labels:
            self.labels[ident] = "c_jump%d" % len(self.labels)
            self.data.append(("class %s(Exception): pass" % self.labels[ident], 1))
        return self.labels[ident]

    def string(self, value):
        if value not in self.strings:
            name = "c_str%d" % len(self.strings)
            self.strings[value] = name
            body = value[value.index('"'):]
            self.data.append(("%s = c_text(%r)" % (name, list(ast.literal_eval("b" + body)) + [0]), 1))
        return self.strings[value]

    def glob(self, decl):
        """the block of a variable of static storage duration"""
        key = decl.get("id")
        if key in self.gnames:
            return self.gnames[key]
        name = "g_%s" % decl["name"]
        if name in self.gnames.values():
            name += "_%d" % len(self.gnames)
        self.gnames[key] = name
        t = self.ty(decl["type"])
        init = [y for y in decl.get("inner", []) if y.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        if init and t[0] == "arr" and t[2] == 0:
            raise Unsupported("array of unknown size")
        no = decl.get("_line", 1)
        if decl.get("storageClass") == "extern" and not init:
            self.data.append(("%s = c_extern(%r, %d)" % (name, decl["name"], self.sizeof(t)), no))
            return name
        self.data.append(("%s = c_zero(%r, %d)" % (name, decl["name"], self.sizeof(t)), no))
        if init:
            f = Fun(self, None)
            f.store_init(name, 0, t, init[0])
            self.data += [(ln, n or no) for ln, n in f.lines]
        return name


class Fun:
    def __init__(self, unit, decl):
        self.u, self.d = unit, decl
        self.lines, self.ind, self.no = [], 0, 1
        self.locals = {}     # decl id -> ("var", name) | ("mem", name, type)
        self.used = set()
        self.blocks = []
        self.loops = []      # what 'continue' has to do
        self.ntmp = 0
        if decl is not None:
            self.taken = set()
            self.find_taken(decl)

    def find_taken(self, n):
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            x = n["inner"][0]
            while x.get("kind") == "ParenExpr":
                x = x["inner"][0]
            if x.get("kind") == "DeclRefExpr":
                self.taken.add(x["referencedDecl"]["id"])
        for y in n.get("inner", []):
            self.find_taken(y)

    def name(self, base):
        n = "v_" + base
        k = 1
        while n in self.used:
            k += 1
            n = "v_%s_%d" % (base, k)
        self.used.add(n)
        return n

    def temp(self, base="t"):
        self.ntmp += 1
        return "t_%s%d" % (base, self.ntmp)

    def put(self, text):
        self.lines.append(("    " * self.ind + text, self.no))

    def emit(self):
        d = self.d
        params, pre = [], []
        body = None
        for y in d.get("inner", []):
            if y.get("kind") == "ParmVarDecl":
                n = self.name(y.get("name", "unused"))
                params.append(n)
                t = self.ty(y)
                if t[0] == "arr":
                    t = ("ptr", t[1])
                if y["id"] in self.taken:
                    m = self.name(y["name"])
                    self.locals[y["id"]] = ("mem", m, t)
                    pre.append("%s = c_local(%r, %d)" % (m, y["name"], self.u.sizeof(t)))
                    pre.append(self.st(m, t, n))
                    self.blocks.append(m)
                elif t[0] == "rec":
                    self.locals[y["id"]] = ("mem", n, t)
                else:
                    self.locals[y["id"]] = ("var", n, t)
            elif y.get("kind") == "CompoundStmt":
                body = y
        if d.get("variadic"):
            raise Unsupported("variadic function " + d["name"])
        self.no = d.get("_line", 1)
        self.put("def %s(%s):" % (fname(d["name"]), ", ".join(params)))
        self.ind = 1
        self.put("c_frame = c_enter()")
        for p in pre:
            self.put(p)
        self.stmt(body)
        self.put("c_leave(c_frame)")
        if d["name"] == "main":
            self.put("return 0")
        return self.lines

    # ------------------------------------------------------------------- types
    def ty(self, n):
        return self.u.ty(n["type"])

    def st(self, p, t, v):
        if t[0] == "rec":
            return "c_copy(%s, %s, %d)" % (p, v, self.u.sizeof(t))
        return "c_st(%s, %d, %s)" % (p, self.u.sizeof(t), v)

    def ld(self, p, t):
        if t[0] == "rec":
            return p
        return "c_ld(%s, %d, %d)" % (p, self.u.sizeof(t), int(t[0] == "int" and t[2]))

    def conv(self, e, src, dst):
        """integer conversion"""
        n = num(e)
        if n is not None and dst[0] == "int":
            return lit(wrap(n, 8 * dst[1], dst[2]))
        if dst[0] != "int" or src[0] != "int":
            return e
        if src == dst:
            return e
        if (src[1] < dst[1] and (dst[2] or not src[2])):
            return e
        return "c_int(%s, %d, %d)" % (e, 8 * dst[1], int(dst[2]))

    # -------------------------------------------------------------- statements
    def block(self, s):
        n = len(self.lines)
        self.ind += 1
        if s is not None:
            self.stmt(s)
        if len(self.lines) == n:
            self.put("pass")
        self.ind -= 1

    def stmt(self, s):
        k = s.get("kind")
        if k is None:
            return
        if "_line" in s:
            self.no = s["_line"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s)
        e = self.ex(s, drop=True)
        self.put(e)

    def s_CompoundStmt(self, s):
        self.sequence(s.get("inner", []))

    def sequence(self, xs):
        """statements; a label is where the exception of its goto statements is caught"""
        at = [i for i, x in enumerate(xs) if x.get("kind") == "LabelStmt"]
        if not at:
            for x in xs:
                self.stmt(x)
            return
        i = at[-1]
        label, before, after = xs[i], xs[:i], [xs[i]["inner"][0]] + xs[i + 1:]
        d = label["declId"]
        if jumps(before, d):
            exc = self.u.label(d)
            self.put("try:")
            self.ind += 1
            self.put("pass")
            self.sequence(before)
            self.ind -= 1
            self.put("except %s:" % exc)
            self.put("    pass")
        else:
            self.sequence(before)
        if jumps(after, d):
            if leaves(after):
                raise Unsupported("jump back over a break or continue")
            exc = self.u.label(d)
            self.put("while True:")
            self.ind += 1
            self.put("try:")
            self.ind += 1
            self.put("pass")
            self.sequence(after)
            self.ind -= 1
            self.put("except %s:" % exc)
            self.put("    continue")
            self.put("break")
            self.ind -= 1
        else:
            self.sequence(after)

    def s_GotoStmt(self, s):
        self.put("raise %s()" % self.u.label(s["targetLabelDeclId"]))

    def s_NullStmt(self, s):
        self.put("pass")

    def s_DeclStmt(self, s):
        for d in s.get("inner", []):
            if d.get("kind") == "VarDecl":
                self.declare(d)
            elif d.get("kind") == "RecordDecl":
                self.u.record(d)
            elif d.get("kind") == "EnumDecl":
                self.u.enum(d)
            elif d.get("kind") == "TypedefDecl":
                self.u.typedefs[d["name"]] = d["type"]["qualType"]
            elif d.get("kind") not in ("EmptyDecl", "StaticAssertDecl", "FunctionDecl"):
                raise Unsupported("declaration " + str(d.get("kind")))

    def declare(self, d):
        if "_line" in d:
            self.no = d["_line"]
        t = self.ty(d)
        init = [y for y in d.get("inner", []) if y.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        if d.get("storageClass") in ("static", "extern"):
            g = self.u.glob(d)
            self.locals[d["id"]] = ("mem", g, t)
            return
        if d["id"] in self.locals:
            kind, n = self.locals[d["id"]][:2]
        else:
            n = self.name(d["name"])
            kind = "mem" if t[0] in ("arr", "rec") or d["id"] in self.taken else "var"
            self.locals[d["id"]] = (kind, n, t)
        if kind == "mem":
            self.put("%s = c_local(%r, %d)" % (n, d["name"], self.u.sizeof(t)))
            if init:
                self.store_init(n, 0, t, init[0])
        elif init:
            e = init[0]
            if e.get("kind") == "InitListExpr":
                e = e["inner"][0]
            self.put("%s = %s" % (n, self.ex(e)))
        elif self.loops:          # indeterminate again each time round
            self.put("%s = 0" % n)
            self.put("del %s" % n)

    def store_init(self, base, off, t, e):
        k = e.get("kind")
        if "_line" in e:
            self.no = e["_line"]
        p = "c_add(%s, %d)" % (base, off) if off else base
        if k == "InitListExpr":
            if t[0] not in ("arr", "rec"):
                return self.store_init(base, off, t, e["inner"][0]) if e.get("inner") else self.put(self.st(p, t, "0"))
            self.put("c_clear(%s, %d)" % (p, self.u.sizeof(t)))
            inner = e.get("inner")
            if inner is None:
                inner = e.get("array_filler", [])
                inner = [x for x in inner if x.get("kind") != "ImplicitValueInitExpr"]
            if t[0] == "arr":
                for i, x in enumerate(inner):
                    if x.get("kind") != "ImplicitValueInitExpr":
                        self.store_init(base, off + i * self.u.sizeof(t[1]), t[1], x)
            else:
                lay = self.u.layout(t[1])
                if e.get("field"):
                    o, ft = lay["fields"][e["field"]["id"]]
                    return self.store_init(base, off + o, ft, inner[0])
                for (o, ft), x in zip(lay["order"], inner):
                    if x.get("kind") != "ImplicitValueInitExpr":
                        self.store_init(base, off + o, ft, x)
            return
        if t[0] == "arr":
            x = e
            while x.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
                x = x["inner"][0]
            if x.get("kind") == "StringLiteral":
                v = self.u.string(x["value"])
                self.put("c_clear(%s, %d)" % (p, self.u.sizeof(t)))
                n = len(ast.literal_eval("b" + x["value"])) + 1
                self.put("c_copy(%s, %s, %d)" % (p, v, min(n, self.u.sizeof(t))))
                return
            raise Unsupported("array initialiser " + str(k))
        self.put(self.st(p, t, self.ex(e)))

    def s_ReturnStmt(self, s):
        x = s.get("inner")
        if x:
            v = self.temp("ret")
            self.put("%s = %s" % (v, self.ex(x[0])))
            self.put("c_leave(c_frame)")
            self.put("return %s" % v)
        else:
            self.put("c_leave(c_frame)")
            self.put("return None")

    def s_IfStmt(self, s):
        x = s["inner"]
        self.put("if %s:" % self.truth(x[0]))
        self.block(x[1])
        if s.get("hasElse"):
            self.put("else:")
            self.block(x[2])

    def s_WhileStmt(self, s):
        x = s["inner"]
        self.put("while %s:" % self.truth(x[0]))
        self.loops.append(("while", None))
        self.block(x[-1])
        self.loops.pop()

    def s_DoStmt(self, s):
        body, cond = s["inner"]
        self.put("while True:")
        self.loops.append(("do", cond))
        self.block(body)
        self.loops.pop()
        self.ind += 1
        if cond.get("kind") == "IntegerLiteral" and cond["value"] == "0":
            self.put("break")
        else:
            self.put("if not %s:" % self.truth(cond))
            self.put("    break")
        self.ind -= 1

    def s_ForStmt(self, s):
        init, var, cond, inc, body = s["inner"]
        if init:
            self.stmt(init)
        if var:
            self.stmt(var)
        self.put("while %s:" % (self.truth(cond) if cond else "True"))
        self.loops.append(("for", inc))
        self.block(body)
        self.loops.pop()
        if inc:
            self.ind += 1
            self.stmt(inc)
            self.ind -= 1

    def s_BreakStmt(self, s):
        self.put("break")

    def s_ContinueStmt(self, s):
        if self.loops[-1][0] == "switch":
            self.put("%s = True" % self.loops[-1][1])
            self.put("break")
            return
        self.go_on()

    def go_on(self):
        kind, x = self.loops[-1]
        if kind == "for" and x:
            self.stmt(x)
        if kind == "do":
            self.put("if not %s:" % self.truth(x))
            self.put("    break")
        if kind == "switch":
            self.put("%s = True" % x)
            self.put("break")
        else:
            self.put("continue")

    def s_SwitchStmt(self, s):
        cond, body = s["inner"][-2:]
        v, at, flag = self.temp("sw"), self.temp("at"), self.temp("go")
        self.put("%s = %s" % (v, self.ex(cond)))
        if body.get("kind") != "CompoundStmt":
            raise Unsupported("switch body")
        groups = []      # [labels, statements]
        for x in body.get("inner", []):
            labels = []
            while x.get("kind") in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "DefaultStmt":
                    labels.append(None)
                    x = x["inner"][0]
                else:
                    if len(x["inner"]) > 2:
                        labels.append((self.const(x["inner"][0]), self.const(x["inner"][1])))
                    else:
                        labels.append(self.const(x["inner"][0]))
                    x = x["inner"][-1]
            if labels or not groups:
                groups.append([labels, []])
            groups[-1][1].append(x)
        self.put("%s = %d" % (at, len(groups)))
        for i, (labels, _) in enumerate(groups):
            if None in labels:
                self.put("%s = %d" % (at, i))
        first = True
        for i, (labels, _) in enumerate(groups):
            for c in labels:
                if c is not None:
                    if type(c) is tuple:
                        self.put("%s %d <= %s and %s <= %d:" % ("if" if first else "elif", c[0], v, v, c[1]))
                    else:
                        self.put("%s %s == %d:" % ("if" if first else "elif", v, c))
                    self.put("    %s = %d" % (at, i))
                    first = False
        self.put("%s = False" % flag)
        self.put("while True:")
        self.loops.append(("switch", flag))
        self.ind += 1
        for i, (_, stmts) in enumerate(groups):
            self.put("if %s <= %d:" % (at, i))
            self.ind += 1
            for x in stmts:
                self.stmt(x)
            self.put("pass")
            self.ind -= 1
        self.put("break")
        self.ind -= 1
        self.loops.pop()
        if self.loops:
            self.put("if %s:" % flag)
            self.ind += 1
            self.go_on()
            self.ind -= 1

    def const(self, e):
        k = e.get("kind")
        if k == "ConstantExpr" and "value" in e:
            return int(e["value"])
        if k in ("IntegerLiteral", "CharacterLiteral"):
            return int(e["value"])
        if k in ("ConstantExpr", "ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
            return self.const(e["inner"][0])
        if k == "UnaryOperator" and e["opcode"] == "-":
            return -self.const(e["inner"][0])
        if k == "DeclRefExpr" and e["referencedDecl"]["kind"] == "EnumConstantDecl":
            return self.u.enums[e["referencedDecl"]["id"]]
        if k == "BinaryOperator" and e["opcode"] in ("+", "-", "*", "|", "<<"):
            x, y = [self.const(i) for i in e["inner"]]
            return {"+": x + y, "-": x - y, "*": x * y, "|": x | y, "<<": x << max(y, 0)}[e["opcode"]]
        raise Unsupported("constant " + str(k))

    # ------------------------------------------------------------- expressions
    def truth(self, e):
        k = e.get("kind")
        if k == "ParenExpr":
            return self.truth(e["inner"][0])
        if k == "BinaryOperator":
            op = e["opcode"]
            if op in ("&&", "||"):
                return "(%s %s %s)" % (self.truth(e["inner"][0]), "and" if op == "&&" else "or", self.truth(e["inner"][1]))
            if op in ("<", "<=", ">", ">=", "==", "!="):
                a, b = e["inner"]
                if op not in ("==", "!=") and self.ty(a)[0] == "ptr":
                    return "(c_diff(%s, %s, 1) %s 0)" % (self.ex(a), self.ex(b), op)
                return "(%s %s %s)" % (self.ex(a), op, self.ex(b))
        if k == "UnaryOperator" and e["opcode"] == "!":
            return "(not %s)" % self.truth(e["inner"][0])
        if k == "ImplicitCastExpr" and e["castKind"] == "IntegralCast":
            return self.truth(e["inner"][0]) if self.boolish(e["inner"][0]) else "(%s != 0)" % self.ex(e)
        if k == "IntegerLiteral":
            return "True" if int(e["value"]) else "False"
        return "(%s != 0)" % self.ex(e)

    def boolish(self, e):
        k = e.get("kind")
        if k == "ParenExpr":
            return self.boolish(e["inner"][0])
        return (k == "BinaryOperator" and e["opcode"] in ("&&", "||", "<", "<=", ">", ">=", "==", "!=")) or \
            (k == "UnaryOperator" and e["opcode"] == "!")

    def ex(self, e, drop=False):
        k = e.get("kind")
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (k, e.get("_line")))
        if drop and k in ("UnaryOperator", "CStyleCastExpr", "ParenExpr"):
            return m(e, True)
        return m(e)

    def e_IntegerLiteral(self, e):
        return e["value"]

    def e_CharacterLiteral(self, e):
        return str(e["value"])

    def e_StringLiteral(self, e):
        return self.u.string(e["value"])

    def e_ConstantExpr(self, e):
        return self.ex(e["inner"][0])

    def e_ParenExpr(self, e, drop=False):
        return self.ex(e["inner"][0], drop)

    def e_ImplicitValueInitExpr(self, e):
        return "0"

    def e_PredefinedExpr(self, e):
        return self.ex(e["inner"][0])

    def e_DeclRefExpr(self, e):
        d = e["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return str(self.u.enums[d["id"]])
        if d["kind"] == "FunctionDecl":
            self.u.need(d["name"])
            return fname(d["name"])
        kind, p, t = self.lv(e)
        if kind == "var":
            return p
        if t[0] in ("arr", "rec"):
            return p
        raise Unsupported("use of %s" % d["name"])

    def lv(self, e):
        """-> ("var", name, type) | ("mem", pointer, type)"""
        k = e.get("kind")
        t = self.ty(e)
        if k == "ParenExpr":
            return self.lv(e["inner"][0])
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["id"] in self.locals:
                kind, n = self.locals[d["id"]][:2]
                return kind, n, t
            g = self.u.globals.get(d["name"])
            if g is None:
                raise Unsupported("variable " + d["name"])
            return "mem", self.u.glob(g), t
        if k == "ArraySubscriptExpr":
            a, b = e["inner"]
            if self.ty(a)[0] == "int":
                a, b = b, a
            return "mem", self.at(self.ex(a), self.times(self.ex(b), self.u.sizeof(t))), t
        if k == "MemberExpr":
            x = e["inner"][0]
            if e.get("isArrow"):
                p, rt = self.ex(x), self.ty(x)[1]
            else:
                _, p, rt = self.lv_any(x)
            lay = self.u.layout(rt[1])
            o, ft = lay["fields"][e["referencedMemberDecl"]]
            return "mem", self.at(p, str(o)), ft
        if k == "UnaryOperator" and e["opcode"] == "*":
            return "mem", self.ex(e["inner"][0]), t
        if k == "UnaryOperator" and e["opcode"] == "__extension__":
            return self.lv(e["inner"][0])
        if k == "CompoundLiteralExpr":
            n = self.temp("lit")
            self.put("%s = c_local('literal', %d)" % (n, self.u.sizeof(t)))
            self.store_init(n, 0, t, e["inner"][0])
            return "mem", n, t
        if k == "StringLiteral":
            return "mem", self.u.string(e["value"]), t
        raise Unsupported("lvalue %s at line %s" % (k, e.get("_line")))

    def lv_any(self, e):
        if self.ty(e)[0] == "rec" and e.get("kind") in ("CallExpr", "ConditionalOperator"):
            return "mem", self.ex(e), self.ty(e)
        return self.lv(e)

    def at(self, p, off):
        return p if off == "0" else "c_add(%s, %s)" % (p, off)

    def times(self, e, n):
        if n == 1:
            return e
        if e.isdigit():
            return str(int(e) * n)
        return "%s * %d" % (e, n) if re.match(r"^\w+$", e) else "(%s) * %d" % (e, n)

    def load(self, e):
        kind, p, t = self.lv(e)
        if kind == "var" or t[0] in ("rec", "arr"):
            return p
        return self.ld(p, t)

    def e_ArraySubscriptExpr(self, e):
        return self.lv(e)[1]

    e_MemberExpr = e_CompoundLiteralExpr = e_ArraySubscriptExpr

    def e_ImplicitCastExpr(self, e):
        x = e["inner"][0]
        c = e["castKind"]
        if c == "LValueToRValue":
            return self.load(x)
        if c in ("NoOp", "BitCast", "FunctionToPointerDecay", "ArrayToPointerDecay", "BuiltinFnToFnPtr", "LValueBitCast"):
            if c == "ArrayToPointerDecay":
                return self.lv(x)[1]
            return self.ex(x)
        if c == "IntegralCast":
            if self.boolish(x):
                return self.ex(x)
            return self.conv(self.ex(x), self.ty(x), self.ty(e))
        if c == "NullToPointer":
            return "0"
        if c == "IntegralToBoolean" or c == "PointerToBoolean":
            return "(1 if %s else 0)" % self.truth(x)
        if c == "IntegralToPointer":
            return self.ex(x)
        if c == "ToVoid":
            return self.ex(x, True)
        raise Unsupported("cast " + c)

    def e_CStyleCastExpr(self, e, drop=False):
        return self.e_ImplicitCastExpr(e)

    def e_UnaryExprOrTypeTraitExpr(self, e):
        if e["name"] != "sizeof":
            raise Unsupported(e["name"])
        t = self.u.ty(e["argType"]) if "argType" in e else self.ty(e["inner"][0])
        return str(self.u.sizeof(t))

    def e_CallExpr(self, e):
        f, args = e["inner"][0], e["inner"][1:]
        vals = []
        for a in args:
            v = self.ex(a)
            if self.ty(a)[0] == "rec":
                v = "c_dup(%s, %d)" % (v, self.u.sizeof(self.ty(a)))
            vals.append(v)
        return "%s(%s)" % (self.ex(f), ", ".join(vals))

    def e_ConditionalOperator(self, e):
        c, a, b = e["inner"]
        return "(%s if %s else %s)" % (self.ex(a), self.truth(c), self.ex(b))

    def e_InitListExpr(self, e):
        return self.ex(e["inner"][0])

    def e_UnaryOperator(self, e, drop=False):
        op = e["opcode"]
        x = e["inner"][0]
        if op in ("++", "--"):
            kind, p, t = self.lv(x)
            one = self.u.sizeof(t[1]) if t[0] == "ptr" else 1
            d = one if op == "++" else -one

            def step(v):
                if t[0] == "ptr":
                    return "c_add(%s, %d)" % (v, d)
                return self.arith("%s %s %d" % (v, "+" if d > 0 else "-", abs(d)), t)
            if kind == "var":
                if drop:
                    return "(%s := %s)" % (p, step(p))
                if e.get("isPostfix"):
                    return "c_first(%s, (%s := %s))" % (p, p, step(p))
                return "(%s := %s)" % (p, step(p))
            return "c_upd(%s, %d, %d, (lambda c_old: %s), %s)" % (
                p, self.u.sizeof(t), int(t[0] == "int" and t[2]), step("c_old"), bool(e.get("isPostfix")) and not drop)
        if op == "&":
            y = x
            while y.get("kind") == "ParenExpr":
                y = y["inner"][0]
            if self.ty(y)[0] == "fn":
                return self.ex(y)
            kind, p, t = self.lv(x)
            if kind == "var":
                raise Unsupported("address of a register variable")
            return p
        if op == "*":
            if self.ty(e)[0] == "fn":
                return self.ex(x)
            return self.lv(e)[1]
        if op == "!":
            return "(0 if %s else 1)" % self.truth(x)
        if op == "-":
            return self.arith("-%s" % self.ex(x), self.ty(e))
        if op == "+":
            return self.ex(x)
        if op == "~":
            t = self.ty(e)
            return self.conv("(~%s)" % self.ex(x), ("int", 16, True), t)
        if op == "__extension__":
            return self.ex(x)
        raise Unsupported("operator " + op)

    def arith(self, e, t):
        if t[0] != "int":
            raise Unsupported("arithmetic on %s" % (t,))
        if re.match(r"^-\d+$", e):
            return "(%s)" % e
        if t[2]:
            return "c_sgn(%s, %d)" % (e, 8 * t[1])
        return "c_int(%s, %d, 0)" % (e, 8 * t[1])

    def binary(self, op, a, b, ta, tb, t):
        """a, b: expressions of the (converted) operand types"""
        x, y = num(a), num(b)
        if x is not None and y is not None and t[0] == "int":
            if op in ("/", "%") and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return lit(wrap(q if op == "/" else x - q * y, 8 * t[1], t[2]))
            r = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}.get(op)
            if r is not None and wrap(r, 8 * t[1], t[2]) in (r, r if not t[2] else None):
                return lit(wrap(r, 8 * t[1], t[2]))
        if op in ("+", "-"):
            if ta[0] == "ptr" and tb[0] == "ptr":
                return "c_diff(%s, %s, %d)" % (a, b, self.u.sizeof(ta[1]))
            if ta[0] == "ptr":
                n = self.times(b, self.u.sizeof(ta[1]))
                return "c_add(%s, %s%s)" % (a, "" if op == "+" else "-(", n + ("" if op == "+" else ")"))
            if tb[0] == "ptr":
                return "c_add(%s, %s)" % (b, self.times(a, self.u.sizeof(tb[1])))
            return self.arith("(%s) %s (%s)" % (a, op, b), t)
        if op == "*":
            return self.arith("(%s) * (%s)" % (a, b), t)
        if op == "/":
            return self.arith("c_div(%s, %s)" % (a, b), t)
        if op == "%":
            return "c_mod(%s, %s)" % (a, b)
        if op == "<<":
            return "c_int((%s) << c_amount(%s, %d), %d, %d)" % (a, b, 8 * t[1], 8 * t[1], int(t[2]))
        if op == ">>":
            return "((%s) >> c_amount(%s, %d))" % (a, b, 8 * t[1])
        if op in ("&", "|", "^"):
            return "((%s) %s (%s))" % (a, op, b)
        raise Unsupported("operator " + op)

    def e_BinaryOperator(self, e):
        op = e["opcode"]
        a, b = e["inner"]
        if op in ("&&", "||", "<", "<=", ">", ">=", "==", "!="):
            return "(1 if %s else 0)" % self.truth(e)
        if op == "=":
            v = self.ex(b)
            kind, p, t = self.lv(a)
            if kind == "var":
                return "(%s := %s)" % (p, v)
            return self.st(p, t, v)
        if op == ",":
            return "c_second(%s, %s)" % (self.ex(a, True), self.ex(b))
        return self.binary(op, self.ex(a), self.ex(b), self.ty(a), self.ty(b), self.ty(e))

    def e_CompoundAssignOperator(self, e):
        a, b = e["inner"]
        op = e["opcode"][:-1]
        kind, p, t = self.lv(a)
        lt, rt = self.u.ty(e["computeLHSType"]), self.u.ty(e["computeResultType"])
        v = self.ex(b)

        def new(old):
            r = self.binary(op, self.conv(old, t, lt), v, lt, self.ty(b), rt)
            return self.conv(r, rt, t)
        if kind == "var":
            return "(%s := %s)" % (p, new(p))
        return "c_upd(%s, %d, %d, (lambda c_old: %s), False)" % (
            p, self.u.sizeof(t), int(t[0] == "int" and t[2]), new("c_old"))
