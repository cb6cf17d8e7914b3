"""A stand-in for the part of Jinja2 that templates like validator.py's use."""
import ast
import io
import re
import tokenize

TOKEN = re.compile(r"(\{\{[-+]?.*?[-+]?\}\}|\{%[-+]?.*?[-+]?%\}|\{#[-+]?.*?[-+]?#\})", re.S)


class UndefinedError(Exception):
    pass


class TemplateSyntaxError(Exception):
    pass


class Undefined:
    def __bool__(self):
        return False

    def __str__(self):
        return ""

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, Undefined)

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__

    def _no(self, *a, **k):
        raise UndefinedError("undefined")
    __call__ = __getitem__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __int__ = _no

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise UndefinedError(n)


def indent(s, width=4, first=False, blank=False):
    pad = width if isinstance(width, str) else " " * width
    lines = (str(s) + "\n").splitlines()
    if blank:
        rv = ("\n" + pad).join(lines)
    else:
        rv = lines.pop(0)
        if lines:
            rv += "\n" + "\n".join(pad + l if l else l for l in lines)
    return pad + rv if first else rv


FILTERS = {
    "indent": indent, "length": len, "count": len, "string": str, "list": list, "lower": lambda s: str(s).lower(), "upper": lambda s: str(s).upper(), "int": lambda v, d=0: int(v), "float": lambda v, d=0.0: float(v),
    "trim": lambda s, c=None: str(s).strip(c), "first": lambda s: next(iter(s), Undefined()), "last": lambda s: list(s)[-1] if list(s) else Undefined(), "abs": abs, "sort": sorted, "unique": lambda s: list(dict.fromkeys(s)),
    "join": lambda s, d="": str(d).join(map(str, s)), "replace": lambda s, a, b: str(s).replace(a, b), "default": lambda v, d="": d if isinstance(v, Undefined) else v, "safe": lambda s: s, "round": round, "format": lambda s, *a: str(s) % a,
}


def attr(o, n):
    try:
        return getattr(o, n)
    except AttributeError:
        if isinstance(o, Undefined):
            raise
        try:
            return o[n]
        except (TypeError, LookupError, AttributeError):
            return Undefined()


def item(o, k):
    try:
        return o[k]
    except (AttributeError, TypeError, LookupError):
        if isinstance(k, str):
            try:
                return getattr(o, k)
            except AttributeError:
                pass
        return Undefined()


def pipe(v, f, *a, **k):
    return FILTERS[f](v, *a, **k)


class Rewrite(ast.NodeTransformer):
    """Jinja's attribute and item lookup, and filters written with |."""

    def visit_Attribute(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("__attr", ast.Load()), [n.value, ast.Constant(n.attr)], [])

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice):
            return n
        return ast.Call(ast.Name("__item", ast.Load()), [n.value, n.slice], [])

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult):
            r = n.right
            if isinstance(r, ast.Name):
                return ast.Call(ast.Name("__pipe", ast.Load()), [n.left, ast.Constant(r.id)], [])
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name):
                return ast.Call(ast.Name("__pipe", ast.Load()), [n.left, ast.Constant(r.func.id)] + r.args, r.keywords)
            raise TemplateSyntaxError("filter")
        return n


class Names(dict):
    def __missing__(self, k):
        if k in ("true", "false", "none"):
            return {"true": True, "false": False, "none": None}[k]
        if k.startswith("__"):
            raise KeyError(k)
        if k == "range":
            return range
        return Undefined()


def tight(text):
    """A filter binds more tightly than + does; as | it would not."""
    out, at = [], 0
    line = text.replace("\n", " ")
    try:
        for t in tokenize.generate_tokens(io.StringIO("(" + line + ")").readline):
            if t.type == tokenize.OP and t.string == "|":
                out.append(line[at:t.start[1] - 1] + "@")
                at = t.start[1]
    except tokenize.TokenError:
        pass
    return "".join(out) + line[at:]


class Expr:
    def __init__(self, text):
        text = text.strip()
        m = re.match(r"^(.*?)\s+is\s+(not\s+)?(defined|none|undefined)$", text)
        self.test = None
        if m:
            text, self.test = m.group(1), (m.group(3), bool(m.group(2)))
        text = tight(text)
        try:
            tree = ast.parse("(" + text + ")", mode="eval")
        except SyntaxError as e:
            raise TemplateSyntaxError(text) from e
        self.code = compile(ast.fix_missing_locations(Rewrite().visit(tree)), "<expr>", "eval")

    def __call__(self, ctx):
        v = eval(self.code, {"__builtins__": {}, "__attr": attr, "__item": item, "__pipe": pipe}, ctx)
        if self.test:
            t, neg = self.test
            v = (v is None if t == "none" else isinstance(v, Undefined) == (t == "undefined")) != neg
        return v


# nodes: (kind, ...)
def lex(src):
    if src.endswith("\n"):
        src = src[:-1]
    out, strip = [], False
    for part in TOKEN.split(src):
        if part[:2] in ("{{", "{%", "{#") and len(part) >= 4:
            left, right = part[2] == "-", part[-3] == "-"
            if left and out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1].rstrip())
            body = part[2:-2]
            body = body[1:] if body[:1] in "+-" and body else body
            body = body[:-1] if body[-1:] in "+-" and body else body
            strip = right
            if part[:2] != "{#":
                out.append(("out" if part[:2] == "{{" else "tag", body.strip()))
        else:
            out.append(("text", part.lstrip() if strip else part))
            strip = False
    return out


class Parser:
    def __init__(self, src):
        self.toks, self.i = lex(src), 0

    def block(self, ends):
        nodes = []
        while self.i < len(self.toks):
            kind, s = self.toks[self.i]
            self.i += 1
            if kind == "text":
                if s:
                    nodes.append(("text", s))
            elif kind == "out":
                nodes.append(("out", Expr(s)))
            else:
                word = s.split(None, 1)[0]
                rest = s[len(word):].strip()
                if word in ends:
                    return nodes, word, rest
                if word == "set":
                    names, e = rest.split("=", 1)
                    nodes.append(("set", [n.strip() for n in names.split(",")], Expr(e)))
                elif word == "if":
                    arms, cond = [], Expr(rest)
                    while True:
                        body, w, r = self.block(("elif", "else", "endif"))
                        arms.append((cond, body))
                        if w == "endif":
                            break
                        cond = Expr(r) if w == "elif" else None
                    nodes.append(("if", arms))
                elif word == "for":
                    m = re.match(r"^(.*?)\s+in\s+(.*)$", rest, re.S)
                    body, w, r = self.block(("endfor", "else"))
                    other = []
                    if w == "else":
                        other, w, r = self.block(("endfor",))
                    nodes.append(("for", [n.strip() for n in m.group(1).strip("()").split(",")], Expr(m.group(2)), body, other))
                elif word == "filter":
                    body, w, r = self.block(("endfilter",))
                    nodes.append(("filter", Expr("__body|" + rest), body))
                else:
                    raise TemplateSyntaxError(s)
        if ends:
            raise TemplateSyntaxError("missing " + "/".join(ends))
        return nodes, None, ""


def run(nodes, ctx, out):
    for n in nodes:
        k = n[0]
        if k == "text":
            out.append(n[1])
        elif k == "out":
            out.append(str(n[1](ctx)))
        elif k == "set":
            v = n[2](ctx)
            for name, x in zip(n[1], [v] if len(n[1]) == 1 else v):
                ctx[name] = x
        elif k == "if":
            for cond, body in n[1]:
                if cond is None or cond(ctx):
                    run(body, ctx, out)
                    break
        elif k == "for":
            vs = list(n[2](ctx))
            for i, v in enumerate(vs):
                c = Names(ctx)
                c["loop"] = {"index": i + 1, "index0": i, "first": i == 0, "last": i == len(vs) - 1, "length": len(vs)}
                for name, x in zip(n[1], [v] if len(n[1]) == 1 else v):
                    c[name] = x
                run(n[3], c, out)
            if not vs:
                run(n[4], Names(ctx), out)
        elif k == "filter":
            c, o = Names(ctx), []
            run(n[2], c, o)
            c["__body"] = "".join(o)
            out.append(str(n[1](c)))


_cache = {}


class Template:
    def __init__(self, source, **options):
        if options:
            raise TemplateSyntaxError("options are not supported: %s" % sorted(options))
        if source not in _cache:
            _cache[source] = Parser(source).block(())[0]
        self.nodes = _cache[source]

    def render(self, *a, **kw):
        ctx = Names(*a, **kw)
        out = []
        run(self.nodes, ctx, out)
        return "".join(out)
