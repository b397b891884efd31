"""A small implementation of the Jinja2 template language, enough to render the importer's code
templates: the sandbox has no jinja2.  Follows the documented behaviour of jinja2 with its default
options (trim_blocks and lstrip_blocks off, one trailing newline of a template removed, undefined
values render as nothing and are false)."""
import os
import re


class TemplateError(Exception):
    pass


class TemplateNotFound(TemplateError, IOError):
    pass


class TemplateSyntaxError(TemplateError):
    pass


class UndefinedError(TemplateError):
    pass


class Undefined(object):
    def __init__(self, name=None):
        self._name = name

    def __str__(self):
        return ""

    def __bool__(self):
        return False

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, Undefined)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def _fail(self, *a, **k):
        raise UndefinedError("'%s' is undefined" % self._name)
    __getitem__ = __call__ = __add__ = __radd__ = __sub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = _fail

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._fail()


class StrictUndefined(Undefined):
    __str__ = __bool__ = __iter__ = __len__ = Undefined._fail


# ---------------------------------------------------------------- expressions
TOK = re.compile(r"""\s*(?:(?P<num>\d+\.\d+(?:[eE][+-]?\d+)?|\d+)|(?P<name>[A-Za-z_]\w*)|(?P<str>'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")"""
                 r"""|(?P<op>\*\*|//|==|!=|<=|>=|[-+*/%~|.,:()\[\]{}<>=]))""", re.S)


def tokenize(s):
    out, i = [], 0
    while s[i:].strip():
        m = TOK.match(s, i)
        if not m:
            raise TemplateSyntaxError("unexpected character in %r" % s)
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    out.append(("end", ""))
    return out


class Parser(object):
    def __init__(self, text):
        self.t, self.i = tokenize(text), 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def op(self, *ops):
        k, v = self.peek()
        if (k == "op" and v in ops) or (k == "name" and v in ops and v.isalpha()):
            return self.next()[1]
        return None

    def need(self, o):
        if self.op(o) is None:
            raise TemplateSyntaxError("expected %r, got %r" % (o, self.peek()[1]))

    def end(self):
        if self.peek()[0] != "end":
            raise TemplateSyntaxError("unexpected %r" % self.peek()[1])

    def expr(self):           # inline if
        e = self.or_()
        while self.op("if"):
            c = self.or_()
            o = self.expr() if self.op("else") else None
            e = (lambda e, c, o: lambda x: e(x) if c(x) else (o(x) if o else Undefined()))(e, c, o)
        return e

    def or_(self):
        e = self.and_()
        while self.op("or"):
            e = (lambda a, b: lambda x: a(x) or b(x))(e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.op("and"):
            e = (lambda a, b: lambda x: a(x) and b(x))(e, self.not_())
        return e

    def not_(self):
        if self.op("not"):
            e = self.not_()
            return lambda x: not e(x)
        return self.cmp()

    CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
           "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "in": lambda a, b: a in b, "notin": lambda a, b: a not in b}

    def cmp(self):
        first, rest = self.add(), []
        while True:
            o = self.op("==", "!=", "<=", ">=", "<", ">", "in")
            if o is None and self.peek() == ("name", "not") and self.t[self.i + 1] == ("name", "in"):
                self.i += 2
                o = "notin"
            if o is None:
                break
            rest.append((self.CMP[o], self.add()))
        if not rest:
            return first

        def f(x):
            a = first(x)
            for o, e in rest:
                b = e(x)
                if not o(a, b):
                    return False
                a = b
            return True
        return f

    BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
           "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b}

    def binary(self, ops, sub):
        e = sub()
        while True:
            o = self.op(*ops)
            if o is None:
                return e
            e = (lambda f, a, b: lambda x: f(a(x), b(x)))(self.BIN[o], e, sub())

    def add(self):
        return self.binary(("+", "-"), self.concat)

    def concat(self):
        e = self.mul()
        while self.op("~"):
            e = (lambda a, b: lambda x: to_text(a(x)) + to_text(b(x)))(e, self.mul())
        return e

    def mul(self):
        return self.binary(("*", "/", "//", "%"), self.unary)

    def unary(self):
        if self.op("-"):
            e = self.unary()
            return lambda x: -e(x)
        if self.op("+"):
            return self.unary()
        e = self.filters(self.postfix(self.atom()))
        if self.op("**"):
            b, a = self.unary(), e
            e = lambda x: a(x) ** b(x)
        return e

    def args(self):
        pos, kw = [], {}
        while not self.op(")"):
            if self.peek()[0] == "name" and self.t[self.i + 1] == ("op", "="):
                n = self.next()[1]
                self.next()
                kw[n] = self.expr()
            else:
                pos.append(self.expr())
            if not self.op(","):
                self.need(")")
                break
        return pos, kw

    def postfix(self, e):
        while True:
            if self.op("."):
                k, v = self.next()
                if k == "num" and "." in v:       # x.0.1
                    for p in v.split("."):
                        e = (lambda e, p: lambda x: get_attr(e(x), p))(e, p)
                    continue
                e = (lambda e, v: lambda x: get_attr(e(x), v))(e, v)
            elif self.op("["):
                part, parts = None, []
                slice_ = False
                if self.peek() != ("op", ":"):
                    part = self.expr()
                parts.append(part)
                while self.op(":"):
                    slice_ = True
                    parts.append(None if self.peek() in (("op", ":"), ("op", "]")) else self.expr())
                self.need("]")
                if slice_:
                    e = (lambda e, ps: lambda x: e(x)[slice(*[p(x) if p else None for p in ps])])(e, parts)
                else:
                    e = (lambda e, p: lambda x: get_item(e(x), p(x)))(e, part)
            elif self.op("("):
                pos, kw = self.args()
                e = (lambda e, p, k: lambda x: e(x)(*[a(x) for a in p], **{n: a(x) for n, a in k.items()}))(e, pos, kw)
            elif self.peek() == ("name", "is"):
                self.next()
                neg = bool(self.op("not"))
                name = self.next()[1]
                if name not in TESTS:
                    raise TemplateSyntaxError("no test named %r" % name)
                a = []
                if self.op("("):
                    a, _ = self.args()
                elif self.peek()[0] in ("num", "str"):
                    a = [self.atom()]
                e = (lambda e, f, n, a: lambda x: bool(f(e(x), *[y(x) for y in a])) != n)(e, TESTS[name], neg, a)
            else:
                return e

    def filters(self, e):
        while self.op("|"):
            name = self.next()[1]
            if name not in FILTERS:
                raise TemplateSyntaxError("no filter named %r" % name)
            pos, kw = self.args() if self.op("(") else ([], {})
            e = (lambda e, f, p, k: lambda x: f(e(x), *[a(x) for a in p], **{n: a(x) for n, a in k.items()}))(e, FILTERS[name], pos, kw)
            e = self.postfix(e)
        return e

    def atom(self):
        k, v = self.next()
        if k == "num":
            n = float(v) if "." in v or "e" in v.lower() else int(v)
            return lambda x: n
        if k == "str":
            s = bytes(v[1:-1], "utf-8").decode("unicode_escape")
            return lambda x: s
        if k == "name":
            if v in ("true", "True"):
                return lambda x: True
            if v in ("false", "False"):
                return lambda x: False
            if v in ("none", "None"):
                return lambda x: None
            return lambda x: x.lookup(v)
        if v == "(":
            items = []
            comma = False
            while not self.op(")"):
                items.append(self.expr())
                if self.op(","):
                    comma = True
                else:
                    self.need(")")
                    break
            if len(items) == 1 and not comma:
                return items[0]
            return lambda x: tuple(i(x) for i in items)
        if v == "[":
            items = []
            while not self.op("]"):
                items.append(self.expr())
                if not self.op(","):
                    self.need("]")
                    break
            return lambda x: [i(x) for i in items]
        if v == "{":
            items = []
            while not self.op("}"):
                a = self.expr()
                self.need(":")
                items.append((a, self.expr()))
                if not self.op(","):
                    self.need("}")
                    break
            return lambda x: {a(x): b(x) for a, b in items}
        raise TemplateSyntaxError("unexpected %r" % v)


def get_attr(o, n):
    if isinstance(o, Undefined):
        o._fail()
    if not n.isdigit() and hasattr(o, n):
        return getattr(o, n)
    try:
        return o[int(n)] if n.isdigit() else o[n]
    except (TypeError, LookupError, AttributeError):
        return Undefined(n)


def get_item(o, k):
    if isinstance(o, Undefined):
        o._fail()
    try:
        return o[k]
    except (TypeError, LookupError, AttributeError):
        if isinstance(k, str) and hasattr(o, k):
            return getattr(o, k)
        return Undefined(k)


def to_text(v):
    return v if isinstance(v, str) else str(v)


def _default(v, d="", boolean=False):
    return d if isinstance(v, Undefined) or (boolean and not v) else v


FILTERS = {
    "join": lambda v, d="", attribute=None: d.join(to_text(get_attr(i, attribute) if attribute else i) for i in v),
    "length": len, "count": len, "lower": lambda v: to_text(v).lower(), "upper": lambda v: to_text(v).upper(),
    "replace": lambda v, a, b: to_text(v).replace(a, b), "default": _default, "d": _default,
    "int": lambda v, default=0: int(v), "float": lambda v, default=0.0: float(v), "string": to_text, "abs": abs,
    "first": lambda v: next(iter(v), Undefined()), "last": lambda v: list(v)[-1] if len(v) else Undefined(),
    "list": list, "sum": lambda v: sum(v), "min": min, "max": max, "trim": lambda v: to_text(v).strip(), "safe": lambda v: v,
    "map": lambda v, f=None, attribute=None: [get_attr(i, attribute) if attribute else FILTERS[f](i) for i in v],
    "round": lambda v, p=0: round(v, p), "sort": sorted, "reverse": lambda v: v[::-1] if isinstance(v, str) else list(reversed(v)),
    "indent": lambda s, width=4, first=False: ("\n" + " " * width).join(to_text(s).split("\n")),
}
TESTS = {
    "defined": lambda v: not isinstance(v, Undefined), "undefined": lambda v: isinstance(v, Undefined),
    "none": lambda v: v is None, "string": lambda v: isinstance(v, str), "number": lambda v: isinstance(v, (int, float)),
    "odd": lambda v: v % 2 == 1, "even": lambda v: v % 2 == 0, "divisibleby": lambda v, n: v % n == 0, "iterable": lambda v: hasattr(v, "__iter__"),
    "sequence": lambda v: hasattr(v, "__getitem__") and hasattr(v, "__len__"), "true": lambda v: v is True, "false": lambda v: v is False,
    "equalto": lambda a, b: a == b, "eq": lambda a, b: a == b, "mapping": lambda v: isinstance(v, dict),
}


# ---------------------------------------------------------------- templates
class Context(object):
    def __init__(self, env, scopes):
        self.env, self.scopes = env, scopes

    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return self.env.undefined(n)


class Loop(object):
    def __init__(self, items):
        self._n, self.index0 = len(items), -1

    index = property(lambda s: s.index0 + 1)
    first = property(lambda s: s.index0 == 0)
    last = property(lambda s: s.index0 == s._n - 1)
    length = property(lambda s: s._n)
    revindex = property(lambda s: s._n - s.index0)
    revindex0 = property(lambda s: s._n - s.index0 - 1)


SPLIT = re.compile(r"(\{#.*?#\}|\{\{.*?\}\}|\{%.*?%\})", re.S)


def parse_pieces(src):
    """[(kind, text)] with kind in data, var, stmt; whitespace control applied"""
    if src.endswith("\n"):
        src = src[:-1]
    raw = re.split(r"\{%-?\s*raw\s*-?%\}(.*?)\{%-?\s*endraw\s*-?%\}", src, flags=re.S)
    out, strip_next = [], False
    for k, part in enumerate(raw):
        if k % 2:
            out.append(("data", part))
            continue
        for p in SPLIT.split(part):
            if p[:2] in ("{{", "{%", "{#") and p[-2:] in ("}}", "%}", "#}") and len(p) >= 4:
                body = p[2:-2]
                if body.startswith("-"):
                    body = body[1:]
                    if out and out[-1][0] == "data":
                        out[-1] = ("data", out[-1][1].rstrip())
                elif body.startswith("+"):
                    body = body[1:]
                strip_next = body.endswith("-")
                if strip_next or body.endswith("+"):
                    body = body[:-1]
                if p[:2] == "{{":
                    out.append(("var", body))
                elif p[:2] == "{%":
                    out.append(("stmt", body.strip()))
            else:
                out.append(("data", p.lstrip() if strip_next else p))
                strip_next = False
    return out


class Template(object):
    def __init__(self, source, env=None):
        self.env = env or Environment()
        self.p, self.i = parse_pieces(source), 0
        self.macros = {}
        self.body, word = self.block(())
        if word:
            raise TemplateSyntaxError("unexpected %s" % word)

    def block(self, ends):
        out = []
        while self.i < len(self.p):
            k, t = self.p[self.i]
            self.i += 1
            if k == "data":
                out.append((lambda t: lambda c, o: o.append(t))(t))
            elif k == "var":
                ps = Parser(t)
                e = ps.expr()
                ps.end()
                out.append((lambda e: lambda c, o: o.append(to_text(e(c))))(e))
            else:
                w = t.split(None, 1)
                word = re.match(r"\w+", t).group(0)
                rest = t[len(word):]
                if word in ends:
                    return out, (word, rest)
                out.append(self.statement(word, rest))
        return out, None

    def statement(self, word, rest):
        if word == "if":
            arms = []
            cond = rest
            while True:
                ps = Parser(cond)
                e = ps.expr()
                ps.end()
                body, end = self.block(("elif", "else", "endif"))
                arms.append((e, body))
                if not end:
                    raise TemplateSyntaxError("if without endif")
                if end[0] == "elif":
                    cond = end[1]
                    continue
                if end[0] == "else":
                    body, end = self.block(("endif",))
                    if not end:
                        raise TemplateSyntaxError("if without endif")
                    arms.append((lambda x: True, body))
                break

            def f(c, o):
                for e, b in arms:
                    if e(c):
                        return run(b, c, o)
            return f
        if word == "for":
            m = re.match(r"\s*([\w\s,()]+?)\s+in\s+(.*)$", rest, re.S)
            names = [n.strip() for n in m.group(1).strip("() ").split(",") if n.strip()]
            src = m.group(2)
            filt = None
            ps = Parser(src)
            it = ps.or_()
            if ps.op("if"):
                filt = ps.or_()
            ps.end()
            body, end = self.block(("else", "endfor"))
            other = []
            if end and end[0] == "else":
                other, end = self.block(("endfor",))
            if not end:
                raise TemplateSyntaxError("for without endfor")

            def bind(v):
                return {names[0]: v} if len(names) == 1 else dict(zip(names, v))

            def f(c, o):
                items = list(it(c))
                if filt:
                    items = [v for v in items if filt(Context(c.env, c.scopes + [bind(v)]))]
                lp = Loop(items)
                for v in items:
                    lp.index0 += 1
                    s = bind(v)
                    s["loop"] = lp
                    run(body, Context(c.env, c.scopes + [s]), o)
                if not items:
                    run(other, c, o)
            return f
        if word == "set":
            m = re.match(r"\s*(\w+)\s*=(.*)$", rest, re.S)
            if not m:
                name = rest.strip()
                body, end = self.block(("endset",))

                def f(c, o):
                    t = []
                    run(body, c, t)
                    c.scopes[-1][name] = "".join(t)
                return f
            ps = Parser(m.group(2))
            e = ps.expr()
            ps.end()
            return lambda c, o: c.scopes[-1].__setitem__(m.group(1), e(c))
        if word == "include":
            ps = Parser(rest.replace("ignore missing", "").replace("with context", "").replace("without context", ""))
            e = ps.expr()
            return lambda c, o: run(c.env.get_template(e(c)).body, c, o)
        if word == "macro":
            m = re.match(r"\s*(\w+)\s*\((.*)\)\s*$", rest, re.S)
            ps = []
            for a in filter(str.strip, m.group(2).split(",")):
                n, _, d = a.partition("=")
                ps.append((n.strip(), Parser(d).expr() if d else None))
            body, end = self.block(("endmacro",))

            def f(c, o):
                def call(*pos, **kw):
                    s = {}
                    for k, (n, d) in enumerate(ps):
                        s[n] = pos[k] if k < len(pos) else kw[n] if n in kw else d(c) if d else Undefined(n)
                    t = []
                    run(body, Context(c.env, c.scopes + [s]), t)
                    return "".join(t)
                c.scopes[-1][m.group(1)] = call
            return f
        if word == "with":
            sets = []
            if rest.strip():
                ps = Parser(rest)
                while True:
                    n = ps.next()[1]
                    ps.need("=")
                    sets.append((n, ps.expr()))
                    if not ps.op(","):
                        break
            body, end = self.block(("endwith",))
            return lambda c, o: run(body, Context(c.env, c.scopes + [{n: e(c) for n, e in sets}]), o)
        raise TemplateSyntaxError("unknown statement %r" % word)

    def render(self, *a, **kw):
        o = []
        run(self.body, Context(self.env, [dict(self.env.globals), dict(*a, **kw), {}]), o)
        return "".join(o)


def run(body, c, o):
    for f in body:
        f(c, o)


class FileSystemLoader(object):
    def __init__(self, searchpath, encoding="utf-8", followlinks=False):
        self.paths = [searchpath] if isinstance(searchpath, (str, os.PathLike)) else list(searchpath)
        self.encoding = encoding

    def get_source(self, env, name):
        for p in self.paths:
            f = os.path.join(p, *name.split("/"))
            if os.path.isfile(f):
                with open(f, encoding=self.encoding) as h:
                    return h.read()
        raise TemplateNotFound(name)


class DictLoader(object):
    def __init__(self, mapping):
        self.mapping = mapping

    def get_source(self, env, name):
        if name not in self.mapping:
            raise TemplateNotFound(name)
        return self.mapping[name]


class Environment(object):
    def __init__(self, loader=None, undefined=Undefined, trim_blocks=False, lstrip_blocks=False, keep_trailing_newline=False,
                 autoescape=False, extensions=(), **kw):
        self.loader, self.undefined = loader, undefined
        self.trim_blocks, self.lstrip_blocks, self.keep = trim_blocks, lstrip_blocks, keep_trailing_newline
        self.globals = {"range": range, "dict": dict}
        self.filters, self.tests = FILTERS, TESTS
        self.cache = {}

    def _prepare(self, s):
        if self.lstrip_blocks:
            s = re.sub(r"(?m)^[ \t]+(?=\{[%#](?!\+))", "", s)
        if self.trim_blocks:
            s = re.sub(r"([%#]\})\n", r"\1", s)
        return s + "\n" if self.keep and s.endswith("\n") else s

    def from_string(self, s):
        return Template(self._prepare(s), self)

    def get_template(self, name, *a, **k):
        if name not in self.cache:
            self.cache[name] = self.from_string(self.loader.get_source(self, name))
        return self.cache[name]
