"""Mechanical extraction of functions of /repo into Verus units, and the Verus runner.

A unit /verif/verus/<unit>.rs is Verus text with directives.  Every line `//@@ ...` is a directive:

  //@@ source <path in /repo>            file the following directives read
  //@@ macro <name> $a=Foo               read the items inside `macro_rules! <name>` of that file, with $a replaced
  //@@ item <kind> <Name>                the struct/enum/const/type/trait item, verbatim minus attributes/comments
  //@@ fn <Path>                         the function, verbatim minus the transformations below.  Path is
                                         `name`, `Type::name` or `Trait for Type::name`
       spec: ...                         clauses put between signature and body   (lines start with `//@@ | `)
       loop N [kind]: ...                clauses put on the N-th loop of the body
       loopbody N: / loopend N:          ghost code put at the start / end of the N-th loop's body
       stepped: NAME                     for loops become loop+match over an iterator called NAME (for bodies with `continue`)
       iter N: NAME                      names the ghost iterator of the N-th (for) loop
       start:                            ghost code put at the start of the body
       before "re": / after "re":        ghost code put before / after every statement whose text matches
       closures: map is_some_and     desugar these closure-taking methods (receiver is an Option)
       pure: retain=&T filter=&&T        annotate the closures passed to these methods (parameter type given) with the
                                         clause that they return what their expression says
       rename: A=>B                      token sequence renaming in this function
       guards: merge                     move the guard of an arm into it when the next arm is the rest of the same variant or `_`
       ret: NAME                         name of the result in the clauses (default r)
       hoist: retain over self.m => self.f(x)   replace `self.m.retain(|..| ..)` by the expression; the receiver must be
                                         the one named (`($C)` there stands for any argument list), or be used as $R
  //@@ closure <Path> <method>           the closure passed to .<method>() in that function, as a function with
       sig: fn f(&mut self, $0: &K) -> bool    this signature ($0, $1.. are the closure's own parameter names)
                                         in closure/hoist a method may be `name#N` (the N-th such call) or `let:NAME`
                                         (the closure bound by `let NAME = |..| ..;`, whose calls become the expression,
                                         $A being the arguments)
  //@@ end

Transformations applied to extracted text, each counted in the evidence: comments, attributes and visibility are
dropped; statements under a disabled cfg(feature) are dropped; logging/metrics macros are dropped; an arm `A | B => e`
whose pattern binds variables becomes two arms; `x.method(|p| e)` on an Option becomes the equivalent match; let
chains become nested ifs; `while let` becomes loop+match; a closure passed to a container method may be extracted as a
function of its own (`closure`), the call then goes to a template function whose text states what the container does
with it (`hoist`).
Nothing else of a body changes.
"""
import os, re, subprocess, time, json, signal
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
REPO = os.environ.get("LYV_REPO", "/repo")
OUT = os.path.join(V, ".build", "verus")
LOGS = {"trace", "debug", "info", "warn", "error", "trace_span", "info_span", "debug_span"}


class Lost(Exception):
    pass


class Tok:
    __slots__ = ("k", "t", "ws")

    def __init__(self, k, t, ws=""):
        self.k, self.t, self.ws = k, t, ws

    def __repr__(self):
        return self.t


LEX = re.compile(r"""
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
|(?P<str>b?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\d_]*(?:\.\d[\d_]*(?:[eE][+-]?\d+)?)?(?:[A-Za-z_]\w*)?)
|(?P<id>\$?[A-Za-z_]\w*)
|(?P<p>\.\.=|\.\.\.|\.\.|::|->|=>|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|>>=|<<|[-+*/%^!&|=<>@.,;:\#?~$\[\](){}\\])
""", re.X | re.S)


def lex(s):
    out, i, ws = [], 0, ""
    while i < len(s):
        if s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < len(s):
                if s.startswith("/*", j):
                    d += 1; j += 2
                elif s.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            ws += " "
            continue
        m = LEX.match(s, i)
        if not m:
            raise Lost(f"cannot lex at {s[i:i+30]!r}")
        i = m.end()
        k = m.lastgroup
        if k == "h":
            k = "raw"
        if k == "ws":
            ws += m[0]
            continue
        if k == "lc":
            continue
        t = m[0]
        out.append(Tok(k, t, ws))
        ws = ""
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def close(toks, i):
    """index of the bracket closing toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN:
                d += 1
            elif t.t in ")]}":
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced brackets")


def text(toks):
    return "".join((t.ws + t.t) for t in toks)


def T(s):
    r = lex(s)
    if r and not r[0].ws:
        r[0].ws = " "
    return r


ITEMKW = {"fn", "struct", "enum", "impl", "mod", "const", "static", "type", "trait", "use", "macro_rules", "union", "extern"}
PREF = {"pub", "async", "unsafe", "default"}


def items(toks, i=0, n=None):
    """iterate over items: (attrs, kind, name/header tokens, start, end) inside a module or impl body"""
    n = len(toks) if n is None else n
    while i < n:
        attrs = []
        st = i
        while i < n and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            e = close(toks, j)
            attrs.append(text(toks[i:e + 1]).strip())
            i = e + 1
        if i >= n:
            return
        b = i
        while i < n and (toks[i].t in PREF or (toks[i].t == "extern" and toks[i + 1].k == "str") or (toks[i].t == "const" and toks[i + 1].t in ("fn", "unsafe", "async"))):
            if toks[i].t == "pub" and toks[i + 1].t == "(":
                i = close(toks, i + 1) + 1
            elif toks[i].t == "extern":
                i += 2
            else:
                i += 1
        kw = toks[i].t
        h = i
        if kw not in ITEMKW:
            # a macro invocation or something else: skip to `;` or a closing brace
            while i < n and toks[i].t not in (";", "{"):
                if toks[i].t in ("(", "["):
                    i = close(toks, i)
                i += 1
            if i < n and toks[i].t == "{":
                i = close(toks, i)
            i += 1
            yield (attrs, "other", None, b, h, i)
            continue
        # end of item
        j = i + 1
        while j < n:
            t = toks[j].t
            if t == ";" and kw not in ("fn",):
                break
            if t == ";" and kw == "fn":
                break
            if t == "{" and kw != "const" and kw != "static" and kw != "type" and kw != "use":
                j = close(toks, j)
                break
            if t == "{":
                j = close(toks, j) + 1
                continue
            if t in ("(", "["):
                j = close(toks, j)
            j += 1
        e = j + 1
        name = toks[h + 1].t if kw != "macro_rules" else toks[h + 2].t
        yield (attrs, kw, name, b, h, e)
        i = e


def is_test(attrs):
    return any(re.search(r"cfg\s*\(\s*(test|all\s*\(\s*test)|cfg\s*\(\s*any\s*\(\s*kani", a) for a in attrs)


def cfg_off(a, on):
    """is this attribute a cfg that is false?  only cfg(feature=..)/cfg(not(feature=..)) are decided"""
    m = re.fullmatch(r"#\s*\[\s*cfg\s*\(\s*feature\s*=\s*\"([^\"]+)\"\s*\)\s*\]", a)
    if m:
        return m[1] not in on
    m = re.fullmatch(r"#\s*\[\s*cfg\s*\(\s*not\s*\(\s*feature\s*=\s*\"([^\"]+)\"\s*\)\s*\)\s*\]", a)
    if m:
        return m[1] in on
    if re.fullmatch(r"#\s*\[\s*cfg\s*\(\s*test\s*\)\s*\]", a):
        return True
    return False


def impl_header(toks, h, e):
    """(trait text or None, type name) of an impl"""
    j = h + 1
    hd = []
    while toks[j].t != "{":
        hd.append(toks[j])
        j += 1
    s = [t.t for t in hd]
    # drop leading generics
    if s and s[0] == "<":
        d = 0
        for k, t in enumerate(s):
            if t == "<":
                d += 1
            elif t == ">":
                d -= 1
            elif t == ">>":
                d -= 2
            if d == 0:
                s = s[k + 1:]
                break
    if "where" in s:
        s = s[:s.index("where")]
    d = 0
    for k, t in enumerate(s):
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
        elif t == ">>":
            d -= 2
        elif t == "for" and d == 0:
            return "".join(s[:k]), "".join(s[k + 1:]), j
    return None, "".join(s), j


class Source:
    def __init__(self, path, on=()):
        self.path = path
        self.on = set(on)
        p = os.path.join(REPO, path)
        if not os.path.exists(p):
            raise Lost(f"{path} is gone")
        self.toks = lex(open(p, encoding="utf8").read())

    def macro(self, name, subst):
        for a, k, nm, b, h, e in items(self.toks):
            if k == "macro_rules" and nm == name:
                # first arm's body
                body = None
                j = h
                while self.toks[j].t != "=>":
                    j += 1
                j += 1
                c = close(self.toks, j)
                inner = self.toks[j + 1:c]
                out = []
                i = 0
                while i < len(inner):
                    t = inner[i]
                    if t.t in subst:
                        out.append(Tok("id", subst[t.t], t.ws))
                    elif t.t == "[" and inner[i + 1].t == "<":
                        # pastey: keep something nameable
                        e2 = close(inner, i)
                        out.append(Tok("id", "pasted_mod", t.ws))
                        i = e2
                    else:
                        out.append(Tok(t.k, t.t, t.ws))
                    i += 1
                # unwrap paste! { .. }
                for i, t in enumerate(out):
                    if t.t == "paste" and out[i + 1].t == "!":
                        c = close(out, i + 2)
                        out = out[i + 3:c]
                        break
                self.toks = out
                return
        raise Lost(f"macro {name} not found in {self.path}")

    def walk(self, lo=0, hi=None):
        for it in items(self.toks, lo, hi):
            attrs, k, nm, b, h, e = it
            if is_test(attrs) or any(cfg_off(a, self.on) for a in attrs):
                continue
            yield it
            if k == "mod" and self.toks[e - 1].t == "}" and nm != "verif" and nm != "tests":
                j = h
                while self.toks[j].t != "{":
                    j += 1
                yield from self.walk(j + 1, e - 1)

    def item(self, kind, name):
        if "::" in name:  # of an inherent impl, or else of a trait impl
            ty, name = name.rsplit("::", 1)
            for inherent in (True, False):
                for attrs, k, nm, b, h, e in self.walk():
                    if k == "impl":
                        tr, t, j = impl_header(self.toks, h, e)
                        if (tr is None) == inherent and re.sub(r"<.*", "", t) == ty:
                            for a2, k2, n2, b2, h2, e2 in items(self.toks, j + 1, e - 1):
                                if k2 == kind and n2 == name:
                                    return self.toks[h2:e2]
            raise Lost(f"{kind} {ty}::{name} not found in {self.path}")
        for attrs, k, nm, b, h, e in self.walk():
            if k == kind and nm == name:
                return self.toks[h:e]
        raise Lost(f"{kind} {name} not found in {self.path}")

    def fn(self, path):
        if "::" not in path:
            for attrs, k, nm, b, h, e in self.walk():
                if k == "fn" and nm == path:
                    return self.toks[h:e]
            raise Lost(f"fn {path} not found in {self.path}")
        ty, name = path.rsplit("::", 1)
        trait = None
        if " for " in ty:
            trait, ty = ty.split(" for ")
            trait = trait.replace(" ", "")
        cands = []
        for attrs, k, nm, b, h, e in self.walk():
            if k not in ("impl", "trait"):
                continue
            if k == "trait":
                if nm != ty or trait:
                    continue
                j = h
                while self.toks[j].t != "{":
                    j += 1
            else:
                tr, t, j = impl_header(self.toks, h, e)
                base = re.sub(r"<.*", "", t)
                if base != ty and t != ty.replace(" ", ""):
                    continue
                if (trait or None) != (tr if tr is None else (tr if "<" in (trait or "") else re.sub(r"<.*", "", tr))):
                    continue
            for a2, k2, n2, b2, h2, e2 in items(self.toks, j + 1, e - 1):
                if k2 == "fn" and n2 == name and not any(cfg_off(a, self.on) for a in a2) and not is_test(a2):
                    cands.append(self.toks[h2:e2])
        if not cands:
            raise Lost(f"fn {path} not found in {self.path}")
        return cands[0]


# ---------------------------------------------------------------- transformations

class Ctx:
    def __init__(self, on=()):
        self.dropped = {}
        self.on = set(on)

    def note(self, what):
        self.dropped[what] = self.dropped.get(what, 0) + 1


def copy(toks):
    return [Tok(t.k, t.t, t.ws) for t in toks]


def strip_vis(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "pub" and toks[i].k == "id":
            if i + 1 < len(toks) and toks[i + 1].t == "(" and toks[i + 2].t in ("crate", "super", "in", "self"):
                i = close(toks, i + 1) + 1
            else:
                i += 1
            continue
        out.append(toks[i])
        i += 1
    return out


def stmt_end(toks, i):
    """end (exclusive) of the statement / field / arm starting at i"""
    j = i
    while j < len(toks):
        t = toks[j].t
        if t in OPEN:
            c = close(toks, j)
            if t == "{":
                # a block ends the statement unless followed by else / . / ?
                if c + 1 < len(toks) and toks[c + 1].t in ("else", ".", "?"):
                    j = c + 1
                    continue
                if c + 1 < len(toks) and toks[c + 1].t in (",", ";"):
                    return c + 2
                return c + 1
            j = c + 1
            continue
        if t in (";", ","):
            return j + 1
        if t in ")]}":
            return j
        j += 1
    return j


def strip_attrs(toks, cx):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            c = close(toks, i + 1)
            a = text(toks[i:c + 1]).strip()
            i = c + 1
            if cfg_off(a, cx.on):
                # further attributes belong to the same statement
                while i < len(toks) and toks[i].t == "#" and toks[i + 1].t == "[":
                    i = close(toks, i + 1) + 1
                e = stmt_end(toks, i)
                cx.note(f"code under disabled {a}")
                i = e
            continue
        out.append(toks[i])
        i += 1
    return out


def strip_logs(toks, cx):
    out, i = [], 0
    while i < len(toks):
        # optional path prefix tracing::
        j = i
        while j + 2 < len(toks) and toks[j].k == "id" and toks[j + 1].t == "::" and toks[j].t in ("tracing", "metrics", "log", "lightyear_utils"):
            j += 2
        if j + 2 < len(toks) and toks[j].k == "id" and toks[j + 1].t == "!" and toks[j + 2].t in OPEN and (
                toks[j].t in LOGS or (j > i and toks[i].t == "metrics")):
            c = close(toks, j + 2)
            cx.note(f"{toks[j].t}! logging")
            if c + 1 < len(toks) and toks[c + 1].t == ";":
                i = c + 2
            else:
                out.append(Tok("p", "(", " "))
                out.append(Tok("p", ")", ""))
                i = c + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def binds(pat):
    """does the pattern bind variables (field shorthand or lowercase identifiers not followed by :: ( {)?"""
    for i, t in enumerate(pat):
        if t.k == "id" and re.match(r"[a-z_]\w*$", t.t) and t.t not in ("ref", "mut", "_", "true", "false", "if"):
            nx = pat[i + 1].t if i + 1 < len(pat) else ""
            if nx in ("::", "(", "!"):
                continue
            if nx == ":" :
                continue
            return True
    return False


def merge_guards(toks, cx):
    """`P if g => a, Path { .. } => b`  ->  `P => { if g { a } else { b } }`  where P is of the same Path"""
    i = 0
    while i < len(toks):
        if toks[i].k == "id" and toks[i].t == "match":
            j = i + 1
            while toks[j].t != "{":
                if toks[j].t in ("(", "["):
                    j = close(toks, j)
                j += 1
            c = close(toks, j)
            arms, k = [], j + 1
            while k < c:
                a, guard = k, None
                while toks[k].t != "=>":
                    if toks[k].t in OPEN:
                        k = close(toks, k)
                    elif toks[k].t == "if" and guard is None:
                        guard = k
                    k += 1
                arrow = k
                e = k + 1
                if toks[e].t == "{":
                    e = close(toks, e) + 1
                    x = toks[arrow + 1:e]
                    if e < c and toks[e].t == ",":
                        e += 1
                else:
                    while e < c and toks[e].t != ",":
                        if toks[e].t in OPEN:
                            e = close(toks, e)
                        e += 1
                    x = T("{") + toks[arrow + 1:e] + T("}")
                    e = min(e + 1, c)
                arms.append((toks[a:guard if guard is not None else arrow], toks[guard + 1:arrow] if guard is not None else None, x))
                k = e

            def head(p):
                return [t.t for t in p[:next((n for n, t in enumerate(p) if t.t in OPEN), len(p))]]
            new, n = [], 0
            while n < len(arms):
                pt, g, x = arms[n]
                if g is not None and n + 1 < len(arms) and arms[n + 1][1] is None and head(arms[n + 1][0]) == head(pt) and [t.t for t in arms[n + 1][0]][len(head(pt)) + 1:-1] == [".."]:
                    new += pt + T("=> { if") + g + x + T("else") + arms[n + 1][2] + T("}")
                    cx.note("match guard moved into its arm, whose next arm is the rest of the same variant")
                    n += 2
                    continue
                if g is not None and n + 1 < len(arms) and arms[n + 1][1] is None and [t.t for t in arms[n + 1][0]] == ["_"] and not {t.t for t in pt if t.k == "id"} & {t.t for t in arms[n + 1][2] if t.k == "id" and t.t not in ("Some", "None")}:
                    new += pt + T("=> { if") + g + x + T("else") + [Tok(t.k, t.t, t.ws) for t in arms[n + 1][2]] + T("}")
                    cx.note("match guard moved into its arm, with the wildcard arm after it as the alternative")
                    n += 1
                    continue
                new += pt + (T("if") + g if g is not None else []) + T("=>") + x
                n += 1
            toks = toks[:j + 1] + new + toks[c:]
        i += 1
    return toks


def letclosure(toks, name):
    """(index of `let`, index after `;`, parameter token lists, body) of `let name = |..| body;`"""
    for i in range(len(toks) - 4):
        if toks[i].t == "let" and toks[i + 1].t == name and toks[i + 2].t == "=" and toks[i + 3].t in ("|", "move"):
            k = i + 4 + (toks[i + 3].t == "move")
            ps, cur = [], []
            if toks[k - 1].t == "||":
                k -= 1
            while toks[k].t not in ("|", "||"):
                if toks[k].t == ",":
                    ps.append(cur)
                    cur = []
                else:
                    cur.append(toks[k])
                k += 1
            if cur:
                ps.append(cur)
            e = k + 1
            while toks[e].t != ";":
                if toks[e].t in OPEN:
                    e = close(toks, e)
                e += 1
            return i, e + 1, ps, toks[k + 1:e]
    return None


def split_arms(toks, cx):
    """split or-pattern arms which bind variables, innermost first"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t == "match":
            # scrutinee up to the block
            j = i + 1
            while toks[j].t != "{":
                if toks[j].t in ("(", "["):
                    j = close(toks, j)
                j += 1
            c = close(toks, j)
            out.extend(toks[i:j + 1])
            body = toks[j + 1:c]
            k = 0
            while k < len(body):
                # pattern
                a = k
                bars = []
                guard = None
                if body[k].t == "|":
                    k += 1
                    a = k
                while body[k].t != "=>":
                    if body[k].t in OPEN:
                        k = close(body, k)
                    elif body[k].t == "|" and guard is None:
                        bars.append(k)
                    elif body[k].t == "if" and guard is None:
                        guard = k
                    k += 1
                arrow = k
                # expression
                k += 1
                if body[k].t == "{":
                    e = close(body, k) + 1
                    # a block arm may continue as an expression (`{..}.foo()`): not in this code base
                    if e < len(body) and body[e].t == ",":
                        e += 1
                else:
                    e = k
                    while e < len(body) and body[e].t != ",":
                        if body[e].t in OPEN:
                            e = close(body, e)
                        e += 1
                    e = min(e + 1, len(body))
                pat = body[a:guard if guard is not None else arrow]
                g = body[guard:arrow] if guard is not None else []
                expr = split_arms(body[arrow + 1:e], cx)
                if expr and expr[-1].t != "," and expr[-1].t != "}":
                    expr = expr + [Tok("p", ",", "")]
                if bars and (g or binds(pat)):
                    cx.note("or-pattern arm split")
                    cuts = [a - 1] + bars + [guard if guard is not None else arrow]
                    for x, y in zip(cuts, cuts[1:]):
                        out.extend(copy(body[x + 1:y]) + copy(g) + [Tok("p", "=>", " ")] + copy(expr))
                else:
                    out.extend(pat + g + [body[arrow]] + expr)
                k = e
            out.append(toks[c])
            i = c + 1
            continue
        out.append(t)
        i += 1
    return out


def receiver_start(toks, i):
    """start of the postfix expression that ends just before toks[i] (the `.`)"""
    j = i - 1
    while True:
        t = toks[j]
        if t.t in (")", "]", "}"):
            d = 0
            while True:
                if toks[j].t in ")]}" and toks[j].k == "p":
                    d += 1
                elif toks[j].t in OPEN and toks[j].k == "p":
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            # call or index: continue with what precedes
            if j > 0 and (toks[j - 1].k == "id" and toks[j - 1].t not in ("return", "in", "if", "match", "while", "else", "let") or toks[j - 1].t in (")", "]", "?", ">")) and toks[j].t != "{":
                j -= 1
                continue
        elif t.t == "?":
            j -= 1
            continue
        elif t.t == ">" :
            # turbofish
            d = 0
            while True:
                if toks[j].t == ">":
                    d += 1
                elif toks[j].t == "<":
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            if toks[j - 1].t == "::":
                j -= 2
                continue
            raise Lost("cannot find receiver")
        # here toks[j] starts a primary
        if j > 0 and toks[j - 1].t in (".", "::"):
            j -= 2
            continue
        return j


def closures(toks, names, cx):
    """desugar Option combinators applied to closures"""
    changed = True
    while changed:
        changed = False
        for i in range(len(toks) - 2, 0, -1):
            if toks[i].t == "." and toks[i + 1].k == "id" and (toks[i + 1].t in names or toks[i + 1].t + "=result" in names) and i + 2 < len(toks) and toks[i + 2].t == "(":
                c = close(toks, i + 2)
                args = toks[i + 3:c]
                meth = toks[i + 1].t
                # split leading args before the closure
                pre = []
                k = 0
                if meth in ("map_or",):
                    d = 0
                    while args[k].t != ",":
                        if args[k].t in OPEN:
                            k = close(args, k)
                        k += 1
                    pre = args[:k]
                    args = args[k + 1:]
                elif meth == "map_or_else":
                    raise Lost("map_or_else")
                while args and args[0].t == "move":
                    args = args[1:]
                if not args or args[0].t not in ("|", "||"):
                    # function path argument:  .map(Foo)  -> Foo(x)
                    pat = T("vx_x")
                    ex = copy(args) + T("(vx_x)")
                elif args[0].t == "||":
                    pat, ex = [], args[1:]
                else:
                    k = 1
                    while args[k].t != "|":
                        if args[k].t in OPEN:
                            k = close(args, k)
                        k += 1
                    pat, ex = args[1:k], args[k + 1:]
                if ex and ex[-1].t == ",":
                    ex = ex[:-1]
                if any(t.t == "return" or t.t == "?" for t in ex):
                    raise Lost("closure with control flow")
                r = receiver_start(toks, i)
                recv = copy(toks[r:i])
                if recv:
                    recv[0].ws = ""
                P, X = text(pat).strip(), "{ " + text(ex).strip() + " }"
                R = text(recv)
                D = text(pre).strip()
                if meth in ("map", "and_then") and meth + "=result" in names:
                    meth = "r" + meth
                s = {
                    "rmap": f"(match {R} {{ Ok({P}) => Ok({X}), Err(vx_e) => Err(vx_e) }})",
                    "rand_then": f"(match {R} {{ Ok({P}) => {X}, Err(vx_e) => Err(vx_e) }})",
                    "map": f"(match {R} {{ Some({P}) => Some({X}), None => None }})",
                    "is_some_and": f"(match {R} {{ Some({P}) => {X}, None => false }})",
                    "is_none_or": f"(match {R} {{ Some({P}) => {X}, None => true }})",
                    "map_or": f"(match {R} {{ Some({P}) => {X}, None => {D} }})",
                    "and_then": f"(match {R} {{ Some({P}) => {X}, None => None }})",
                    "unwrap_or_else": f"(match {R} {{ Some(vx_v) => vx_v, None => {X} }})",
                    "or_else": f"(match {R} {{ Some(vx_v) => Some(vx_v), None => {X} }})",
                    "ok_or_else": f"(match {R} {{ Some(vx_v) => Ok(vx_v), None => Err({X}) }})",
                    "map_err": f"(match {R} {{ Ok(vx_v) => Ok(vx_v), Err({P}) => Err({X}) }})",
                    "filter": f"(match {R} {{ Some(vx_v) => {{ let vx_b = match {'vx_v' if P.startswith('&') else '&vx_v'} {{ {P[1:].strip() if P.startswith('&') else P} => {X} }}; if vx_b {{ Some(vx_v) }} else {{ None }} }}, None => None }})",
                    "then_with": f"(match {R} {{ core::cmp::Ordering::Equal => {X}, vx_o => vx_o }})",
                    "then": f"(if {R} {{ Some({X}) }} else {{ None }})",
                    "then_some": f"(if {R} {{ Some({text(args).strip()}) }} else {{ None }})",
                    "inspect": None,
                }.get(meth)
                if s is None:
                    raise Lost(f"closure method {meth}")
                ws = toks[r].ws
                new = lex(s)
                new[0].ws = ws or " "
                toks = toks[:r] + new + toks[c + 1:]
                cx.note(f".{meth}(closure) desugared to match")
                changed = True
                break
    return toks


def pure(toks, specs, cx):
    """.m(|x| E)  ->  .m(|x: TYPE| -> (vx_b: bool) ensures vx_b == (E) { E }): the closure's own text is its contract"""
    spec = dict(x.split("=", 1) for x in specs)
    i = 0
    while i + 3 < len(toks):
        if toks[i].t == "." and toks[i + 1].t in spec and toks[i + 2].t == "(" and toks[i + 3].t == "|" and toks[i + 5].t == "|":
            c = close(toks, i + 2)
            b = toks[i + 6:c]
            if b and b[-1].t == ",":
                b = b[:-1]
            if any(t.t in ("return", "?", ";") for t in b):
                raise Lost("closure with control flow")
            x = toks[i + 4].t
            ty, _, ret = spec[toks[i + 1].t].partition("->")
            new = lex(f"|{x}: {ty}| -> (vx_b: {ret or 'bool'}) ensures vx_b == (") + copy(b) + lex(") {") + copy(b) + lex("}")
            toks = toks[:i + 3] + new + toks[c:]
            cx.note("closure annotated with its own expression as contract")
            i += 6
        i += 1
    return toks


def while_let(toks, cx):
    """while let P = E { B }  ->  loop { match E { P => { B } _ => break, } }"""
    i = 0
    while i < len(toks):
        if toks[i].t == "while" and toks[i + 1].t == "let":
            j = i + 2
            while toks[j].t != "=":
                if toks[j].t in OPEN:
                    j = close(toks, j)
                j += 1
            k = j + 1
            while toks[k].t != "{":
                if toks[k].t in ("(", "["):
                    k = close(toks, k)
                k += 1
            c = close(toks, k)
            toks = toks[:i] + T("loop { match") + toks[j + 1:k] + T("{") + toks[i + 2:j] + T("=>") + toks[k:c + 1] + T("_ => break, } }") + toks[c + 1:]
            cx.note("while let desugared to loop+match")
        i += 1
    return toks


def stepped(toks, name, cx):
    """for P in E { B }  ->  let mut NAME = E; loop { match NAME.next() { Some(P) => { B } None => break, } }   (allows `continue`)"""
    i = 0
    while i < len(toks):
        if toks[i].t == "for" and toks[i].k == "id" and toks[i + 1].t != "<":
            j = i + 1
            while toks[j].t != "in":
                if toks[j].t in OPEN:
                    j = close(toks, j)
                j += 1
            k = j + 1
            while toks[k].t != "{":
                if toks[k].t in ("(", "["):
                    k = close(toks, k)
                k += 1
            c = close(toks, k)
            toks = toks[:i] + T(f"let mut {name} =") + toks[j + 1:k] + T(f"; loop {{ match {name}.next() {{ Some(") + toks[i + 1:j] + T(") =>") + toks[k:c + 1] + T("None => break, } }") + toks[c + 1:]
            cx.note("for desugared to loop+match over the same iterator")
        i += 1
    return toks


def debug_asserts(toks, cx):
    """debug_assert_eq!(a, b, ..) / debug_assert_ne!  ->  assert(a == b): an obligation (it panics in debug builds)"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t in ("debug_assert_eq", "debug_assert_ne", "assert_eq", "assert_ne") and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t == "(":
            c = close(toks, i + 2)
            parts, cur, k = [], [], i + 3
            while k < c:
                if toks[k].t in OPEN:
                    e = close(toks, k)
                    cur += toks[k:e + 1]
                    k = e + 1
                    continue
                if toks[k].t == ",":
                    parts.append(cur)
                    cur = []
                else:
                    cur.append(toks[k])
                k += 1
            parts.append(cur)
            out += T("assert(") + parts[0] + T("==" if toks[i].t.endswith("eq") else "!=") + parts[1] + T(")")
            cx.note("(debug_)assert_eq!/ne! turned into a proof obligation")
            i = c + 1
            continue
        if toks[i].t in ("debug_assert", "assert") and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t == "(":
            c = close(toks, i + 2)
            k = i + 3
            while k < c and toks[k].t != ",":
                if toks[k].t in OPEN:
                    k = close(toks, k)
                k += 1
            out += T("vx_assert(") + toks[i + 3:k] + T(")")
            cx.note("(debug_)assert! turned into a proof obligation (vx_assert requires its argument)")
            i = c + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def let_chains(toks, cx):
    """if A && let P = E && C { B } [else { D }]  ->  nested ifs (the else block is repeated)"""
    i = len(toks) - 1
    while i >= 0:
        if toks[i].t == "if" and toks[i].k == "id":
            j, parts, cur, haslet = i + 1, [], [], False
            ok = True
            while toks[j].t != "{":
                if toks[j].t in ("(", "["):
                    c = close(toks, j)
                    cur += toks[j:c + 1]
                    j = c + 1
                    continue
                if toks[j].t == "let":
                    haslet = True
                if toks[j].t == "=>":
                    ok = False   # match guard
                    break
                if toks[j].t == "&&" and cur:
                    parts.append(cur)
                    cur = []
                else:
                    cur.append(toks[j])
                j += 1
            parts.append(cur)
            if ok and haslet and len(parts) > 1:
                c = close(toks, j)
                body = toks[j:c + 1]
                els, e = [], c + 1
                if e < len(toks) and toks[e].t == "else":
                    if toks[e + 1].t == "if":
                        k = e + 1
                        while True:
                            while toks[k].t != "{":
                                if toks[k].t in ("(", "["):
                                    k = close(toks, k)
                                k += 1
                            k = close(toks, k)
                            if k + 1 < len(toks) and toks[k + 1].t == "else":
                                k += 2
                                continue
                            break
                        els, e = T("{") + toks[c + 2:k + 1] + T("}"), k + 1
                    else:
                        k = close(toks, e + 1)
                        els, e = toks[e + 1:k + 1], k + 1
                new = body
                for n, q in enumerate(reversed(parts)):
                    new = T("if") + q + (new if n == 0 else T("{") + new + T("}")) + ((T("else") + copy(els)) if els else [])
                new[0].ws = toks[i].ws
                toks = toks[:i] + new + toks[e:]
                cx.note("let chain split into nested ifs")
        i -= 1
    return toks


def closure_call(toks, meth, nth=0):
    """(start of receiver, index of `.`, open paren, close paren, parameter token lists, closure body tokens)"""
    if meth == "iife":  # (|| { .. })()
        for i in range(len(toks) - 3):
            if toks[i].t == "(" and toks[i + 1].t == "||" and toks[i + 2].t == "{":
                c = close(toks, i)
                if c == close(toks, i + 2) + 1 and toks[c + 1].t == "(" and toks[c + 2].t == ")":
                    return i, i, c + 1, c + 2, [], toks[i + 2:c]
        raise Lost("no immediately called closure")
    n = -1
    for i in range(len(toks) - 3):
        if toks[i].t == "." and toks[i + 1].t == meth and toks[i + 2].t == "(":
            c = close(toks, i + 2)
            k = i + 3
            while k < c and toks[k].t not in ("|", "||", "move"):  # arguments before the closure
                k = close(toks, k) + 1 if toks[k].t in OPEN else k + 1
            if k >= c or not (k == i + 3 or toks[k - 1].t == ","):
                continue
            n += 1
            if n < nth:
                continue
            k += (toks[k].t == "move")
            k += 1
            ps, cur = [], []
            if toks[k - 1].t == "||":
                k -= 1
            while toks[k].t not in ("|", "||"):
                if toks[k].t in OPEN:
                    e = close(toks, k)
                    cur += toks[k:e + 1]
                    k = e + 1
                    continue
                if toks[k].t == ",":
                    ps.append(cur)
                    cur = []
                else:
                    cur.append(toks[k])
                k += 1
            if cur:
                ps.append(cur)
            b = toks[k + 1:c]
            if b and b[-1].t == ",":
                b = b[:-1]
            return receiver_start(toks, i), i, i + 2, c, ps, b
    raise Lost(f"no closure passed to .{meth}")


def same_shape(toks, pat):
    """the tokens are those of the pattern, `($C)` standing for any argument list"""
    P = [t.t for t in lex(pat.replace("$C", "VXC"))]
    i = j = 0
    while i < len(toks) and j < len(P):
        if P[j] == "(" and j + 1 < len(P) and P[j + 1] == "VXC" and toks[i].t == "(":
            i = close(toks, i) + 1
            j += 3
            continue
        if toks[i].t != P[j]:
            return False
        i += 1
        j += 1
    return i == len(toks) and j == len(P)


def hoist(toks, reps, cx):
    """receiver.method(|..| ..)  ->  the given expression (the closure is extracted separately by `closure`)"""
    for meth, rep in reps:
        if meth.startswith("let:"):
            name = meth[4:]
            f = letclosure(toks, name)
            if f:
                toks = toks[:f[0]] + toks[f[1]:]
            i = 0
            while i + 1 < len(toks):
                if toks[i].t == name and toks[i + 1].t == "(" and (i == 0 or toks[i - 1].t not in (".", "::", "fn")):
                    c = close(toks, i + 1)
                    new = lex(rep.replace("$A", text(toks[i + 2:c]).strip()))
                    new[0].ws = toks[i].ws
                    toks = toks[:i] + new + toks[c + 1:]
                i += 1
            cx.note(f"local closure {name} extracted as a function of its own")
            continue
        meth, _, over = meth.partition(" over ")
        meth, _, nth = meth.strip().partition("#")
        r, i, o, c, ps, b = closure_call(toks, meth, int(nth or 0))
        if over and not same_shape(toks[r:i], over):
            raise Lost(f".{meth}() is called on {text(toks[r:i]).strip()[:80]}, not on {over.strip()}")
        if not over and "$R" not in rep and meth != "iife":
            raise Lost(f"hoist of .{meth}() drops its receiver without naming it")
        new = lex(rep.replace("$R", text(toks[r:i]).strip()))
        new[0].ws = toks[r].ws
        toks = toks[:r] + new + toks[c + 1:]
        cx.note(f"closure of .{meth}() extracted as a function of its own")
    return toks


def rename(toks, pairs, cx):
    for a, b in pairs:
        A = lex(a)
        out, i = [], 0
        while i < len(toks):
            if [t.t for t in toks[i:i + len(A)]] == [t.t for t in A]:
                nb = lex(b) if b.strip() else []
                if nb:
                    nb[0].ws = toks[i].ws
                out.extend(nb)
                i += len(A)
                cx.note(f"renamed {a} => {b}")
                continue
            out.append(toks[i])
            i += 1
        toks = out
    return toks


def loops(body):
    """indices of loop keywords and of their opening braces, in textual order"""
    res = []
    for i, t in enumerate(body):
        if t.k == "id" and t.t in ("while", "for", "loop"):
            if t.t == "for" and (body[i + 1].t == "<"):
                continue
            j = i + 1
            while body[j].t != "{":
                if body[j].t in ("(", "["):
                    j = close(body, j)
                j += 1
            res.append((t.t, i, j))
    return res


def emit_fn(toks, d, cx):
    toks = copy(toks)
    toks = strip_attrs(toks, cx)
    toks = strip_vis(toks)
    toks = strip_logs(toks, cx)
    if "closure" in d:
        if d["closure"].startswith("let:"):
            f = letclosure(toks, d["closure"][4:])
            if not f:
                raise Lost("no local closure " + d["closure"][4:])
            ps, b = f[2:]
        else:
            meth, _, nth = d["closure"].partition("#")
            r, i0, o, c, ps, b = closure_call(toks, meth, int(nth or 0))
        sg = d["sig"]
        for n, q in enumerate(ps):
            sg = sg.replace(f"${n}", text(q).strip())
            for part in ("start", "spec"):
                if part in d:
                    d[part] = d[part].replace(f"${n}", text(q).strip())
        if not (b and b[0].t == "{" and close(b, 0) == len(b) - 1):
            b = T("{") + b + T("}")
        toks = lex(sg) + b
        cx.note(f"closure passed to .{d['closure']}() extracted as a function")
    toks = hoist(toks, d.get("hoist", []), cx)
    toks = rename(toks, d.get("rename", []), cx)
    if d.get("pure"):
        toks = pure(toks, d["pure"], cx)
    if d.get("closures"):
        toks = closures(toks, set(d["closures"]), cx)
    toks = debug_asserts(toks, cx)
    toks = while_let(toks, cx)
    if d.get("stepped"):
        toks = stepped(toks, d["stepped"], cx)
    if d.get("guards"):
        toks = merge_guards(toks, cx)
    toks = let_chains(toks, cx)
    toks = split_arms(toks, cx)
    # signature / body
    i = 0
    while toks[i].t != "{":
        if toks[i].t in ("(", "["):
            i = close(toks, i)
        if toks[i].t == ";":
            raise Lost("function without a body")
        i += 1
    sig, body = toks[:i], toks[i:]
    # name the result
    ret = d.get("ret", "r")
    arrow = None
    depth = 0
    p = next(k for k, t in enumerate(sig) if t.t == "(")
    # skip generics before the parameter list
    k = 2
    if sig[2].t == "<":
        dd = 0
        while True:
            if sig[k].t == "<":
                dd += 1
            elif sig[k].t == ">":
                dd -= 1
            elif sig[k].t == ">>":
                dd -= 2
            k += 1
            if dd == 0:
                break
    p = k
    pe = close(sig, p)
    if pe + 1 < len(sig) and sig[pe + 1].t == "->":
        w = next((k for k in range(pe + 1, len(sig)) if sig[k].t == "where"), len(sig))
        ty = sig[pe + 2:w]
        sig = sig[:pe + 2] + T(f"({ret}: ") + ty + [Tok("p", ")", "")] + sig[w:]
    ls = loops(body)
    want = d.get("loopkinds")
    if want is not None and [l[0] for l in ls] != want:
        raise Lost(f"loop structure changed: expected {want}, found {[l[0] for l in ls]}")
    ins = []  # (position in body, text)
    for n, clauses in d.get("loops", {}).items():
        if n >= len(ls):
            raise Lost(f"loop {n} is gone")
        ins.append((ls[n][2], "\n" + clauses + "\n"))
    for n, g in d.get("iter", {}).items():
        if n >= len(ls) or ls[n][0] != "for":
            raise Lost(f"for loop {n} is gone")
        k = next(k for k in range(ls[n][1], ls[n][2]) if body[k].t == "in")
        ins.append((k + 1, " " + g.strip() + ": "))
    for n, g in d.get("loopbody", {}).items():
        ins.append((ls[n][2] + 1, "\n" + g + "\n"))
    for n, g in d.get("loopend", {}).items():
        ins.append((close(body, ls[n][2]), "\n" + g + "\n"))
    for n, g in d.get("afterloop", {}).items():
        ins.append((close(body, ls[n][2]) + 1, "\n" + g + "\n"))
    if d.get("start"):
        ins.append((1, "\n" + d["start"] + "\n"))
    for where, rx, g in d.get("hints", []):
        # statement whose text matches
        R = re.compile(rx)
        st = set([1])
        for k, t in enumerate(body):
            if t.t in (";", "{", "}") and k + 1 < len(body):
                st.add(k + 1)
        for k in sorted(st):
            if body[k].t in ("}",):
                continue
            e = stmt_end(body, k)
            if R.match(re.sub(r"\s+", " ", text(body[k:e])).strip()):
                ins.append((k if where == "before" else e, "\n" + g + "\n"))
    out = []
    ins.sort(key=lambda x: x[0])
    q = 0
    for k, t in enumerate(body):
        while q < len(ins) and ins[q][0] == k:
            out.append(Tok("x", ins[q][1], ""))
            q += 1
        out.append(t)
    return text(sig).strip() + "\n" + d.get("spec", "") + "\n" + text(out).strip() + "\n"


def emit_item(toks, cx, ren=()):
    toks = strip_attrs(copy(toks), cx)
    # visibility: everything public, so that specifications may mention it
    toks = strip_vis(toks)
    toks = rename(toks, ren, cx)
    kw = toks[0].t
    if kw == "struct":
        # make fields public
        for i, t in enumerate(toks):
            if t.t in ("{", "(") and i > 0:
                c = close(toks, i)
                out = toks[:i + 1]
                k = i + 1
                fresh = True
                depth = 0
                while k < c:
                    x = toks[k]
                    if fresh:
                        out.append(Tok("id", "pub", x.ws or " "))
                        x = Tok(x.k, x.t, " ")
                        fresh = False
                    if x.t in OPEN or x.t == "<":
                        depth += 1
                    elif x.t in (")", "]", "}", ">"):
                        depth -= 1
                    elif x.t == ">>":
                        depth -= 2
                    elif x.t == "," and depth == 0:
                        fresh = True
                    out.append(x)
                    k += 1
                toks = out + toks[c:]
                break
            if t.t == ";":
                break
    return "pub " + text(toks).strip() + "\n"


def generate(unit):
    """-> (verus text, info)"""
    src = open(os.path.join(V, "verus", unit + ".rs")).read().split("\n")
    cx = Ctx()
    out, fns = [], []
    S = None
    i = 0
    linemap = []
    while i < len(src):
        l = src[i]
        m = re.match(r"\s*//@@ (\w+)\s*(.*)$", l)
        if not m:
            out.append(l)
            i += 1
            continue
        cmd, arg = m[1], m[2].strip()
        if cmd == "include":
            p = arg.split()
            inc = open(os.path.join(V, "verus", p[0])).read()
            for q in p[1:]:
                a, b = q.split("=>")
                inc = re.sub(r"\b" + re.escape(a) + r"\b", b, inc)
            src[i:i + 1] = inc.split("\n")
            continue
        elif cmd == "features":
            cx.on = set(arg.split())
        elif cmd == "source":
            S = Source(arg, cx.on)
        elif cmd == "macro":
            p = arg.split()
            S.macro(p[0], dict(x.split("=") for x in p[1:]))
        elif cmd == "item":
            p = arg.split(None, 2)
            ren = [tuple(x.split("=>")) for x in p[2].split(";;")] if len(p) > 2 else []
            ren = [(a.strip(), b.strip()) for a, b in ren]
            out.append(emit_item(S.item(p[0], p[1]), cx, ren))
        elif cmd in ("fn", "closure"):
            d = dict(iter={}, loops={}, loopbody={}, loopend={}, afterloop={}, hints=[], rename=[], hoist=[])
            path = arg
            if cmd == "closure":
                path, d["closure"] = arg.rsplit(" ", 1)
            mode = None
            i += 1
            while not re.match(r"\s*//@@ end\b", src[i]):
                x = re.match(r"\s*//@@ ?(.*)$", src[i])
                ln = x[1] if x else src[i]
                if ln.startswith("|"):
                    ln = ln[1:]
                    h = None
                else:
                    h = re.match(r"(spec|start|iter \d+|loop \d+|loopbody \d+|loopend \d+|afterloop \d+|closures|pure|rename|hoist|guards|stepped|sig|ret|loopkinds|before \"[^\"]*\"|after \"[^\"]*\"):\s*(.*)$", ln.strip()) if x else None
                if h:
                    mode = h[1]
                    rest = h[2]
                    if mode == "closures":
                        d["closures"] = rest.split()
                    elif mode == "pure":
                        d["pure"] = rest.split()
                    elif mode == "loopkinds":
                        d["loopkinds"] = rest.split()
                    elif mode == "rename":
                        for y in rest.split(";;"):
                            a, b = y.split("=>", 1)
                            d["rename"].append((a.strip(), b.strip()))
                    elif mode == "hoist":
                        a, b = rest.split("=>", 1)
                        d["hoist"].append((a.strip(), b.strip()))
                    elif mode in ("ret", "sig", "guards", "stepped"):
                        d[mode] = rest
                    else:
                        ln = rest
                        h = None
                        add(d, mode, ln)
                else:
                    add(d, mode, ln)
                i += 1
            out.append(emit_fn(S.fn(path), d, cx))
            fns.append(f"{S.path} {path}")
        else:
            raise Lost("bad directive " + l)
        i += 1
    txt = "\n".join(out)
    if "vx_assert(" in txt and "fn vx_assert" not in txt:
        txt = re.sub(r"verus! *\{[ ]*\n", lambda m: m[0] + "/// every assert!/debug_assert! of the code is an obligation\npub fn vx_assert(b: bool) requires b {}\n", txt, count=1)
    assumed = sorted(set(re.findall(r"external_body\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof |open spec |closed spec )?(?:fn|struct|enum)\s+(\w+)", txt)))
    assumed += ["assume_specification " + x for x in re.findall(r"assume_specification(?:<[^>]*>)?\s*\[\s*(.*?)\s*\]", txt)]
    assumed += ["assume(" + x + ")" for x in re.findall(r"\bassume\(([^;]*)\);", txt)]
    return txt, dict(functions=fns, dropped=[f"{v}x {k}" for k, v in sorted(cx.dropped.items())], assumed=assumed)


def add(d, mode, ln):
    if mode is None:
        return
    if mode in ("spec", "start"):
        d[mode] = d.get(mode, "") + ln + "\n"
        return
    w, _, a = mode.partition(" ")
    if w in ("before", "after"):
        rx = a.strip('"')
        for k, h in enumerate(d["hints"]):
            if h[0] == w and h[1] == rx:
                d["hints"][k] = (w, rx, h[2] + ln + "\n")
                return
        d["hints"].append((w, rx, ln + "\n"))
        return
    key = {"loop": "loops"}.get(w, w)
    d[key][int(a)] = d[key].get(int(a), "") + ln + "\n"


def run_unit(unit, thorough=False):
    t0 = time.time()
    try:
        txt, info = generate(unit)
    except (Lost, IndexError, StopIteration) as e:
        return dict(unit=unit, result="lost anchor", note=str(e), functions=[], verified=0, errors=0, solver_s=0, dropped=[], assumed=[])
    os.makedirs(OUT, exist_ok=True)
    f = os.path.join(OUT, unit + ".rs")
    open(f, "w").write(txt)
    cmd = ["verus", f, "--rlimit", "60" if thorough else "30", "--num-threads", "4", "--time"]
    env = dict(os.environ)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600 if thorough else 300, cwd=OUT, env=env)
        o = p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return dict(info, unit=unit, result="timeout", note="verus timed out", verified=0, errors=0, solver_s=time.time() - t0)
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
    st = re.search(r"total smt-time:\s*(\d+) ms", o) or re.search(r"total-time:\s*(\d+) ms", o)
    solver = int(st[1]) / 1000 if st else round(time.time() - t0, 1)
    r = dict(info, unit=unit, verified=int(m[1]) if m else 0, errors=int(m[2]) if m else 0, solver_s=solver, output=o)
    if p.returncode == 0 and m and int(m[2]) == 0 and int(m[1]) > 0:
        r["result"] = "verified"
        return r
    errs = re.findall(r"^error(?:\[\w+\])?: (.*)\n\s*-->\s*(\S+?):(\d+):", o, re.M)
    if not m and errs and all("evaluates to false" in e[0] for e in errs):  # assert .. by (compute_only)
        m = re.match(r"()()", "")
        r["errors"] = len(errs)
    if not m or re.search(r"^error\[E\d+\]", o, re.M):
        r["result"] = "not accepted by the verifier's language"
        r["note"] = "; ".join(f"{a} (line {c})" for a, b, c in errs[:3]) or o[-300:]
        return r
    lines = txt.split("\n")

    def where(n):
        for k in range(min(n, len(lines)) - 1, -1, -1):
            q = re.match(r"\s*(?:pub )?(?:open |closed )?(?:proof |spec |exec )?fn (\w+)", lines[k])
            if q:
                return q[1]
        return "?"
    failed = []
    for a, b, c in errs:
        if "aborting due to" in a:
            continue
        n = int(c)
        loc = where(n) if b.endswith(unit + ".rs") else None
        if loc is None:
            q = re.search(re.escape(a) + r".*?::: \S*" + re.escape(unit) + r"\.rs:(\d+)", o, re.S)
            if q:
                n = int(q[1])
                loc = where(n)
        failed.append(f"{loc or b}: {a} [{lines[n-1].strip()[:100] if loc and n <= len(lines) else ''}]")
    if not failed or all("rlimit" in x or "Resource limit" in x for x in failed):
        r["result"] = "undecided (resource limit)"
        r["note"] = "; ".join(failed)[:300]
        return r
    r["result"] = "failed"
    r["failed"] = failed
    return r


if __name__ == "__main__":
    import sys
    for u in sys.argv[1:]:
        r = run_unit(u)
        o = r.pop("output", "")
        if r["result"] != "verified":
            print(o[-int(os.environ.get("TAIL", "6000")):])
        print(json.dumps(r, indent=1))
