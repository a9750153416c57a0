"""Mechanical extraction of Rust items from /repo, with contracts spliced in.

The executable text of every extracted function is taken verbatim from the
source file, except for the transformations listed in TRANSFORMS below (which
are also copied to the evidence of every run).  Nothing here knows what the
functions do.
"""
import re

TRANSFORMS = [
    "T1 comments, doc comments, attributes and derive lists are dropped",
    "T2 visibility qualifiers are dropped / normalised to pub",
    "T3 log::{trace,debug,info,warn,error}!(..) becomes ()",
    "T4 assert!/debug_assert! lose their message; (debug_)assert_eq!(a, b) becomes assert!((a) == (b)), _ne likewise; "
    "unreachable!/panic! lose their message (each is still an obligation: it must be unreachable)",
    "T5 the return type `-> T` is written `-> (r: T)` so a postcondition can name it",
    "T6 requires/ensures/decreases, loop invariants, closure contracts and ghost (proof) blocks are inserted",
    "T7 the per-function textual substitutions listed as `subst` in the unit file (each one is reported in the evidence)",
    "T8 inside `for` loops, `if C { ..; continue; } REST` is written `if C { .. } else { REST }` (nested: REST in both else branches)",
    "T9 `unchain` (listed in the unit file): `let x = a.or_else(|| b).map(|y| c)` on options is unfolded into matches",
    "T10 `cut` (listed in the unit file): a block that only logs is replaced by the text given there",
]


class Lost(Exception):
    """An anchor (item, loop, closure, text) is not where the unit file expects it."""


# ---------------------------------------------------------------- lexer
TOK = re.compile(r"""
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<rawstr>b?r(?P<h>\#*)".*?"(?P=h))
|(?P<str>b?"(?:\\.|[^"\\])*")
|(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\\n])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
|(?P<id>[A-Za-z_]\w*)
|(?P<p>::|->|=>|\.\.=|\.\.\.|\.\.|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|>>=|.)
""", re.X | re.S)


class T:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return self.s


def lex(src):
    out = []
    i, n = 0, len(src)
    while i < n:
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = TOK.match(src, i)
        if not m:
            raise Lost("lexer stuck at %r" % src[i:i + 30])
        k = m.lastgroup
        if k == "h":
            k = "rawstr"
        for g in ("rawstr", "str", "char", "life", "num", "id", "p", "ws", "lc"):
            if m.group(g) is not None:
                k = g
                break
        if k not in ("ws", "lc"):
            out.append(T(k, m.group(0), i, m.end()))
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k == "p":
            if s in OPEN:
                d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced")


def norm(toks):
    return " ".join(t.s for t in toks)


# ---------------------------------------------------------------- items
def skip_attrs(toks, i):
    while i < len(toks) and toks[i].s == "#":
        j = i + 1
        if toks[j].s == "!":
            j += 1
        i = match_close(toks, j) + 1
    return i


def has_cfg_test(toks, i, j):
    return "cfg ( test )" in norm(toks[i:j])


def items(toks, lo, hi):
    """Yield (kind, name/header, start, sig_end, body_open, body_close) of items in toks[lo:hi]."""
    i = lo
    while i < hi:
        st = i
        i = skip_attrs(toks, i)
        if i >= hi:
            return
        test = has_cfg_test(toks, st, i)
        # visibility / qualifiers
        j = i
        while j < hi and toks[j].s in ("pub", "async", "unsafe", "const", "default", "extern"):
            if toks[j].s == "const" and toks[j + 1].s != "fn":
                break
            if toks[j].s == "pub" and toks[j + 1].s == "(":
                j = match_close(toks, j + 1) + 1
            elif toks[j].s == "extern" and toks[j + 1].k == "str":
                j += 2
            else:
                j += 1
        kw = toks[j].s if j < hi else ""
        # find end: first `;` or `{` at depth 0 (parens/brackets)
        k = j
        d = 0
        while k < hi:
            s = toks[k].s
            if toks[k].k == "p":
                if s in ("(", "["):
                    d += 1
                elif s in (")", "]"):
                    d -= 1
                elif d == 0 and s in (";", "{"):
                    break
            k += 1
        if k >= hi:
            return
        if toks[k].s == "{":
            c = match_close(toks, k)
            # `const X: T = Foo { .. };` / use groups
            e = c + 1
            if kw in ("use", "const", "static", "type", "let"):
                while e < hi and toks[e].s != ";":
                    if toks[e].s in OPEN:
                        e = match_close(toks, e)
                    e += 1
                e += 1
            body = (k, c)
        else:
            e = k + 1
            body = None
        if not test:
            if kw == "impl" or kw == "trait" or kw == "mod":
                yield (kw, toks[j:k], j, k, body, e)
            elif kw in ("fn", "struct", "enum", "const", "static", "type"):
                nm = toks[j + 1].s
                yield (kw, nm, j, k, body, e)
            elif kw == "macro_rules":
                pass
        i = e


def strip_generics(toks):
    """header tokens without <...> groups and where clauses"""
    out, d = [], 0
    for t in toks:
        if t.s == "where" and d == 0:
            break
        if t.s == "<":
            d += 1
            continue
        if t.s == ">":
            d -= 1
            continue
        if t.s == ">>":
            d -= 2
            continue
        if d == 0:
            out.append(t.s)
    return " ".join(out)


class File:
    def __init__(self, path, rel):
        self.rel = rel
        self.src = open(path, encoding="utf-8").read()
        self.toks = lex(self.src)

    def _walk(self, lo, hi, prefix):
        for it in items(self.toks, lo, hi):
            kw = it[0]
            if kw in ("impl", "trait", "mod") and it[4]:
                head = strip_generics(it[1])
                head = re.sub(r"^(pub (\( \w+ \) )?)", "", head)
                head = head.split(" : ")[0] if kw == "trait" else head
                if kw == "mod":
                    if it[1][1].s in ("tests", "test"):
                        continue
                    yield from self._walk(it[4][0] + 1, it[4][1], prefix)
                else:
                    yield ((head,), it)
                    for sub, x in self._walk(it[4][0] + 1, it[4][1], prefix):
                        yield ((head,) + sub, x)
            else:
                yield ((it[0] + " " + it[1] if isinstance(it[1], str) else "?",), it)

    def find(self, path):
        """path: 'fn name' | 'impl X :: fn name' | 'impl A for B :: fn name' | 'trait T :: fn name' | 'struct N'"""
        m = re.match(r"(.*) #(\d+)$", path.strip())
        n = 0
        if m:   # the n-th of several items with the same path (impls that differ in generic arguments)
            path, n = m.group(1), int(m.group(2))
        want = tuple(re.sub(r"\s+", " ", p.strip()) for p in path.split(" / "))
        hits = [x for (p, x) in self._walk(0, len(self.toks), ()) if p == want]
        if len(hits) <= n:
            raise Lost("%s: no item `%s`" % (self.rel, path))
        return hits[n]

    def fn_names(self):
        r = []
        for p, x in self._walk(0, len(self.toks), ()):
            if x[0] == "fn":
                r.append((" / ".join(p), x))
        return r


# ---------------------------------------------------------------- emit
LOGM = ("trace", "debug", "info", "warn", "error")


def _macro_args(toks, i):
    """toks[i] is the opening bracket; returns list of arg token lists, close index"""
    c = match_close(toks, i)
    args, cur, d = [], [], 0
    for t in toks[i + 1:c]:
        if t.k == "p" and t.s in OPEN:
            d += 1
        elif t.k == "p" and t.s in CLOSE:
            d -= 1
        if t.s == "," and d == 0 and t.k == "p":
            args.append(cur); cur = []
        else:
            cur.append(t)
    if cur:
        args.append(cur)
    return args, c


def clean(toks):
    """apply T1, T3, T4 to a token list; returns new token list (positions lost where synthesized)"""
    out = []
    i, n = 0, len(toks)

    def syn(s):
        return T("syn", s, -1, -1)
    while i < n:
        t = toks[i]
        if t.s == "#" and i + 1 < n and toks[i + 1].s in ("[", "!"):
            i = skip_attrs(toks, i)
            continue
        # log macros
        if t.k == "id" and i + 1 < n:
            j = i
            name = None
            if t.s == "log" and i + 4 < n and toks[i + 1].s == "::" and toks[i + 2].s in LOGM and toks[i + 3].s == "!":
                j, name = i + 4, "log"
            elif t.s in LOGM and toks[i + 1].s == "!" and (not out or out[-1].s not in (".", "::")):
                j, name = i + 2, "log"
            if name:
                c = match_close(toks, j)
                out.append(syn("()"))
                i = c + 1
                continue
            if toks[i + 1].s == "!" and i + 2 < n and toks[i + 2].s in OPEN:
                m = t.s
                if m in ("assert", "debug_assert"):
                    args, c = _macro_args(toks, i + 2)
                    out.extend([syn("assert"), syn("!"), syn("(")])
                    out += clean(args[0])
                    out.append(syn(")"))
                    i = c + 1
                    continue
                if m in ("assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
                    args, c = _macro_args(toks, i + 2)
                    out.append(syn("assert!(("))
                    out += clean(args[0])
                    out.append(syn(") == (" if m.endswith("eq") else ") != ("))
                    out += clean(args[1])
                    out.append(syn("))"))
                    i = c + 1
                    continue
                if m in ("unreachable", "panic", "todo", "unimplemented"):
                    c = match_close(toks, i + 2)
                    out += [T("id", "unreachable", -1, -1), T("p", "!", -1, -1), T("p", "(", -1, -1), T("p", ")", -1, -1)]
                    i = c + 1
                    continue
        out.append(t)
        i += 1
    return out


NOSPACE_AFTER = {".", "::", "(", "[", "!", "&", "#"}
NOSPACE_BEFORE = {".", "::", ")", "]", ",", ";", "?", "("}


def text(toks):
    """readable re-spacing of tokens; newlines after ; { }"""
    out = []
    col = 0
    ind = 1
    for idx, t in enumerate(toks):
        s = t.s
        if s == "}" and t.k == "p":
            ind = max(0, ind - 1)
            out.append("\n" + "    " * ind)
        out.append(s)
        nx = toks[idx + 1] if idx + 1 < len(toks) else None
        if t.k == "p" and s == "{":
            ind += 1
            out.append("\n" + "    " * ind)
        elif t.k == "p" and s == ";" and True:
            out.append("\n" + "    " * ind)
        elif t.k == "p" and s == "}":
            if nx is not None and nx.s not in (")", ",", ";", ".", "?", "else"):
                out.append("\n" + "    " * ind)
            else:
                out.append(" ")
        elif nx is not None and t.k == "p" and nx.k == "p" and s in ("<", ">") and nx.s == s and t.b == nx.a:
            pass   # shift operators (or nested generics) keep their spelling
        else:
            out.append(" ")
    return "".join(out)


LOOPKW = ("for", "while", "loop")


def find_loops(toks):
    """list of (kw index, header end index == body open, body close) in order of appearance"""
    res = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.s in LOOPKW and (i == 0 or toks[i - 1].s not in (".",)):
            if t.s == "for" and i + 1 < len(toks) and toks[i + 1].s == "<":
                continue
            d = 0
            j = i + 1
            while j < len(toks):
                s = toks[j].s
                if toks[j].k == "p":
                    if s in ("(", "["):
                        d += 1
                    elif s in (")", "]"):
                        d -= 1
                    elif s == "{" and d == 0:
                        break
                j += 1
            res.append((i, j, match_close(toks, j)))
    return res


def find_closures(toks):
    """list of (bar index, params end index(bar), body start, body end exclusive)"""
    res = []
    i = 0
    n = len(toks)
    while i < n:
        t = toks[i]
        if t.k == "p" and t.s in ("|", "||"):
            prev = toks[i - 1].s if i else "("
            if prev in ("(", ",", "=", "move", "=>", "return", "{", ";"):
                if t.s == "||":
                    e = i
                else:
                    e = i + 1
                    d = 0
                    while not (toks[e].s == "|" and d == 0):
                        if toks[e].s in OPEN:
                            d += 1
                        elif toks[e].s in CLOSE:
                            d -= 1
                        e += 1
                b = e + 1
                if toks[b].s == "->":
                    while toks[b].s != "{":
                        b += 1
                if toks[b].s == "{":
                    z = match_close(toks, b) + 1
                else:
                    z = b
                    d = 0
                    while z < n:
                        s = toks[z].s
                        if toks[z].k == "p":
                            if s in OPEN:
                                d += 1
                            elif s in CLOSE:
                                if d == 0:
                                    break
                                d -= 1
                            elif d == 0 and s in (",", ";"):
                                break
                        z += 1
                res.append((i, e, b, z))
                i = e
        i += 1
    return res


def syn(s):
    return T("syn", s, -1, -1)


def unfold_continue(toks):
    """T8: in a `for` body, a statement `if C { A; continue; } REST` becomes `if C { A } else { REST }`
    (Verus does not accept `continue` in a for loop). Only whole-statement ifs without an else, in the body
    itself or in the blocks of an `if` that is its last statement."""
    changed = True
    while changed:
        changed = False
        for (a, b, c) in find_loops(toks):
            if toks[a].s != "for":
                continue
            regions = [(b, c)]
            while regions and not changed:
              b, c = regions.pop()
              i = b + 1
              start = True
              while i < c:
                t = toks[i]
                if start and t.k == "id" and t.s == "if":
                    j, d = i + 1, 0
                    while True:
                        s = toks[j]
                        if s.k == "p":
                            if s.s in ("(", "["):
                                d += 1
                            elif s.s in (")", "]"):
                                d -= 1
                            elif s.s == "{" and d == 0:
                                break
                        j += 1
                    e = match_close(toks, j)
                    k = e - 1
                    if toks[k].s == ";":
                        k -= 1
                    if toks[k].s == "continue" and toks[e + 1].s != "else":
                        rest = toks[e + 1:c]
                        toks = (toks[:k] + [toks[e]] + [T("id", "else", -1, -1), T("p", "{", -1, -1)] + rest
                                + [T("p", "}", -1, -1)] + toks[c:])
                        changed = True
                        break
                    if toks[e - 1].s == "}" and toks[e + 1].s != "else":
                        # `if C { ..; if D { A; continue; } } REST`: REST is written in both else branches
                        e2 = e - 1
                        j2 = next(q for q in range(j + 1, e2) if toks[q].s == "{" and match_close(toks, q) == e2)
                        k2 = e2 - 1
                        if toks[k2].s == ";":
                            k2 -= 1
                        h, d = j2 - 1, 0
                        while h > j and not (d == 0 and toks[h].s in (";", "{", "}")):
                            d += 1 if toks[h].s in (")", "]") else -1 if toks[h].s in ("(", "[") else 0
                            h -= 1
                        if toks[k2].s == "continue" and toks[h + 1].s == "if":
                            rest = toks[e + 1:c]
                            els = [T("id", "else", -1, -1), T("p", "{", -1, -1)] + rest + [T("p", "}", -1, -1)]
                            toks = toks[:k2] + [toks[e2]] + els + [toks[e]] + els + toks[c:]
                            changed = True
                            break
                    # skip the statement; the blocks of a last statement end where the body ends
                    i = e + 1
                    blocks = [(j, e)]
                    while i < c and toks[i].s == "else":
                        q = i + 1
                        while toks[q].s != "{":
                            q += 1
                        i = match_close(toks, q) + 1
                        blocks.append((q, i - 1))
                    if i >= c:
                        regions += blocks
                    start = True
                    continue
                if t.k == "p" and t.s in OPEN:
                    i = match_close(toks, i) + 1
                    start = t.s == "{"
                    continue
                start = t.k == "p" and t.s == ";"
                i += 1
            if changed:
                break
    return toks
