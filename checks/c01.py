"""C01  Tokenisation is exact.

Contract of Lexer.get_token, for every scanner state and every continuation of
the source text: it consumes blanks and comments, then exactly the longest
token there is, and returns its kind, value and line; or raises a syntax error
exactly when no token starts there.  Every call starts at the character the
previous one stopped at and consumes at least one unless the text has ended,
so by induction on the calls the sequence of tokens is the longest-match
tokenisation of the whole text.
"""
from pvc.engine import PathEnd, Unsupported, SymInt, mkb
from pvc.text import (cl, known, AbsBuffer, AbsStream, SymChar, SymText, Run, Image, TextLoop, classes,
                      same_pieces, text_pieces, where)
from standin import lexspec as S

MAX = 2**63 - 1


class RealVal:
    def __init__(self, cx, text):
        self.cx, self.text = cx, text
        self.inf = cx.flag("real is too large")

    def __eq__(self, o):
        if o == float("inf"):
            return self.inf
        raise Unsupported("comparison of a real")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


BLANK = where(lambda c: c.isspace() and c != "\n")
IDENT = where(lambda c: c.isalnum() or c == "_")
IDSTART = where(lambda c: c.isalpha() or c == "_")
DIGIT = where(str.isdecimal)
NL = frozenset([10])


def split_skip(ps):
    """Length of the leading blanks and comment, and whether it ends in one."""
    i, comment = 0, False
    while i < len(ps):
        p = ps[i]
        if comment:
            if 10 in cl(p):
                if isinstance(p, Run) or len(cl(p)) > 1:
                    raise Unsupported("a comment run that may hold a line break")
                comment = False
                break
            i += 1
            continue
        if cl(p) <= BLANK:
            i += 1
            continue
        if isinstance(p, SymChar) and p.known() == "#":
            comment = True
            i += 1
            continue
        break
    return i, comment


def vc_token(cx):
    ns = cx.ns
    P, T = ns["amanda.compiler.parse"], ns["amanda.compiler.tokens"]
    TT = T.TokenType
    st = AbsStream(cx)
    lx = P.Lexer("prog.ama", st)
    cx.state["universe"] = sorted(set(S.KEYWORDS) | set(P.TK_KEYWORDS))
    ints = {}

    def text_int(t):
        for t2, v in ints.values():
            if same_pieces(t2.ps, t.ps):
                return v
        if any(not cl(p) <= DIGIT for p in t.ps):
            cx.prove("numbers are made of decimal digits", False)
            raise PathEnd()
        if cx.flag("thousands of digits"):
            cx.state["toolong"] = True
            raise cx.modelled(ValueError("Exceeds the limit for integer string conversion"))
        v = cx.int("value", 0)
        ints[id(t)] = (t, v)
        return v

    def text_float(t):
        ok = [p for p in t.ps if not cl(p) <= DIGIT]
        cx.prove("real numbers are digits around one point", len(ok) == 1 and known(ok[0]) == ".")
        v = RealVal(cx, t)
        cx.state.setdefault("reals", []).append(v)
        return v

    cx.state["text_int"], cx.state["text_float"] = text_int, text_float
    if cx.choose("state", ["first call", "between tokens"]) == "between tokens":
        lx.line = cx.int("line", 1)
        lx.pos = cx.int("pos", 1)
        if st.read(1) == "":
            lx.current_char = P.Lexer.EOF
        else:
            lx.current_char = st.chars[0]
    line0 = lx.line
    cx.patch(P, "StringIO", lambda *a: AbsBuffer(cx))

    def policy(key, names, vals, loc):
        me = loc.get("self")
        if not isinstance(me, P.Lexer):
            return None
        cur = st.i if isinstance(me.current_char, str) else st.i - 1
        ps = st.chars[:cur]
        i, comment = split_skip(ps)
        rest = ps[i:]
        decode = None
        if not comment and rest:
            k = [p.known() if isinstance(p, SymChar) else None for p in rest[:2]]
            if k[0] in ("'", '"'):
                decode = k[0]
            elif k[0] == "f" and len(k) > 1 and k[1] in ("'", '"'):
                decode = k[1]
        sp = TextLoop(cx, key, me, decode, dict(loc))
        return sp

    cx.while_policy = policy
    out = cx.call(lx.get_token)
    cx.while_policy = None
    cur = st.i if isinstance(lx.current_char, str) else st.i - 1
    ps = st.chars[:cur]
    save = st.i

    def peek(k):
        """k-th character after the consumed text ('' at the end)."""
        st.i = cur
        c = ""
        for _ in range(k + 1):
            c = st.read(1)
            if isinstance(c, str) and c == "":
                return ""
        return c

    info = lambda: {"consumed": repr(ps), "next": repr(lx.current_char), "result": repr(out.value)[:200],
                    "trace": out.tb}
    if out.crashed:
        cx.prove("no source text makes the lexer crash", False, info)
        return
    n, comment = split_skip(ps)
    tok = ps[n:]
    nxt = peek(0)
    end = isinstance(nxt, str)
    if comment:
        cx.prove("a comment runs to the end of its line", not tok and (end or 10 in nxt.cands and nxt == "\n"), info)
    if out.rejected:
        e = out.value
        cx.cover("error")
        # what the error stands for
        if not tok:
            cx.prove("an error is reported at a character", not end, info)
            if end:
                return
            bad = nxt
        else:
            bad = tok[0]
        k = bad.known()
        why = False
        if tok and k in ("'", '"', "f"):
            why = end  # string that never ends
            cx.prove("a text that ends is not refused", end, info)
        elif cl(bad) <= DIGIT:
            big = cx.state.get("toolong") or any(r.inf for r in cx.state.get("reals", ()))
            if big:
                why = True
            else:
                why = bool(ints) and all(cx.prove(
                    "a number is refused only when it is too large", v > MAX, info) is not False
                    for _, v in ints.values())
        else:
            # no token starts with this character
            starts = any(bad == o for o in S.OP1)
            two = False
            if not starts:
                if bad == "!":
                    st.i = cur if tok else cur
                    second = (tok[1] if len(tok) > 1 else peek(0)) if tok else peek(1)
                    two = not isinstance(second, str) and second == "="
            why = not starts and not two and not cl(bad) <= (IDSTART | BLANK | NL) and not (
                bad == "'" or bad == '"' or bad == "#")
            if bad.split("starts a name", IDSTART) or bad.split("digit", DIGIT) or bad.split("blank", BLANK | NL):
                why = False
        cx.prove("a text is refused only where no token starts", why, info)
        cx.prove("a syntax error carries the line of the offending text", e.line == line0, info)
        return
    t = out.value
    cx.prove("every token carries the line on which it starts", t.line == line0, info)
    shared = [x for m in (P, ns["amanda.compiler.tokens"]) for d in vars(m).values() if isinstance(d, dict)
              for x in d.values()]
    cx.prove("every token is an object of its own", not any(x is t for x in shared), info)
    nl = 0
    for p in tok:
        if isinstance(p, Run):
            nl = nl + p.newlines
        elif 10 in cl(p) and p == "\n":
            nl = nl + 1
    kind = t.token
    if kind != P.Lexer.EOF:
        cx.prove("the line advances by the line breaks consumed", lx.line == line0 + nl, info)
    if not tok:
        cx.cover("eof")
        cx.prove("the end is reported only at the end", end and kind == P.Lexer.EOF, info)
        return
    first = tok[0]
    k = first.known() if isinstance(first, SymChar) else None
    if k == "\n":
        cx.cover("newline")
        cx.prove("a line break is one token, except the last one",
                 len(tok) == 1 and kind == (P.Lexer.EOF if end else TT.NEWLINE), info)
        return
    is_f = k == "f" and len(tok) > 1 and isinstance(tok[1], SymChar) and tok[1].known() in ("'", '"')
    if k in ("'", '"') or is_f:
        cx.cover("fstring" if is_f else "string")
        body = tok[1:] if is_f else tok
        q = body[0].known()
        closed = len(body) >= 2 and isinstance(body[-1], SymChar) and body[-1].known() == q
        cx.prove("a string is closed by its own quote", closed, info)
        cx.prove("a string has its own kind", kind is (TT.FORMAT_STR if is_f else TT.STRING), info)
        want = [q]
        mid = body[1:-1]
        i = 0
        while i < len(mid):
            if isinstance(mid[i], SymChar) and i + 1 < len(mid) and isinstance(mid[i + 1], Run):
                # the loop rule folds the first iterations into one run
                want.append(Image(mid[i + 1]))
                i += 2
                continue
            raise Unsupported("string body of an unexpected shape")
        want.append(q)
        got = text_pieces(t.lexeme)
        cx.prove("a string literal carries the text written, escapes decoded",
                 got is not None and same_pieces(got, want),
                 lambda: {**info(), "got": repr(got), "want": repr(want)})
        return
    if cl(first) <= IDSTART:
        cx.cover("name")
        cx.prove("a name is a letter and the letters, digits and underscores after it",
                 all(cl(p) <= IDENT for p in tok), info)
        cx.prove("a name extends as far as it can", end or not nxt.split("name continues", IDENT), info)
        txt = SymText(cx, tok)
        hash(txt)
        if txt.ident == "f" and not end:
            cx.prove("f before a quote begins a format string", not (nxt == "'" or nxt == '"'), info)
        word = txt.ident
        want = S.KEYWORDS.get(word) if word is not None else None
        cx.prove("keywords get their own kind, other words are identifiers",
                 kind is (TT[want] if want else TT.IDENTIFIER), info)
        if word is not None:
            cx.cover("keyword" if want else "known word")
        got = t.lexeme
        cx.prove("a name carries its text", (got == word if isinstance(got, str) else same_pieces(text_pieces(got), tok)), info)
        return
    if cl(first) <= DIGIT:
        dots = [i for i, p in enumerate(tok) if not cl(p) <= DIGIT]
        cx.prove("a number is digits, with at most one point among them",
                 not dots or (len(dots) == 1 and 0 < dots[0] < len(tok) - 1 and tok[dots[0]].known() == "."), info)
        more = (not end) and nxt.split("digits continue", DIGIT)
        cx.prove("a number extends as far as it can", not more, info)
        if not dots:
            cx.cover("integer")
            if not end and nxt == ".":
                n2 = peek(1)
                cx.prove("a point followed by a digit belongs to the number",
                         isinstance(n2, str) or not n2.split("fraction", DIGIT), info)
            v = [v for t2, v in ints.values() if same_pieces(t2.ps, tok)]
            cx.prove("an integer carries the value written", bool(v) and t.lexeme is v[0] and kind is TT.INTEGER, info)
            if v:
                cx.prove("integers fit the machine's range", v[0] <= MAX, info)
        else:
            cx.cover("real")
            r = [r for r in cx.state.get("reals", ()) if r is t.lexeme]
            cx.prove("a real carries the value written",
                     bool(r) and same_pieces(r[0].text.ps, tok) and not r[0].inf and kind is TT.REAL, info)
        return
    cx.cover("operator")
    ks = [p.known() if isinstance(p, SymChar) else None for p in tok]
    text = "".join(ks) if all(ks) else None
    cx.prove("operators and punctuation are those of the language", text in S.OPS, info)
    if text not in S.OPS:
        return
    cx.cover("op " + text)
    cx.prove("each operator has its own kind", kind is TT[S.OPS[text]] and t.lexeme == text, info)
    longer = [o for o in S.OPS if len(o) == len(text) + 1 and o.startswith(text)]
    for o in longer:
        cx.prove("the longest operator is taken", end or not (nxt == o[-1]), info)


def replay(f):
    return None


VCS = [
    {"name": "Lexer.get_token", "fn": vc_token, "infer": 3, "budget": 300, "max_paths": 200000,
     "covers": ["error", "eof", "newline", "string", "fstring", "name", "keyword", "integer", "real", "operator"]
     + ["op " + o for o in S.OPS],
     "functions": ["amanda/compiler/parse.py Lexer." + f for f in (
         "__init__", "advance", "lookahead", "error", "newline", "whitespace", "comment", "number",
         "escape_seq", "string", "identifier", "common_toks", "format_str", "get_token")]
     + ["amanda/compiler/tokens.py Token.from_char", "amanda/compiler/tokens.py is_ambiguous_char",
        "amanda/compiler/tokens.py build_tokens_dict", "amanda/compiler/tokens.py build_reserved_keywords"]},
]
STANDINS = [
    {"name": "tokens of enumerated texts", "fn": S.standin, "budget": 60,
     "bound": "all texts of up to 3 characters over a 40-character alphabet, 4 over a 14-character one, random "
              "texts of up to 60 characters, and the repository's programs, against an independent tokeniser"},
]
TRUSTED = ["CPython str predicates, int() and float() (values of literals are theirs)",
           "the token tables in standin/lexspec.py"]
ASSUMPTIONS = ["the source is read through a text file whose read(1) returns its characters in order "
               "(tell/seek restore the position)"]
