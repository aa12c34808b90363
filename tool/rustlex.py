"""A small Rust lexer and token-tree parser (enough for mechanical extraction).

Every token remembers the whitespace in front of it (comments dropped, newlines
kept), so that extracted text is the source text minus comments."""
import re

class Tok:
    __slots__ = ("k", "t", "ws", "line")
    def __init__(self, k, t, ws="", line=0):
        self.k, self.t, self.ws, self.line = k, t, ws, line
    def __repr__(self):
        return "%s:%r" % (self.k, self.t)

class Group:
    """a delimited group: open token, children, close token"""
    __slots__ = ("d", "ch", "ws", "cws", "line")
    k = "group"
    t = None
    def __init__(self, d, ch, ws="", cws="", line=0):
        self.d, self.ch, self.ws, self.cws, self.line = d, ch, ws, cws, line
    def __repr__(self):
        return "G%s%r" % (self.d, self.ch)

CLOSE = {"(": ")", "[": "]", "{": "}"}
IDENT = re.compile(r"(r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0[xX][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0[bo][0-7_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?")
RAW = re.compile(r'(?:b|c)?r(#*)"')
# multi-character operators are kept as one token
OPS = ["..=", "...", "<<=", ">>=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ".."]
# note: ">>" is NOT merged (generics), it is re-joined on output because ws is empty

class LexError(Exception):
    pass

def lex(s):
    i, n, line = 0, len(s), 1
    ws = ""
    out = []
    while i < n:
        c = s[i]
        if c.isspace():
            ws += c
            if c == "\n":
                line += 1
            i += 1
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        if s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j):
                    d += 1; j += 2
                elif s.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            line += s.count("\n", i, j)
            ws += " "
            i = j
            continue
        m = RAW.match(s, i)
        if m:
            end = '"' + m.group(1)
            j = s.find(end, m.end())
            if j < 0:
                raise LexError("raw string")
            j += len(end)
            out.append(Tok("str", s[i:j], ws, line)); ws = ""
            line += s.count("\n", i, j)
            i = j
            continue
        if c == '"' or (c in "bc" and i + 1 < n and s[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            j += 1
            out.append(Tok("str", s[i:j], ws, line)); ws = ""
            line += s.count("\n", i, j)
            i = j
            continue
        if c == "'" or (c == "b" and i + 1 < n and s[i + 1] == "'"):
            b = i + (1 if c == "b" else 0)
            if s[b + 1] == "\\":
                j = b + 3
                while s[j] != "'":
                    j += 1
                out.append(Tok("char", s[i:j + 1], ws, line)); ws = ""
                i = j + 1
                continue
            if b + 2 < n and s[b + 2] == "'":
                out.append(Tok("char", s[i:b + 3], ws, line)); ws = ""
                i = b + 3
                continue
            m = IDENT.match(s, b + 1)
            if not m:
                raise LexError("char at line %d" % line)
            out.append(Tok("lifetime", s[i:m.end()], ws, line)); ws = ""
            i = m.end()
            continue
        m = IDENT.match(s, i)
        if m:
            # raw identifiers crash the verifier; they are renamed consistently
            out.append(Tok("ident", re.sub(r"^r#", "r_", m.group(0)), ws, line)); ws = ""
            i = m.end()
            continue
        m = NUM.match(s, i)
        if m:
            t = m.group(0)
            # tuple index chains such as x.0.1 must not be read as a float
            if out and out[-1].t == "." and "." in t:
                t = t.split(".")[0]
            out.append(Tok("num", t, ws, line)); ws = ""
            i += len(t)
            continue
        for op in OPS:
            if s.startswith(op, i):
                out.append(Tok("op", op, ws, line)); ws = ""
                i += len(op)
                break
        else:
            out.append(Tok("op", c, ws, line)); ws = ""
            i += 1
    out.append(Tok("eof", "", ws, line))
    return out

def trees(toks):
    pos = 0
    def rec(close):
        nonlocal pos
        ch = []
        while True:
            t = toks[pos]
            if t.k == "eof":
                if close:
                    raise LexError("unbalanced")
                return ch, t
            if t.k == "op" and t.t in CLOSE:
                pos += 1
                sub, ct = rec(CLOSE[t.t])
                ch.append(Group(t.t, sub, t.ws, ct.ws, t.line))
                continue
            if t.k == "op" and t.t in ")]}":
                if t.t != close:
                    raise LexError("unbalanced %s at line %d" % (t.t, t.line))
                pos += 1
                return ch, t
            ch.append(t)
            pos += 1
    r, _ = rec(None)
    return r

def parse(s):
    return trees(lex(s))

def text(ch, first_ws=True):
    out = []
    def rec(c, skip):
        for idx, t in enumerate(c):
            w = "" if (skip and idx == 0) else t.ws
            if isinstance(t, Group):
                out.append(w + t.d)
                rec(t.ch, False)
                out.append(t.cws + CLOSE[t.d])
            else:
                out.append(w + t.t)
    rec(ch, not first_ws)
    return "".join(out)

def norm(ch):
    """whitespace-insensitive text"""
    out = []
    def rec(c):
        for t in c:
            if isinstance(t, Group):
                out.append(t.d); rec(t.ch); out.append(CLOSE[t.d])
            else:
                out.append(t.t)
    rec(ch)
    r = ""
    for t in out:
        if r and (r[-1].isalnum() or r[-1] == "_") and (t[0].isalnum() or t[0] == "_"):
            r += " "
        r += t
    return r.replace(",)", ")").replace(",]", "]").replace(",}", "}")

def is_(t, s):
    return t.k != "group" and t.t == s

def isg(t, d):
    return isinstance(t, Group) and t.d == d
