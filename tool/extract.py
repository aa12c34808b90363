#!/usr/bin/env python3
"""Mechanical extraction of /repo/src into one Verus file.

The function bodies are the token sequences of the repository, in their own order;
what is rewritten or dropped is listed in TRANSFORMS and repeated in the evidence.
The contracts (requires/ensures/invariants/proof blocks) come from contracts/*.vc and
are woven in by function path and loop index, never by line number."""
import os, re, sys, json, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import inline, desugar
from rustlex import *

TRANSFORMS = [
 "comments, doc comments, #[inline] and lint attributes are dropped; items under cfg(test)/#[test] are dropped; cfg(target_family=\"unix\") is taken as true (and cfg_if! resolved accordingly)",
 "all visibilities are widened to pub (contracts may then mention private items)",
 "crate-local macro_rules! invocations are expanded by a macro_rules expander in tool/extract.py",
 "#[derive(Clone)] and #[derive(PartialEq)] become trusted impls with the contract 'equal value' / 'compares the views'; Debug/Hash/PartialOrd/Ord/Eq derives are dropped",
 "#[derive(thiserror::Error)] becomes the From impls of its #[from] variants; error texts are dropped",
 "bitflags!/lazy_static! bodies become plain consts/functions with the same initialiser",
 "the bytes crate is replaced by a stand-in module whose functions carry assumed contracts",
 "impl Display / write! / format! with plain {} placeholders become calls appending to a string buffer",
 "a `mut self` receiver is rebound to a mutable local (unsupported receiver form)",
 "for loops get a ghost iterator name; Verus clauses and proof blocks are inserted",
]

class Item:
    def __init__(s, kind, attrs, name, toks, **kw):
        s.kind, s.attrs, s.name, s.toks = kind, attrs, name, toks
        s.__dict__.update(kw)

def cfg_eval(ch):
    """ch: tokens inside cfg( ... )"""
    if not ch:
        return True
    if ch[0].k == "ident" and ch[0].t in ("not", "all", "any") and len(ch) > 1 and isg(ch[1], "("):
        parts = split(ch[1].ch, ",")
        vals = [cfg_eval(p) for p in parts if p]
        return {"not": lambda: not vals[0], "all": lambda: all(vals), "any": lambda: any(vals)}[ch[0].t]()
    n = norm(ch)
    if n in ("test", "doc", "doctest", "miri", "kani", "verus"):
        return False
    if n == "windows" or n == 'target_family="windows"' or n.startswith("feature=") or n == 'target_os="windows"':
        return False
    if n.startswith("target_os=") and n != 'target_os="linux"':
        return False
    return True

def split(ch, sep):
    out, cur = [], []
    for t in ch:
        if is_(t, sep):
            out.append(cur); cur = []
        else:
            cur.append(t)
    out.append(cur)
    return out

def attr_cfg(attr):
    """attr: children of #[...]; returns None if not cfg else bool"""
    if attr and is_(attr[0], "cfg") and len(attr) > 1 and isg(attr[1], "("):
        return cfg_eval(attr[1].ch)
    if attr and is_(attr[0], "test") and len(attr) == 1:
        return False
    return None

def clean(ch):
    """strip attributes inside bodies, evaluate cfg on statements / fields / arms"""
    out = []
    i = 0
    while i < len(ch):
        t = ch[i]
        if is_(t, "#") and i + 1 < len(ch) and isg(ch[i + 1], "["):
            v = attr_cfg(ch[i + 1].ch)
            ws = t.ws
            i += 2
            if v is False:
                # drop the attributes that follow and the thing
                while i < len(ch) and is_(ch[i], "#") and isg(ch[i + 1], "["):
                    i += 2
                arm = False
                while i < len(ch):
                    u = ch[i]
                    i += 1
                    if is_(u, "=>"):
                        arm = True
                    if is_(u, ",") or is_(u, ";"):
                        break
                    if isg(u, "{") :
                        if i < len(ch) and (is_(ch[i], ",") or is_(ch[i], ";")):
                            i += 1
                        break
                continue
            if i < len(ch):
                ch[i].ws = ws
            continue
        if isinstance(t, Group):
            out.append(Group(t.d, clean(t.ch), t.ws, t.cws, t.line))
        else:
            out.append(t)
        i += 1
    return out

# ---------------------------------------------------------------- macro_rules
class MacroError(Exception):
    pass

def frag_parse(kind, ch, i):
    """length of the fragment of given kind starting at ch[i]"""
    if kind in ("tt", "ident", "literal", "lifetime", "block"):
        if i >= len(ch):
            raise MacroError()
        if kind == "ident" and ch[i].k != "ident":
            raise MacroError()
        if kind == "literal" and ch[i].k not in ("str", "num", "char"):
            raise MacroError()
        return i + 1
    if kind == "meta":
        j = i
        if j >= len(ch) or ch[j].k != "ident":
            raise MacroError()
        j += 1
        while j + 1 < len(ch) and is_(ch[j], "::"):
            j += 2
        if j < len(ch) and isinstance(ch[j], Group):
            j += 1
        elif j < len(ch) and is_(ch[j], "="):
            j += 2
        return j
    if kind in ("expr", "ty", "pat", "path", "stmt"):
        j = i
        ang = 0
        while j < len(ch):
            t = ch[j]
            if kind in ("ty", "path"):
                if is_(t, "<"):
                    ang += 1
                elif is_(t, ">"):
                    ang -= 1
            if ang == 0 and t.k == "op" and t.t in (",", ";", "=>"):
                break
            if kind in ("ty",) and is_(t, "="):
                break
            j += 1
        if j == i:
            raise MacroError()
        return j
    raise MacroError("fragment " + kind)

def m_match(pat, ch, i, b):
    """match pattern tokens; returns new index; fills b"""
    p = 0
    while p < len(pat):
        t = pat[p]
        if is_(t, "$") and p + 1 < len(pat):
            nx = pat[p + 1]
            if isg(nx, "("):
                q = p + 2
                sep = None
                if not (pat[q].k == "op" and pat[q].t in "*+?"):
                    sep = pat[q].t
                    q += 1
                op = pat[q].t
                reps = []
                while True:
                    bb = {}
                    j = i
                    try:
                        if reps and sep:
                            if j >= len(ch) or not is_(ch[j], sep):
                                break
                            j += 1
                        if j >= len(ch) and nx.ch:
                            break
                        j2 = m_match(nx.ch, ch, j, bb)
                    except MacroError:
                        break
                    if j2 == i:
                        break
                    reps.append(bb)
                    i = j2
                    if op == "?":
                        break
                if op == "+" and not reps:
                    raise MacroError()
                names = set(n for r in reps for n in r) | set(m_names(nx.ch))
                for n in names:
                    b[n] = ("rep", [r.get(n) for r in reps])
                p = q + 1
                continue
            if nx.k == "ident":
                kind = pat[p + 3].t
                j = frag_parse(kind, ch, i)
                b[nx.t] = ("frag", kind, ch[i:j])
                i = j
                p += 4
                continue
        if i >= len(ch):
            raise MacroError()
        u = ch[i]
        if isinstance(t, Group):
            if not isg(u, t.d):
                raise MacroError()
            k = m_match(t.ch, u.ch, 0, b)
            if k != len(u.ch):
                raise MacroError()
        elif not is_(u, t.t):
            raise MacroError()
        i += 1
        p += 1
    return i

def m_names(pat):
    out = []
    for k, t in enumerate(pat):
        if is_(t, "$") and k + 1 < len(pat):
            if pat[k + 1].k == "ident":
                out.append(pat[k + 1].t)
        if isinstance(t, Group):
            out += m_names(t.ch)
    return out

def copy(ch, ws=None):
    out = []
    for t in ch:
        if isinstance(t, Group):
            out.append(Group(t.d, copy(t.ch), t.ws, t.cws, t.line))
        else:
            out.append(Tok(t.k, t.t, t.ws, t.line))
    if ws is not None and out:
        out[0].ws = ws
    return out

def m_subst(body, b):
    out = []
    i = 0
    while i < len(body):
        t = body[i]
        if is_(t, "$") and i + 1 < len(body):
            nx = body[i + 1]
            if isg(nx, "("):
                q = i + 2
                sep = None
                if not (body[q].k == "op" and body[q].t in "*+?"):
                    sep = body[q]
                    q += 1
                names = [n for n in m_names(nx.ch) if n in b and b[n][0] == "rep"]
                if not names:
                    raise MacroError("repetition")
                cnt = len(b[names[0]][1])
                for r in range(cnt):
                    bb = dict(b)
                    for n in names:
                        bb[n] = b[n][1][r]
                    if r and sep is not None:
                        out.append(Tok(sep.k, sep.t, sep.ws, sep.line))
                    out += m_subst(nx.ch, bb)
                i = q + 1
                continue
            if nx.k == "ident":
                if nx.t == "crate":
                    out.append(Tok("ident", "crate", t.ws, t.line))
                    i += 2
                    continue
                v = b.get(nx.t)
                if v is None or v[0] != "frag":
                    raise MacroError("unbound $" + nx.t)
                toks = copy(v[2], t.ws)
                if v[1] == "expr" and len(toks) > 1:
                    toks[0].ws = ""
                    out.append(Group("(", toks, t.ws, "", t.line))
                else:
                    out += toks
                i += 2
                continue
        if isinstance(t, Group):
            out.append(Group(t.d, m_subst(t.ch, b), t.ws, t.cws, t.line))
        else:
            out.append(Tok(t.k, t.t, t.ws, t.line))
        i += 1
    return out

def macro_def(toks):
    """toks: children of the macro_rules body"""
    rules = []
    for r in split(toks, ";"):
        if len(r) >= 3 and isinstance(r[0], Group) and is_(r[1], "=>") and isinstance(r[2], Group):
            rules.append((r[0].ch, r[2].ch))
    return rules

def macro_expand(rules, args):
    for pat, body in rules:
        b = {}
        try:
            if m_match(pat, args, 0, b) == len(args) or (m_match(pat, args, 0, b) == len(args) - 1 and is_(args[-1], ",")):
                return m_subst(body, b)
        except MacroError:
            continue
    raise MacroError("no rule matches")

def expand_body(ch, macros):
    out = []
    i = 0
    while i < len(ch):
        t = ch[i]
        if t.k == "ident" and i + 2 < len(ch) and is_(ch[i + 1], "!") and isinstance(ch[i + 2], Group):
            if t.t in macros:
                e = expand_body(macro_expand(macros[t.t], ch[i + 2].ch), macros)
                last = i + 2
                stmt = last + 1 < len(ch) and is_(ch[last + 1], ";")
                e = copy(e)
                if e:
                    e[0].ws = ""
                out.append(Group("{", e, t.ws, "\n", t.line))
                i = last + (2 if stmt else 1)
                continue
            if t.t in ("write", "format"):
                e = parse(fmt_expand(t.t, ch[i + 2].ch))
                e[0].ws = t.ws
                out += e
                i += 3
                continue
            if t.t == "cfg_if":
                out += expand_body(cfg_if(ch[i + 2].ch), macros)
                i += 3
                if i < len(ch) and is_(ch[i], ";"):
                    i += 1
                continue
        if isinstance(t, Group):
            out.append(Group(t.d, expand_body(t.ch, macros), t.ws, t.cws, t.line))
        else:
            out.append(t)
        i += 1
    return out

def fmt_expand(kind, args):
    """write!(f, "a{}b", x) -> write_str and fmt calls in order, stopping at the first error"""
    parts = split(args, ",")
    if parts and not parts[-1]:
        parts = parts[:-1]
    dst = "(&mut f__)"
    if kind == "write":
        dst = text(parts[0], False).strip()
        parts = parts[1:]
    if not parts or len(parts[0]) != 1 or parts[0][0].k != "str" or not parts[0][0].t.startswith('"'):
        raise MacroError("format string")
    lit = parts[0][0].t[1:-1]
    rest = [text(p, False).strip() for p in parts[1:]]
    pieces = []
    cur = ""
    j = 0
    while j < len(lit):
        c = lit[j]
        if lit[j:j + 2] in ("{{", "}}"):
            cur += c
            j += 2
        elif c == "{":
            e = lit.index("}", j)
            nm = lit[j + 1:e]
            if cur:
                pieces.append('%s.write_str("%s")' % (dst, cur))
            cur = ""
            if nm == "":
                if not rest:
                    raise MacroError("format arguments")
                x = rest.pop(0)
            elif re.match(r"^[A-Za-z_]\w*$", nm):
                x = nm
            else:
                raise MacroError("format spec " + nm)
            pieces.append("(%s).fmt(%s)" % (x, dst))
            j = e + 1
        elif c == "\\" and j + 1 < len(lit):
            cur += lit[j:j + 2]
            j += 2
        else:
            cur += c
            j += 1
    if cur or not pieces:
        pieces.append('%s.write_str("%s")' % (dst, cur))
    if rest:
        raise MacroError("format arguments")
    w = pieces[-1]
    for p in reversed(pieces[:-1]):
        w = "(match %s { Ok(_) => %s, Err(e__) => Err(e__) })" % (p, w)
    if kind == "write":
        return w
    return "({ let mut f__ = crate::vfmt::Formatter::new(); let _ = %s; f__.into_string() })" % w

def cfg_if(ch):
    i = 0
    while i < len(ch):
        if is_(ch[i], "else"):
            i += 1
        if is_(ch[i], "if"):
            cond = ch[i + 2].ch
            if attr_cfg(cond):
                return ch[i + 3].ch
            i += 4
        elif isg(ch[i], "{"):
            return ch[i].ch
        else:
            raise MacroError("cfg_if")
    return []

# ---------------------------------------------------------------- items
ITEMKW = {"fn", "struct", "enum", "impl", "mod", "use", "const", "static", "type", "trait", "macro_rules", "extern", "unsafe", "async", "union"}

def parse_items(ch):
    out = []
    i = 0
    n = len(ch)
    while i < n:
        attrs = []
        start = i
        while i < n and is_(ch[i], "#"):
            j = i + 1
            if is_(ch[j], "!"):
                j += 1
            attrs.append(ch[j].ch)
            i = j + 1
        if i >= n:
            break
        if is_(ch[i], "pub"):
            i += 1
            if i < n and isg(ch[i], "("):
                i += 1
        quals = []
        while i < n and ch[i].k in ("ident", "str") and (ch[i].t in ("unsafe", "async", "extern", "default") or (ch[i].t == "const" and i + 1 < n and ch[i + 1].k == "ident" and ch[i + 1].t in ("fn", "unsafe", "async", "extern")) or (ch[i].k == "str" and quals)):
            quals.append(ch[i].t)
            i += 1
        t = ch[i]
        kw = t.t if t.k == "ident" else None
        if kw == "mod":
            name = ch[i + 1].t
            if isg(ch[i + 2], "{"):
                out.append(Item("mod", attrs, name, None, body=ch[i + 2].ch)); i += 3
            else:
                out.append(Item("mod", attrs, name, None, body=None)); i += 3
        elif kw == "fn":
            name = ch[i + 1].t
            j = i + 2
            gen = []
            while not isg(ch[j], "("):
                gen.append(ch[j]); j += 1
            params = ch[j]
            j += 1
            rest = []
            while not isg(ch[j], "{") and not is_(ch[j], ";"):
                rest.append(ch[j]); j += 1
            body = ch[j] if isg(ch[j], "{") else None
            ret, where = [], []
            k = 0
            if rest and is_(rest[0], "->"):
                k = 1
                while k < len(rest) and not is_(rest[k], "where"):
                    ret.append(rest[k]); k += 1
            where = rest[k:]
            out.append(Item("fn", attrs, name, None, quals=quals, gen=gen, params=params, ret=ret, where=where, body=body, line=t.line))
            i = j + 1
        elif kw in ("struct", "enum", "union"):
            name = ch[i + 1].t
            j = i + 2
            gen = []
            while not (isg(ch[j], "{") or isg(ch[j], "(") or is_(ch[j], ";")):
                gen.append(ch[j]); j += 1
            if is_(ch[j], ";"):
                body, tail = None, j + 1
            else:
                body, tail = ch[j], j + 1
                if isg(body, "("):
                    while not is_(ch[tail], ";"):
                        tail += 1
                    tail += 1
            out.append(Item(kw, attrs, name, None, gen=gen, body=body)); i = tail
        elif kw in ("impl", "trait"):
            j = i + 1
            head = []
            while not isg(ch[j], "{"):
                head.append(ch[j]); j += 1
            out.append(Item(kw, attrs, None, None, head=head, body=ch[j].ch)); i = j + 1
        elif kw == "macro_rules":
            out.append(Item("macro_rules", attrs, ch[i + 2].t, None, body=ch[i + 3].ch)); i += 4
            if i < n and is_(ch[i], ";"):
                i += 1
        elif kw in ("use", "const", "static", "type"):
            j = i
            while not is_(ch[j], ";"):
                j += 1
            out.append(Item(kw, attrs, ch[i + 1].t, ch[i:j])); i = j + 1
        elif t.k == "ident" and i + 1 < n and is_(ch[i + 1], "!"):
            j = i + 2
            if ch[j].k == "ident":
                j += 1
            out.append(Item("macro", attrs, t.t, None, body=ch[j].ch)); i = j + 1
            if i < n and is_(ch[i], ";"):
                i += 1
        elif is_(t, ";"):
            i += 1
        else:
            raise LexError("item at line %d: %r" % (t.line, t))
    return out

def keep(item):
    for a in item.attrs:
        if attr_cfg(a) is False:
            return False
    return True

def derives(item):
    out = []
    for a in item.attrs:
        if a and is_(a[0], "derive"):
            for p in split(a[1].ch, ","):
                if p:
                    out.append(p[-1].t)
    return out

# ---------------------------------------------------------------- contracts
class Contract:
    def __init__(s, key):
        s.key = key
        s.ret = "ret"
        s.attrs = []
        s.clauses = []      # (kind, tag, text)
        s.loops = {}        # idx -> dict(iter, clauses, begin, end, label)
        s.begin = ""
        s.after = []        # (regex, text)
        s.before = []
        s.tail = ""
        s.external = False
        s.drop = False
        s.rewrites = []
        s.calls = None

class VC:
    def __init__(s):
        s.mods = {}         # module path -> dict(spec=text, fns={}, types={})
        s.order = []
        s.globals = []      # token rewrites applied to every function body

def parse_vc(path, vc):
    mod = None
    c = None
    sect = None
    buf = []
    def flush():
        nonlocal buf, sect
        txt = "\n".join(buf)
        buf = []
        if sect is None:
            if txt.strip() and not all(l.strip().startswith("#") or not l.strip() for l in txt.splitlines()):
                raise Exception("%s: stray text %r" % (path, txt[:80]))
            return
        sect(txt)
        sect = None
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln.startswith("//@"):
            flush()
            w = ln[3:].strip()
            cmd, _, arg = w.partition(" ")
            arg = arg.strip()
            if cmd == "module":
                mod = vc.mods.setdefault(arg, dict(spec="", fns={}, types={}, file=os.path.basename(path), skip=set(), use=""))
                c = None
            elif cmd == "spec":
                def sect(t, m=mod):
                    m["spec"] += t + "\n"
            elif cmd == "use":
                mod["use"] += arg + "\n"
            elif cmd == "skip":
                mod["skip"].add(re.sub(r"\s+", "", arg))
            elif cmd == "type":
                nm, _, opts = arg.partition(" ")
                mod["types"][nm] = opts.split()
            elif cmd == "inimpl":
                def sect(t, m=mod, a="impl " + re.sub(r"\s+", "", arg)):
                    m["types"][a] = [t + "\n"]
            elif cmd == "fn":
                c = Contract(re.sub(r"\s+", "", arg))
                mod["fns"][c.key] = c
                def sect(t, c=c):
                    c.clauses += parse_clauses(t)
            elif cmd == "ret":
                c.ret = arg
                def sect(t, c=c):
                    c.clauses += parse_clauses(t)
            elif cmd == "attr":
                c.attrs.append(arg)
                def sect(t, c=c):
                    c.clauses += parse_clauses(t)
            elif cmd == "external":
                c.external = True
                def sect(t, c=c):
                    c.clauses += parse_clauses(t)
            elif cmd == "drop":
                c.drop = True
            elif cmd == "loop":
                a = arg.split()
                idx = int(a[0])
                L = c.loops.setdefault(idx, dict(iter=None, clauses=[], begin="", end="", attrs=[]))
                what = a[1] if len(a) > 1 else "inv"
                if what == "begin":
                    def sect(t, L=L): L["begin"] += t + "\n"
                elif what == "end":
                    def sect(t, L=L): L["end"] += t + "\n"
                else:
                    if what == "iter":
                        L["iter"] = a[2]
                    def sect(t, L=L): L["clauses"] += parse_clauses(t)
            elif cmd == "begin":
                def sect(t, c=c): c.begin += t + "\n"
            elif cmd == "tail":
                def sect(t, c=c): c.tail += t + "\n"
            elif cmd == "after":
                def sect(t, c=c, a=arg): c.after.append((a, t))
            elif cmd == "before":
                def sect(t, c=c, a=arg): c.before.append((a, t))
            elif cmd == "rewrite":
                a, _, b = arg.partition(" ==> ")
                c.rewrites.append((a.strip(), b.strip()))
                def sect(t, c=c): c.clauses += parse_clauses(t)
            elif cmd == "global":
                a, _, b = arg.partition(" ==> ")
                vc.globals.append((a.strip(), b.strip()))
            elif cmd == "end":
                pass
            else:
                raise Exception("%s: directive %r" % (path, cmd))
            continue
        if not ln.startswith("# "):
            buf.append(ln)
    flush()

CL = re.compile(r"^\s*(?:\[([A-Z0-9, ]+)\]\s*)?(requires|ensures|invariant|invariant_except_break|decreases|recommends|no_unwind|opens_invariants)\b")
def parse_clauses(t):
    """each clause begins on its own line with an optional [Cxx] tag and a keyword"""
    out = []
    for ln in t.split("\n"):
        m = CL.match(ln)
        if m:
            out.append([m.group(2), m.group(1) or "", ln[m.end():].strip()])
        elif ln.strip():
            if ln.strip().startswith("#"):
                continue
            if not out:
                raise Exception("clause text %r" % ln)
            out[-1][2] += "\n        " + ln.strip()
    return [tuple(x) for x in out]

def emit_clauses(cl, sub, ind="    "):
    order = ["requires", "invariant_except_break", "invariant", "ensures", "decreases", "no_unwind"]
    s = ""
    for k in order:
        xs = [c for c in cl if c[0] == k]
        if not xs:
            continue
        if k == "no_unwind":
            s += ind + "no_unwind\n"
            continue
        s += ind + k + "\n"
        for _, tag, tx in xs:
            tx = sub(tx).rstrip().rstrip(",")
            lines = tx.split("\n")
            s += "".join(ind + "    " + l + (" /*@T %s*/" % tag if tag else "") + "\n" for l in lines[:-1])
            s += ind + "    " + lines[-1] + "," + (" /*@T %s*/" % tag if tag else "") + "\n"
    return s

# ---------------------------------------------------------------- emission
class Raw:
    """a pseudo token with literal text"""
    k = "raw"
    def __init__(s, t, ws="\n"):
        s.t, s.ws, s.line = t, ws, 0

def params_of(group):
    out, cur, ang = [], [], 0
    for t in group.ch:
        if is_(t, "<"): ang += 1
        if is_(t, ">"): ang -= 1
        if is_(t, ",") and ang == 0:
            if cur: out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    names = []
    for p in out:
        if any(is_(t, "self") for t in p[:4]) and not any(is_(t, ":") for t in p):
            continue
        nm = None
        for t in p:
            if is_(t, ":"):
                break
            if t.k == "ident" and t.t != "mut":
                nm = t.t
        names.append(nm or "_")
    return names

def find_loops(ch, out):
    """pre-order list of (container, index_of_keyword, kind)"""
    i = 0
    while i < len(ch):
        t = ch[i]
        if t.k == "ident" and t.t in ("for", "while", "loop"):
            if not (t.t == "for" and i + 1 < len(ch) and is_(ch[i + 1], "<")):
                out.append((ch, i, t.t))
        if isinstance(t, Group):
            find_loops(t.ch, out)
        i += 1
    return out

def lets_of(ch, out):
    for i, t in enumerate(ch):
        if is_(t, "let") and t.line != inline.INL and not (i > 0 and (is_(ch[i - 1], "if") or is_(ch[i - 1], "while"))):
            j = i + 1
            if j < len(ch) and is_(ch[j], "mut"):
                j += 1
            if j < len(ch) and ch[j].k == "ident":
                out.append(ch[j].t)
            else:
                out.append("_")
        if isinstance(t, Group):
            lets_of(t.ch, out)
    return out

def calls_of(ch, out):
    for i, t in enumerate(ch):
        if t.k == "ident" and i + 1 < len(ch) and isg(ch[i + 1], "(") and t.t not in ("if", "while", "match", "return", "for", "in"):
            out.append(t.t)
        if isinstance(t, Group):
            calls_of(t.ch, out)
    return out

def const_chars(gen):
    """split `const X: char` off a generic parameter list"""
    if not gen or not any(is_(t, "const") for t in gen):
        return gen, []
    parts, out, extra = split(list(gen[1:-1]), ","), [], []
    for p in parts:
        if len(p) == 4 and is_(p[0], "const") and is_(p[3], "char"):
            extra.append(p[1].t)
        elif p:
            out.append(p)
    if not extra:
        return gen, []
    if not out:
        return [], extra
    g = [gen[0]]
    for p in out:
        g += p + parse(",")
    return g + [gen[-1]], extra

def char_args(ch):
    """f::<'c'>(a)  ==>  f(a, 'c')"""
    i = 0
    while i < len(ch):
        if (i + 5 < len(ch) and ch[i].k == "ident" and is_(ch[i + 1], "::") and is_(ch[i + 2], "<") and ch[i + 3].t and ch[i + 3].t.startswith("'")
                and ch[i + 3].k != "lifetime" and is_(ch[i + 4], ">") and isg(ch[i + 5], "(")):
            g = ch[i + 5]
            if g.ch and not is_(g.ch[-1], ","):
                g.ch += parse(",")
            g.ch.append(Tok(ch[i + 3].k, ch[i + 3].t, " ", ch[i + 3].line))
            del ch[i + 1:i + 5]
        if isinstance(ch[i], Group):
            char_args(ch[i].ch)
        i += 1

BLOCKKW = ("if", "match", "for", "while", "loop", "unsafe")
def statements(ch):
    """yield (start, end) index ranges; end exclusive, includes the ;"""
    i = 0
    out = []
    while i < len(ch):
        s = i
        if ch[i].k == "raw" and not ch[i].t.startswith("let tail__"):
            i += 1
            out.append((s, i))
            continue
        block = is_(ch[i], "{") or isg(ch[i], "{") or (ch[i].k == "ident" and ch[i].t in BLOCKKW) or ch[i].k == "lifetime"
        while i < len(ch):
            t = ch[i]
            i += 1
            if is_(t, ";"):
                break
            if block and isg(t, "{"):
                if i < len(ch) and is_(ch[i], "else"):
                    continue
                if i < len(ch) and (is_(ch[i], ".") or is_(ch[i], "?")):
                    block = False
                    continue
                # match scrutinee block etc. ignored
                break
        out.append((s, i))
    return out

def insert_anchor(ch, rx, raw, after):
    """innermost first; returns True if placed"""
    for t in ch:
        if isinstance(t, Group):
            if insert_anchor(t.ch, rx, raw, after):
                return True
    return False

def variants_of(g):
    """(name, pattern of its contents) of every variant of an enum body"""
    g = g if isinstance(g, list) else [g]
    ch = g[0].ch if len(g) == 1 and isinstance(g[0], Group) else g
    out = []
    for d in split(ch, ","):
        d = [t for t in d]
        while d and is_(d[0], "#"):
            d = d[2:]
        if d and d[0].k == "ident":
            p = ""
            if len(d) > 1 and isg(d[1], "("): p = "(..)"
            if len(d) > 1 and isg(d[1], "{"): p = " { .. }"
            out.append((d[0].t, p))
    return out

def insert_at_loop(g, raw, after):
    """before / after the statement that is the first loop"""
    ls = find_loops(g.ch, [])
    if not ls:
        return False
    cc, i, kind = ls[0]
    for (a, e) in statements(cc):
        if a <= i < e:
            cc.insert(e if after else a, raw)
            return True
    return False

def insert_in_blocks(g, rx, raw, after):
    for t in g.ch:
        if isinstance(t, Group) and insert_in_blocks(t, rx, raw, after):
            return True
    if g.d != "{":
        return False
    for (s, e) in statements(g.ch):
        st = [t for t in g.ch[s:e] if t.k != "raw"]
        if re.match(rx, norm(st)):
            if after and not is_(g.ch[e - 1], ";") and not isg(g.ch[e - 1], "{"):
                continue
            pos = e if after else s
            g.ch.insert(pos, raw)
            return True
    return False

def tnorm(s):
    return norm(parse(s))

def rewrite_tokens(ch, pat, rep):
    """replace a token subsequence (same level) pat by rep; pat may use `_x` wildcards for one token tree"""
    n = 0
    i = 0
    def eq(a, b, bind):
        if b.k == "ident" and re.match(r"^__[a-z0-9]+$", b.t):
            bind[b.t] = a
            return True
        if isinstance(a, Group) != isinstance(b, Group):
            return False
        if isinstance(a, Group):
            if a.d == b.d and len(b.ch) == 1 and b.ch[0].k == "ident" and b.ch[0].t.startswith("__all"):
                bind[b.ch[0].t] = a.ch
                return True
            return a.d == b.d and len(a.ch) == len(b.ch) and all(eq(x, y, bind) for x, y in zip(a.ch, b.ch))
        return a.t == b.t
    def subst(r, bind):
        out = []
        for t in r:
            if t.k == "ident" and t.t in bind:
                v = bind[t.t]
                c = copy(v if isinstance(v, list) else [v])
                c[0].ws = t.ws
                out += c
            elif isinstance(t, Group):
                out.append(Group(t.d, subst(t.ch, bind), t.ws, t.cws, t.line))
            else:
                out.append(Tok(t.k, t.t, t.ws, t.line))
        return out
    while i < len(ch):
        bind = {}
        if i + len(pat) <= len(ch) and all(eq(ch[i + j], pat[j], bind) for j in range(len(pat))):
            ws = ch[i].ws
            new = subst(rep, bind)
            if new:
                new[0].ws = ws
            ch[i:i + len(pat)] = new
            i += len(new)
            n += 1
            continue
        if isinstance(ch[i], Group):
            n += rewrite_tokens(ch[i].ch, pat, rep)
        i += 1
    return n

class Extractor:
    def __init__(s, repo, vc, degrade=(), ext_uncontracted=False, modules=None, known=()):
        s.ext_uncontracted = ext_uncontracted
        s.modules, s.known = modules, set(known)
        s.repo, s.vc = repo, vc
        s.degrade = set(degrade)
        s.out = []
        s.report = dict(functions={}, dropped=[], lost=[], anchors_lost={}, bodies={}, uncontracted=[], rewrites={}, missing_fns=[], errors=[])
        s.rets, s.base = {}, {}
        s.collect, s.helpers, s.absorbed, s.assoc = None, [], set(), {}
        s.report["inlined"] = {}
        s.seen = {}
        s.macros = {}
        s.lazy = []
        s.from_ax = []

    def fret(s, it):
        """return type without lifetimes, associated types resolved"""
        r = inline.nolife(it.ret)
        for k, v in s.assoc.items():
            r = r.replace("Self::" + k, v)
        return r

    # -- function
    def fn(s, it, mod, ctx, trait):
        key = (ctx + "::" if ctx else "") + it.name
        key = re.sub(r"\s+", "", key)
        m = s.vc.mods.get(mod, None)
        c = m["fns"].get(key) if m else None
        full = mod + "::" + key
        if c is None and m and key in m["skip"]:
            s.report["dropped"].append(full)
            return ""
        if c and c.drop:
            s.report["dropped"].append(full)
            s.seen.setdefault(mod, set()).add(key)
            return ""
        s.seen.setdefault(mod, set()).add(key)
        body = None
        if it.body is not None:
            body = copy([it.body])[0]
            try:
                body = clean([Group("{", expand_body(body.ch, s.macros), body.ws, body.cws, body.line)])[0]
            except MacroError as e:
                s.report["errors"].append("%s: macro %s" % (full, e))
                s.degrade.add(full)
        if s.collect is not None:
            s.collect[full] = (it, body, mod, re.sub(r"\s+", "", ctx or ""), trait, key, s.fret(it))
            return ""
        if body is not None and s.helpers and full not in s.degrade and (s.modules is None or mod in s.modules):
            d = inline.inline_calls(body, [h for h in s.helpers if h.full != full], mod, re.sub(r"\s+", "", ctx or ""), s.fret(it), it.params)
            if d:
                s.report["inlined"][full] = d
        bh = hashlib.sha256((norm(it.params.ch) + "->" + norm(it.ret) + norm(body.ch if body else [])).encode()).hexdigest()[:16]
        s.report["bodies"][full] = bh
        if body is not None:
            kinds = [k for _, _, k in find_loops(body.ch, [])]
            desugar.desugar(body, s.rets, (s.base.get(full) or {}).get("loops"), lambda i: c is not None and i in c.loops and "invariant_except_break" in str(c.loops[i]["clauses"]))
        degr = full in s.degrade
        outside = False
        if c is None and (s.ext_uncontracted or full in s.known):
            outside = True
        if s.modules is not None and mod not in s.modules:
            outside = True
        if full in s.absorbed:
            outside = True
        if c is None:
            c = Contract(key)
            if not degr and not outside:
                s.report["uncontracted"].append(full)
        if len(it.params.ch) >= 2 and is_(it.params.ch[0], "mut") and is_(it.params.ch[1], "self"):
            it.params = Group("(", it.params.ch[1:], it.params.ws, it.params.cws, it.params.line)
            if body:
                rewrite_tokens(body.ch, parse("self"), parse("self_m"))
                body.ch.insert(0, Raw("let mut self_m = self;"))
        # a parameter that is a pattern  ==>  a parameter and a `let`
        if body:
            out, k = [], 0
            for q in inline.split_params(it.params.ch):
                c0 = next((j for j, t in enumerate(q) if is_(t, ":")), None)
                if c0 == 1 and isg(q[0], "(") or c0 is not None and c0 > 1 and (isg(q[c0 - 1], "(") or isg(q[c0 - 1], "{")) or c0 == 1 and is_(q[0], "_"):
                    body.ch.insert(k, Raw("let %s = p%d__;" % (text(q[:c0], False).strip(), len(out)))); k += 1
                    q = parse(" p%d__" % len(out)) + q[c0:]
                out += ([] if not out else parse(",")) + q
            if k:
                it.params = Group("(", out, it.params.ws, it.params.cws, it.params.line)
        # const C: char  ==>  an ordinary last parameter (the verifier has no char const arguments)
        it.gen, extra = const_chars(it.gen)
        if extra:
            pc = list(it.params.ch)
            if pc and not is_(pc[-1], ","):
                pc += parse(",")
            it.params = Group("(", pc + parse(", ".join("%s: char" % x for x in extra)), it.params.ws, it.params.cws, it.params.line)
        if body:
            char_args(body.ch)
        names = params_of(it.params)
        lets = lets_of(body.ch, []) if body else []
        loops = find_loops(body.ch, []) if body else []
        pats, srcs = [], []
        for (cc, i, kind) in loops:
            srcs.append("missing_src")
            if kind == "for":
                j = i + 1
                p = []
                while not is_(cc[j], "in"):
                    p.append(cc[j]); j += 1
                pats.append(re.sub(r"[&()\s]", "", text(p)))
                j += 1
                p = []
                while j < len(cc) and not isg(cc[j], "{"):
                    p.append(cc[j]); j += 1
                srcs[-1] = text(p, False).strip().lstrip("&").strip()
            else:
                pats.append("")
        was = (s.base.get(full) or {}).get("lets") or []
        def letn(n):
            # the local variable of the same name as in the baseline, else the n-th
            if n <= len(was) and was[n - 1] in lets:
                return was[n - 1]
            return lets[n - 1] if n <= len(lets) else "missing_let"
        def sub(t):
            t = re.sub(r"\$(\d)", lambda x: names[int(x.group(1)) - 1] if int(x.group(1)) <= len(names) else "missing_param", t)
            t = re.sub(r"\$let(\d+)", lambda x: letn(int(x.group(1))), t)
            t = re.sub(r"\$src(\d+)", lambda x: srcs[int(x.group(1))] if int(x.group(1)) < len(srcs) else "missing_src", t)
            t = re.sub(r"\$pat(\d+)", lambda x: pats[int(x.group(1))] if int(x.group(1)) < len(pats) else "missing_pat", t)
            return t
        head = ""
        for a in c.attrs:
            head += "#[" + a + "]\n"
        ext = degr or c.external or outside
        if ext:
            head += "#[verifier::external_body]\n"
        vis = "" if trait else "pub "
        quals = [q for q in it.quals if q not in ("default",)]
        sig = vis + " ".join(quals) + (" " if quals else "") + "fn " + it.name + text(it.gen) + "(" + text(clean(copy(it.params.ch)), False) + ")"
        if it.ret:
            sig += " -> (" + c.ret + ": " + text(it.ret, False).strip() + ")"
        if it.where:
            sig += " " + text(it.where).strip()
        lost = []
        s.report["functions"][full] = dict(calls=sorted(set(calls_of(body.ch, []))) if body else [], closures=inline.closures(body.ch) if body else 0, ranges=inline.ranges(body.ch) if body else 0, kinds=kinds if body else [], heads=[x for x in srcs if x != "missing_src"],
                                           contract=bool(c.clauses), external=bool(c.external), degraded=degr, outside=outside,
                                           loops=[k for _, _, k in loops], lets=lets, clauses=len(c.clauses),
                                           hints=int(bool(c.loops or c.after or c.before or c.begin.strip() or c.tail.strip())))
        if body is None:
            return head + sig + "\n" + emit_clauses(c.clauses, sub) + ";\n"
        if ext:
            cl = emit_clauses([x for x in c.clauses if x[0] != "decreases"], sub)
            return "/*@FN %s*/\n" % full + head + sig + "\n" + cl + "{ unimplemented!() }\n/*@END*/\n"
        for a, b in c.rewrites + s.vc.globals:
            k = rewrite_tokens(body.ch, parse(a), parse(b))
            if k:
                s.report["rewrites"]["%s: %s -> %s" % (full, a, b)] = k
        if c.tail.strip():
            st = statements(body.ch)
            if st:
                a, b = st[-1]
                body.ch[a:b] = [Raw("let tail__ = ")] + body.ch[a:b] + [Raw(";\n" + sub(c.tail) + "\n tail__\n")]
        # loops, last first so that indices stay valid
        loops = find_loops(body.ch, [])
        for idx in range(len(loops) - 1, -1, -1):
            cc, i, kind = loops[idx]
            L = c.loops.get(idx)
            j = i + 1
            if kind == "for":
                while not is_(cc[j], "in"):
                    j += 1
                inpos = j
                j += 1
            while j < len(cc) and not isg(cc[j], "{"):
                j += 1
            if j >= len(cc):
                continue
            bodyg = cc[j]
            if L:
                if L["begin"].strip():
                    bodyg.ch.insert(0, Raw(sub(L["begin"])))
                if L["end"].strip():
                    bodyg.ch.append(Raw(sub(L["end"])))
                cl = emit_clauses(L["clauses"], sub, "        ")
                if cl:
                    cc.insert(j, Raw(cl, "\n"))
            if kind == "for":
                it_name = (L and L["iter"]) or ("it__%d" % idx)
                cc.insert(inpos + 1, Raw(" " + it_name + ":", ""))
        for idx in c.loops:
            if idx >= len(loops):
                lost.append("loop %d" % idx)
        for (rx, tx) in c.after:
            if not (insert_at_loop(body, Raw(sub(tx)), True) if rx in ("for", "while", "loop") else insert_in_blocks(body, rx, Raw(sub(tx)), True)):
                lost.append("after " + rx)
        for (rx, tx) in c.before:
            if not (insert_at_loop(body, Raw(sub(tx)), False) if rx in ("for", "while", "loop") else insert_in_blocks(body, rx, Raw(sub(tx)), False)):
                lost.append("before " + rx)
        if c.begin.strip():
            body.ch.insert(0, Raw(sub(c.begin)))
        if lost:
            s.report["anchors_lost"][full] = lost
        txt = text([body], False)
        return "/*@FN %s*/\n" % full + head + sig + "\n" + emit_clauses(c.clauses, sub) + txt + "\n/*@END*/\n"

    # -- types
    def typedef(s, it, mod):
        m = s.vc.mods.get(mod)
        opts = (m["types"].get(it.name, []) if m else [])
        if "drop" in opts:
            s.report["dropped"].append(mod + "::" + it.name)
            return ""
        ds = derives(it)
        gen = text(it.gen, False).strip()
        body = it.body
        froms = []
        unit = True
        o = ""
        if it.kind == "enum":
            vs = []
            # pick out #[from] before cleaning
            cur_name = None
            ch = body.ch
            for i, t in enumerate(ch):
                if t.k == "ident" and i + 1 < len(ch) and isinstance(ch[i + 1], Group) and not (i and is_(ch[i - 1], "#")):
                    g = ch[i + 1]
                    unit = False
                    if len(g.ch) > 1 and is_(g.ch[0], "#") and norm(g.ch[1].ch) == "from":
                        froms.append((t.t, text(g.ch[2:], False).strip().rstrip(",")))
            b = clean(copy(body.ch))
            o += "pub enum %s%s {%s\n}\n" % (it.name, gen, text(b))
        else:
            unit = False
            if body is None:
                o += "pub struct %s%s;\n" % (it.name, gen)
            elif body.d == "(":
                fs = [f for f in split(clean(copy(body.ch)), ",") if f]
                o += "pub struct %s%s(%s);\n" % (it.name, gen, ", ".join("pub " + s.strip_vis(f) for f in fs))
            else:
                fs = s.split_fields(clean(copy(body.ch)))
                o += "pub struct %s%s {\n%s}\n" % (it.name, gen, "".join("    pub " + s.strip_vis(f) + ",\n" for f in fs))
        if "Copy" in ds:
            o = "#[derive(Copy)]\n" + o
        gi = "impl" + gen + " "
        if "Clone" in ds:
            o += gi + "Clone for %s%s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self%s { unimplemented!() } }\n" % (it.name, gen, ", r@ == self@" if "view" in opts else "")
        if "Debug" in ds:
            o += "#[verifier::external] impl%s core::fmt::Debug for %s%s { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }\n" % (gen, it.name, gen)
        if "Default" in ds and "nodefault" not in opts:
            o += gi + "Default for %s%s { #[verifier::external_body] fn default() -> (r: Self) %s { unimplemented!() } }\n" % (it.name, gen, s.default_ens(it))
        if "PartialEq" in ds and "noeq" not in opts:
            e = "self@ == o@" if "view" in opts else "*self == *o"
            o += gi + "PartialEq for %s%s { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }\n" % (it.name, gen)
            o += "impl%s vstd::std_specs::cmp::PartialEqSpecImpl for %s%s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { %s } }\n" % (gen, it.name, gen, e)
        if it.kind == "enum" and not gen:
            # std::mem::discriminant(a) == std::mem::discriminant(b)
            vs = variants_of(b)
            arms = "".join("(%s::%s, %s::%s) => true, " % (it.name, v + p, it.name, v + p) for v, p in vs)
            rest = "_ => false, " if len(vs) > 1 else ""
            o += "impl crate::th2::SameVariant for %s { open spec fn sv(&self, o: &Self) -> bool { match (*self, *o) { %s%s} }\n    #[verifier::external_body] fn same_variant(&self, o: &Self) -> (r: bool) { unimplemented!() } }\n" % (it.name, arms, rest)
        ax = []
        for v, ty in froms:
            # what `?` does with an error of that type: vstd leaves the result of From::from on this path open
            ax.append("#[verifier::external_body] pub broadcast proof fn f%d(e: %s, r: %s) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<%s, %s>(e, r) ==> r == %s::%s(e) {}\n" % (len(ax), ty, it.name, it.name, ty, it.name, v))
            s.from_ax.append("crate::%s::from_ax_%s::f%d" % (mod, it.name, len(ax) - 1))
            o += "impl From<%s> for %s { fn from(e: %s) -> (r: Self) ensures r == %s::%s(e) { %s::%s(e) } }\n" % (ty, it.name, ty, it.name, v, it.name, v)
            o += "impl vstd::std_specs::convert::FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: %s) -> Self { %s::%s(e) } }\n" % (ty, it.name, ty, it.name, v)
        if ax:
            o += "pub mod from_ax_%s { use super::*;\n%s}\n" % (it.name, "".join(ax))
        return o

    def default_ens(s, it):
        fs = s.split_fields(clean(copy(it.body.ch)))
        ens = []
        for f in fs:
            f = s.strip_vis(f)
            n, _, t = f.partition(":")
            if re.match(r"\s*Option\b", t):
                ens.append("r.%s is None" % n.strip())
        return ("ensures " + ", ".join(ens)) if ens else ""

    def strip_vis(s, f):
        i = 0
        if is_(f[0], "pub"):
            i = 1
            if isg(f[1], "("):
                i = 2
        return text(f[i:], False).strip()

    def split_fields(s, ch):
        out, cur, ang = [], [], 0
        for t in ch:
            if is_(t, "<"): ang += 1
            if is_(t, ">"): ang -= 1
            if is_(t, ",") and ang <= 0:
                if cur: out.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur: out.append(cur)
        return out

    def impl(s, it, mod):
        h = it.head
        # generics
        i = 0
        gen = []
        if h and is_(h[0], "<"):
            d = 0
            while True:
                gen.append(h[i])
                if is_(h[i], "<"): d += 1
                if is_(h[i], ">"): d -= 1
                i += 1
                if d == 0:
                    break
        rest = h[i:]
        tr = None
        for k, t in enumerate(rest):
            if is_(t, "for"):
                tr, rest = rest[:k], rest[k + 1:]
                break
        wh = []
        for k, t in enumerate(rest):
            if is_(t, "where"):
                wh, rest = rest[k:], rest[:k]
                break
        ty = text(rest, False).strip()
        gtx = text(gen, False).strip()
        trt = text(tr, False).strip() if tr else None
        tyk = re.sub(r"<'[a-z_]+>", "", re.sub(r"\s+", "", ty))
        ctx = ("<%s as %s>" % (tyk, trt)) if trt else tyk
        m = s.vc.mods.get(mod)
        ck = re.sub(r"\s+", "", ctx)
        if m and ck in m["skip"]:
            s.report["dropped"].append(mod + "::" + ck)
            return ""
        short = trt.split("<")[0].split("::")[-1] if trt else None
        items = [x for x in parse_items(s.expand_items(it.body, mod)) if keep(x)]
        s.assoc = {}
        for x in items:
            if x.kind == "type" and any(is_(t, "=") for t in x.toks):
                e = next(q for q, t in enumerate(x.toks) if is_(t, "="))
                s.assoc[x.name] = inline.nolife([t for t in x.toks[e + 1:] if not is_(t, ";")])
        has = bool(m) and any(k.startswith(ck + "::") for k in m["fns"])
        if short in ("Hash", "Debug", "Ord", "PartialOrd", "Eq") or (short in ("Display", "PartialEq", "Iterator") and not has):
            s.report["dropped"].append(mod + "::" + ck)
            return ""
        pre = ""
        if short == "TryFrom":
            src = trt[trt.index("<") + 1:trt.rindex(">")]
            pre = "impl%s vstd::std_specs::convert::TryFromSpecImpl<%s> for %s { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: %s) -> Result<Self, <Self as TryFrom<%s>>::Error> { arbitrary() } }\n" % (gtx, src, ty, src, src)
        if short == "From":
            src = trt[trt.index("<") + 1:trt.rindex(">")]
            pre = "impl%s vstd::std_specs::convert::FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: %s) -> Self { arbitrary() } }\n" % (gtx, src, ty, src)
        if short == "PartialEq":
            src = trt[trt.index("<") + 1:trt.rindex(">")] if "<" in trt else ty
            pre = "impl%s vstd::std_specs::cmp::PartialEqSpecImpl<%s> for %s { open spec fn obeys_eq_spec() -> bool { %s } open spec fn eq_spec(&self, o: &%s) -> bool { eqs_%s(self, o) } }\n" % (gtx, src, ty, "false" if "unspecified eq" in ((m or {}).get("spec") or "") else "true", src, re.sub(r"\W", "", src))
        o = pre
        if short == "Iterator":
            # an iterator of the repository: next becomes an inherent function (loops over it are rewritten to call it)
            item = next((x.toks for x in items if x.kind == "type"), None)
            if item is not None:
                e = next(q for q, t in enumerate(item) if is_(t, "="))
                itm = [t for t in item[e + 1:] if not is_(t, ";")]
                for x in items:
                    if x.kind == "fn":
                        g = Group("{", list(x.ret))
                        rewrite_tokens(g.ch, parse("Self::Item"), itm)
                        x.ret = g.ch
                items = [x for x in items if x.kind != "type"]
            trt = None
        if short == "Display":
            trt = "crate::vfmt::Display"
        o += "impl" + gtx + " " + (trt + " for " if trt else "") + ty + " " + text(wh).strip() + " {\n"
        extra = m["spec"] if False else ""
        for x in items:
            if x.kind == "fn":
                o += s.fn(x, mod, ctx, bool(trt))
            elif x.kind in ("type", "const"):
                o += ("" if trt else "pub ") + text(x.toks, False) + ";\n"
            else:
                s.report["errors"].append("impl item %s in %s" % (x.kind, ck))
        if m and ("impl " + ck) in m["types"]:
            o += " ".join(m["types"]["impl " + ck])
        o += "}\n"
        s.assoc = {}
        return o

    def expand_items(s, ch, mod):
        """expand item-position macro calls inside an impl body"""
        out = []
        i = 0
        while i < len(ch):
            t = ch[i]
            if t.k == "ident" and t.t in s.macros and i + 2 < len(ch) and is_(ch[i + 1], "!") and isinstance(ch[i + 2], Group):
                out += s.expand_items(macro_expand(s.macros[t.t], ch[i + 2].ch), mod)
                i += 3
                if i < len(ch) and is_(ch[i], ";"):
                    i += 1
                continue
            out.append(t)
            i += 1
        return out

    DROPUSE = ("thiserror", "lazy_static", "cfg_if", "bitflags")
    def use(s, it, mod):
        t = text(it.toks, False)
        n = norm(it.toks)
        if any(("use " + d) in n for d in s.DROPUSE):
            return ""
        if n.startswith("use std::fmt") or n.startswith("use core::fmt"):
            return ""
        n2 = re.sub(r"\s+", " ", t)
        n2 = re.sub(r"fmt::\{[^}]*\},?", "", n2)
        n2 = n2.replace("use bytes::", "use crate::bytes::").replace("use std::str::Split", "use crate::th::Split")
        n2 = re.sub(r"^use std::iter::Iterator$", "", n2)
        if not n2.strip():
            return ""
        return "pub " + n2 + ";\n"

    def module(s, ch, mod, path):
        items = [x for x in parse_items(ch) if keep(x)]
        uses, body, subs = "", "", ""
        m = s.vc.mods.get(mod)
        for it in items:
            if it.kind == "macro_rules":
                s.macros[it.name] = macro_def(it.body)
        lazies = []
        for it in items:
            k = it.kind
            if k == "use":
                uses += s.use(it, mod)
            elif k == "mod":
                p = (mod + "::" if mod else "") + it.name
                if it.body is not None:
                    subs += s.module(it.body, p, path)
                else:
                    base = os.path.dirname(path) if os.path.basename(path) in ("mod.rs", "lib.rs") else path[:-3]
                    f1 = os.path.join(base, it.name + ".rs")
                    f2 = os.path.join(base, it.name, "mod.rs")
                    f = f1 if os.path.exists(f1) else f2
                    for a in it.attrs:
                        if a and is_(a[0], "path"):
                            f = os.path.join(base, a[2].t.strip('"'))
                    saved = dict(s.macros)
                    subs += s.module(parse(open(f).read()), p, f)
                    s.macros = saved
            elif k == "fn":
                body += s.fn(it, mod, "", False)
            elif k in ("struct", "enum"):
                body += s.typedef(it, mod)
            elif k in ("const", "static"):
                d = [t for t in clean(it.toks)]
                txt = text(d, False)
                head = txt.split("=")[0]
                hidden = (re.search(r"\bstatic\s+mut\b", head) or re.search(r"\b(\w*Cell|Atomic\w+|Mutex|RwLock|Once\w*|Lazy\w*)\b", head)
                          or re.search(r"&\s*('static\s*)?\[", head)
                          or re.search(r"\[[^\[\]]*;[^\[\]]*\]", txt[len(head):]))
                if not hidden:
                    txt = re.sub(r"^\s*(pub\s*(\([^)]*\)\s*)?)?static\b", "const", txt)
                else:
                    # outside the verifier's reach: what uses it is set aside
                    body += "#[verifier::external] "
                body += "pub " + txt + ";\n"
            elif k == "type":
                body += "pub " + text(it.toks, False) + ";\n"
            elif k == "impl":
                body += s.impl(it, mod)
            elif k == "macro" and it.name == "lazy_static":
                for d in split(it.body, ";"):
                    d = [t for t in d]
                    if not d: continue
                    names = [j for j, t in enumerate(d) if is_(t, "ref")]
                    j = names[0]
                    nm = d[j + 1].t
                    e = next(q for q, t in enumerate(d) if is_(t, "="))
                    ty, ex = d[j + 3:e], d[e + 1:]
                    f = Item("fn", [], nm, None, quals=[], gen=[], params=Group("(", []), ret=ty, where=[], body=Group("{", copy(ex), " "), line=0)
                    body += s.fn(f, mod, "", False)
                    lazies.append(nm)
            elif k == "macro" and it.name == "bitflags":
                body += s.bitflags(it, mod)
            elif k == "macro" and it.name in s.macros:
                for x in parse_items(macro_expand(s.macros[it.name], it.body)):
                    if x.kind == "impl": body += s.impl(x, mod)
                    elif x.kind == "fn": body += s.fn(x, mod, "", False)
            elif k == "macro_rules":
                pass
            else:
                s.report["errors"].append("item %s %s in %s" % (k, it.name, mod))
        for nm in lazies:
            body = re.sub(r"\b%s\b(?!\s*\()" % nm, nm + "()", body)
            body = body.replace("fn %s()()" % nm, "fn %s()" % nm)
        spec = m["spec"] if m else ""
        use_extra = m["use"] if m else ""
        bu = ""
        if m and "broadcast use {" in spec:
            spec = spec.replace("broadcast use {", "broadcast use {crate::from_ax::all_from, ", 1)
        elif m:
            bu = "broadcast use crate::from_ax::all_from;\n"
        hdr = "/*@MOD %s*/\n" % (mod or "crate") + "use vstd::prelude::*;\n#[allow(unused_imports)] use crate::th::*;\n#[allow(unused_imports)] use crate::th2::*;\n#[allow(unused_imports)] use crate::vfmt::*;\n"
        out = hdr + uses + use_extra + "verus! {\n" + bu + spec + body + "} // verus!\n" + subs
        if m:
            for k in m["fns"]:
                if k not in s.seen.get(mod, set()):
                    s.report["missing_fns"].append(mod + "::" + k)
        if mod == "":
            return out
        return "pub mod %s {\n%s}\n" % (mod.split("::")[-1], out)

    def bitflags(s, it, mod):
        # struct Name: u8 { const A = 1; ... }
        items = parse_items([t for t in it.body if True]) if False else None
        ch = [t for t in it.body]
        j = next(q for q, t in enumerate(ch) if is_(t, "struct"))
        nm = ch[j + 1].t
        ty = ch[j + 3].t
        g = ch[j + 4]
        consts = []
        for d in split(clean(copy(g.ch)), ";"):
            if not d: continue
            q = next(q for q, t in enumerate(d) if is_(t, "const"))
            e = next(q for q, t in enumerate(d) if is_(t, "="))
            consts.append((d[q + 1].t, text(d[e + 1:], False).strip()))
        allb = "%d%s" % (eval(" | ".join("(%s)" % re.sub(r"(?<=[0-9a-fA-F])(u8|u16|u32|u64)$", "", v) for _, v in consts), {"__builtins__": {}}), ty)
        o = "#[derive(Copy)]\npub struct %s { pub bits: %s }\n" % (nm, ty)
        o += "impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n" % nm
        o += "impl PartialEq for %s { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }\n" % nm
        o += "impl vstd::std_specs::cmp::PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }\n" % nm
        o += "impl %s {\n" % nm
        for n, v in consts:
            o += "    pub const %s: %s = %s { bits: %s };\n" % (n, nm, nm, v)
        o += "    pub open spec fn all_bits() -> %s { %s }\n" % (ty, allb)
        o += "    pub fn from_bits(b: %s) -> (r: Option<%s>) ensures match r { Some(f) => f.bits == b && b & !(%s) == 0, None => b & !(%s) != 0 } { if b & !(%s) == 0 { Some(%s { bits: b }) } else { None } }\n" % (ty, nm, allb, allb, allb, nm)
        o += "    pub const fn bits(&self) -> (r: %s) ensures r == self.bits { self.bits }\n" % ty
        o += "    pub const fn empty() -> (r: %s) ensures r.bits == 0 { %s { bits: 0 } }\n" % (nm, nm)
        o += "    pub fn contains(&self, o: %s) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) { self.bits & o.bits == o.bits }\n" % nm
        o += "    pub fn intersects(&self, o: %s) -> (r: bool) ensures r == (self.bits & o.bits != 0) { self.bits & o.bits != 0 }\n" % nm
        o += "    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 }\n"
        o += "    pub fn all() -> (r: %s) ensures r.bits == %s { %s { bits: %s } }\n" % (nm, allb, nm, allb)
        o += "    pub fn from_bits_truncate(b: %s) -> (r: %s) ensures r.bits == b & %s { %s { bits: b & %s } }\n" % (ty, nm, allb, nm, allb)
        o += "    pub fn insert(&mut self, o: %s) ensures final(self).bits == old(self).bits | o.bits { self.bits = self.bits | o.bits; }\n" % nm
        o += "    pub fn remove(&mut self, o: %s) ensures final(self).bits == old(self).bits & !o.bits { self.bits = self.bits & !o.bits; }\n" % nm
        o += "}\n"
        for tr, f, e in (("BitOr", "bitor", "self.bits | o.bits"), ("BitAnd", "bitand", "self.bits & o.bits"), ("BitXor", "bitxor", "self.bits ^ o.bits"), ("Sub", "sub", "self.bits & !o.bits")):
            o += "impl core::ops::%s for %s { type Output = %s; fn %s(self, o: %s) -> (r: %s) { %s { bits: %s } } }\n" % (tr, nm, nm, f, nm, nm, nm, e)
            o += "impl vstd::std_specs::ops::%sSpecImpl<%s> for %s { open spec fn obeys_%s_spec() -> bool { true } open spec fn %s_req(self, o: %s) -> bool { true } open spec fn %s_spec(self, o: %s) -> %s { %s { bits: %s } } }\n" % (tr, nm, nm, f, f, nm, f, nm, nm, nm, e)
            if tr != "Sub":
                o += "impl core::ops::%sAssign for %s { fn %s_assign(&mut self, o: %s) { self.bits = %s; } }\n" % (tr, nm, f, nm, e)
                o += "impl vstd::std_specs::ops::%sAssignSpecImpl<%s> for %s { open spec fn obeys_%s_assign_spec() -> bool { true } open spec fn %s_assign_req(&self, o: %s) -> bool { true } open spec fn %s_assign_spec(&self, o: %s) -> &%s { &%s { bits: %s } } }\n" % (tr, nm, nm, f, f, nm, f, nm, nm, nm, e)
        o += "impl core::ops::Not for %s { type Output = %s; fn not(self) -> (r: %s) { %s { bits: !self.bits & %s } } }\n" % (nm, nm, nm, nm, allb)
        o += "impl vstd::std_specs::ops::NotSpecImpl for %s { open spec fn obeys_not_spec() -> bool { true } open spec fn not_req(self) -> bool { true } open spec fn not_spec(self) -> %s { %s { bits: !self.bits & %s } } }\n" % (nm, nm, nm, allb)
        return o

    def find_helpers(s, base):
        """functions that are not in the baseline and have no contract: expanded at their calls where possible"""
        root = os.path.join(s.repo, "src", "lib.rs")
        s.collect = {}
        try:
            s.module(parse(open(root).read()), "", root)
        except (LexError, MacroError, OSError, StopIteration, IndexError):
            s.collect = None
            return
        got, s.collect = s.collect, None
        kinds = {}
        for full, (it, body, mod, ctx, trait, key, fr) in got.items():
            r = norm(it.ret)
            kinds.setdefault(it.name, set()).add("opt" if re.match(r"(\w+::)*Option<", r) else "res" if re.match(r"(\w+::)*\w*Result\b", r) else None)
        s.rets = dict((k, list(v)[0]) for k, v in kinds.items() if len(v) == 1 and None not in v)
        s.seen, s.macros, s.lazy, s.from_ax = {}, {}, [], []
        rep = s.report
        for k in ("dropped", "missing_fns", "errors", "uncontracted"):
            rep[k] = []
        hs = []
        for full, (it, body, mod, ctx, trait, key, fr) in got.items():
            m = s.vc.mods.get(mod)
            if full in base or trait or body is None or (m and key in m["fns"]):
                continue
            hs.append(inline.Helper(full, mod, ctx, it, body))
        s.helpers = [h for h in hs if h.ok]
        if not s.helpers:
            return
        # helpers whose every call (in the modules verified) is expanded need no verification of their own
        left = set()
        names = {}
        for h in s.helpers:
            names.setdefault(h.name, []).append(h.full)
        others = set(k.split("::")[-1] for k in got if k not in set(h.full for h in s.helpers))
        bymod = dict((h.full, h.mod) for h in s.helpers)
        def near(nm, mod):
            return [f for f in names[nm] if bymod[f] == mod or nm not in others]
        hfull = set(h.full for h in s.helpers)
        free = set(h.name for h in s.helpers if not h.ctx)
        for full, (it, body, mod, ctx, trait, key, fr) in got.items():
            if body is None or full in hfull or (s.modules is not None and mod not in s.modules):
                continue
            b = Group("{", inline.cp(body.ch))
            inline.inline_calls(b, s.helpers, mod, ctx, fr)
            for nm in names:
                if inline.calls(b.ch, nm, nm in free):
                    left |= set(near(nm, mod))
        # a helper that stays is verified on its own and may use the others
        s.absorbed = hfull - left
        if left:
            for full in list(left & hfull):
                b = Group("{", inline.cp(got[full][1].ch))
                inline.inline_calls(b, [h for h in s.helpers if h.full != full], got[full][2], got[full][3], got[full][6])
                for nm in names:
                    if inline.calls(b.ch, nm, nm in free):
                        s.absorbed -= set(near(nm, got[full][2]))

    def run(s, theory, base=None):
        if base:
            s.base = base
            s.find_helpers(base)
        root = os.path.join(s.repo, "src", "lib.rs")
        try:
            body = s.module(parse(open(root).read()), "", root)
        except (LexError, MacroError, OSError, StopIteration, IndexError) as e:
            import traceback; s.report["errors"].append("extraction: %r %s" % (e, traceback.format_exc()[-600:]))
            return None
        return "#![feature(allocator_api)]\n#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals, private_interfaces, ambiguous_glob_reexports, hidden_glob_reexports)]\n" + theory + body + "\npub mod from_ax { use vstd::prelude::*;\nverus! {\npub broadcast group all_from { " + ", ".join(s.from_ax) + " }\n}\n}\nfn main() {}\n"

def load(contracts):
    vc = VC()
    for f in sorted(os.listdir(contracts)):
        if f.endswith(".vc"):
            parse_vc(os.path.join(contracts, f), vc)
    th = ""
    for f in sorted(os.listdir(contracts)):
        if f.endswith(".rs"):
            th += "/*@FILE %s*/\n" % f + open(os.path.join(contracts, f)).read() + "\n"
    return vc, th

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--contracts", default=os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts"))
    ap.add_argument("--out", required=True)
    ap.add_argument("--report")
    ap.add_argument("--degrade", default="")
    ap.add_argument("--ext-uncontracted", action="store_true")
    a = ap.parse_args()
    vc, th = load(a.contracts)
    ex = Extractor(a.repo, vc, [x for x in a.degrade.split(",") if x], a.ext_uncontracted)
    src = ex.run(th)
    if src is None:
        print(ex.report["errors"]); sys.exit(2)
    open(a.out, "w").write(src)
    if a.report:
        json.dump(ex.report, open(a.report, "w"), indent=1)
    for k in ("errors", "anchors_lost", "missing_fns"):
        if ex.report[k]:
            print(k, ex.report[k])
