"""Mechanical expansion of helper functions that are new in the tree (no contract, not in the baseline) at their
call sites, so that a caller's contract is still checked against the code that runs. Whatever cannot be expanded
faithfully is left as a call (the caller is then reported as undecided if its proof needs the helper)."""
import re
from rustlex import Tok, Group, parse, text, norm, is_, isg

DEBUG = False
INL = -7   # line mark of a `let` made by the expansion (not counted as a local variable of the caller)

def cp(ch):
    return [Group(t.d, cp(t.ch), t.ws, t.cws, t.line) if isinstance(t, Group) else Tok(t.k, t.t, t.ws, t.line) for t in ch]

def split_args(ch):
    """split at commas; commas inside generics `::<..>` or closures do not occur at this level in practice"""
    out, cur, ang = [], [], 0
    for i, t in enumerate(ch):
        if is_(t, "::") and i + 1 < len(ch) and is_(ch[i + 1], "<"):
            ang += 1
        elif ang and is_(t, ">"):
            ang -= 1
        if is_(t, ",") and ang == 0:
            out.append(cur); cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out

def split_params(ch):
    out, cur, ang = [], [], 0
    for t in ch:
        if is_(t, "<"): ang += 1
        if is_(t, ">"): ang -= 1
        if is_(t, ",") and ang == 0:
            out.append(cur); cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out

def walk(ch):
    for t in ch:
        yield t
        if isinstance(t, Group):
            yield from walk(t.ch)

def closures(ch):
    n = 0
    for i, t in enumerate(ch):
        if (is_(t, "|") or is_(t, "||")) and (i == 0 or is_(ch[i - 1], ",") or is_(ch[i - 1], "=") or is_(ch[i - 1], "move") or is_(ch[i - 1], "return")):
            # an or-pattern inside `matches!(x, |..)` or a leading `|` of a match arm does not occur in call arguments
            n += 1
        if isinstance(t, Group):
            n += closures(t.ch)
    return n

def ranges(ch):
    """slices `x[a..b]`"""
    n = 0
    for i, t in enumerate(ch):
        if isinstance(t, Group):
            if t.d == "[" and i and (ch[i - 1].k == "ident" or isinstance(ch[i - 1], Group) or is_(ch[i - 1], "?")) and any(is_(x, "..") or is_(x, "..=") for x in t.ch):
                n += 1
            n += ranges(t.ch)
    return n

def nolife(ch):
    """a type without lifetimes"""
    s = norm(ch)
    s = re.sub(r"'[a-z_]\w*\s*", "", s)
    return re.sub(r"<\s*,?\s*>", "", s)

def type_toks(ch):
    """tokens of a type usable in a let: lifetimes elided"""
    out = []
    i = 0
    ch = cp(ch)
    while i < len(ch):
        t = ch[i]
        if t.k == "lifetime":
            if i and is_(ch[i - 1], "&"):
                i += 1
                continue
            t = Tok("lifetime", "'_", t.ws, t.line)
        if isinstance(t, Group):
            t = Group(t.d, type_toks(t.ch), t.ws, t.cws, t.line)
        out.append(t)
        i += 1
    return out

def diverges(ch):
    """does the body contain return or ? (anywhere)"""
    return any(is_(t, "return") or is_(t, "?") for t in walk(ch))

KWEND = ("if", "match", "for", "while", "loop", "unsafe")

def last_stmt(ch):
    """index where the tail expression of a block starts, or None if the block has no tail expression"""
    from extract import statements
    st = statements(ch)
    if not st:
        return None
    a, b = st[-1]
    if is_(ch[b - 1], ";"):
        return None
    return a

class Bail(Exception):
    pass

def unwrap_tail(ch, ok, err):
    """turn a block of type Result/Option into one of its value: Ok(x) -> x, Err(e) -> return Err(e), e -> e? """
    a = last_stmt(ch)
    if a is None:
        # the block ends with `return ..;` or never ends
        return
    leaf(ch, a, ok, err)

def leaf(ch, a, ok, err):
    t = ch[a]
    if isg(t, "{") and a == len(ch) - 1:
        unwrap_tail(t.ch, ok, err)
        return
    if is_(t, "unsafe"):
        raise Bail()
    if is_(t, "if"):
        i = a
        seen_else = False
        while i < len(ch):
            if isg(ch[i], "{"):
                unwrap_tail(ch[i].ch, ok, err)
                if i + 1 < len(ch) and is_(ch[i + 1], "else"):
                    seen_else = not is_(ch[i + 2], "if")
                    i += 2
                    continue
                if i + 1 < len(ch):
                    raise Bail()
            i += 1
        return
    if is_(t, "match"):
        if not isg(ch[-1], "{"):
            raise Bail()
        arms = ch[-1].ch
        i = 0
        while i < len(arms):
            if is_(arms[i], "=>"):
                j = i + 1
                if isg(arms[j], "{"):
                    unwrap_tail(arms[j].ch, ok, err)
                    i = j + 1
                    continue
                while j < len(arms) and not is_(arms[j], ","):
                    j += 1
                e = arms[i + 1:j]
                leaf(e, 0, ok, err)
                arms[i + 1:j] = e
                i += 1
                continue
            i += 1
        return
    if is_(t, ok) and a + 2 == len(ch) and isg(ch[a + 1], "("):
        g = ch[a + 1]
        g.ws = t.ws
        if not g.ch:
            raise Bail()
        ch[a:] = [g]
        return
    if is_(t, err):
        ch.insert(a, Tok("ident", "return", t.ws, t.line))
        t.ws = " "
        return
    if is_(t, "return"):
        if a + 1 < len(ch) and is_(ch[a + 1], err):
            return
        raise Bail()
    e = ch[a:]
    ws = e[0].ws
    e[0].ws = ""
    ch[a:] = [Group("(", e, ws), Tok("op", "?", "", 0)]

def returns_fine(ch, err):
    """every explicit return is an error return"""
    for i, t in enumerate(ch):
        if is_(t, "return"):
            if not (i + 1 < len(ch) and is_(ch[i + 1], err)):
                return False
        if isinstance(t, Group) and not returns_fine(t.ch, err):
            return False
    return True

def place(ch):
    """a path of fields: a, a.b, self.x.y"""
    if not ch or ch[0].k != "ident":
        return False
    i = 1
    while i < len(ch):
        if not is_(ch[i], ".") or i + 1 >= len(ch) or ch[i + 1].k not in ("ident", "num"):
            return False
        i += 2
    return True

def subst_ref(ch, name, pl, amp):
    """name is a reference to the place pl: *name -> pl, name.x -> pl.x, name[..] -> pl[..], name -> & pl"""
    out = []
    i = 0
    while i < len(ch):
        t = ch[i]
        if isinstance(t, Group):
            out.append(Group(t.d, subst_ref(t.ch, name, pl, amp), t.ws, t.cws, t.line))
            i += 1
            continue
        if t.k == "ident" and t.t == name and not (out and is_(out[-1], ".")):
            nxt = ch[i + 1] if i + 1 < len(ch) else None
            if nxt is not None and is_(nxt, ":") and not is_(nxt, "::"):
                raise Bail()     # a field or binding of that name
            p = cp(pl)
            if out and is_(out[-1], "*") and (len(out) == 1 or not (out[-2].k in ("num", "ident") and out[-2].t not in ("return", "in", "if", "match", "while") or isinstance(out[-2], Group))):
                p[0].ws = out[-1].ws
                out.pop()
                out += p
            elif nxt is not None and (is_(nxt, ".") or isg(nxt, "[")):
                p[0].ws = t.ws
                out += p
            elif amp == "":
                p[0].ws = t.ws
                out += p
            else:
                a = parse(amp)
                a[0].ws = t.ws
                p[0].ws = " " if amp.endswith("mut") else ""
                out += a + p
            i += 1
            continue
        out.append(t)
        i += 1
    return out

def calls(ch, name, free=True):
    """is `name(..)` called, or `name` used as a value (not as the name of a field or a local variable)"""
    for i, t in enumerate(ch):
        if t.k == "ident" and t.t == name and ((i + 1 < len(ch) and isg(ch[i + 1], "(")) or (i and is_(ch[i - 1], "::")) or
                                               (free and len(ch) == 1)):
            return True
        if isinstance(t, Group) and calls(t.ch, name, free):
            return True
    return False

class Helper:
    def __init__(s, full, mod, ctx, item, body):
        s.full, s.mod, s.ctx, s.item, s.body = full, mod, ctx, item, body
        s.name = item.name
        s.params = [p for p in split_params(item.params.ch) if p]
        s.self_kind = None
        if s.params and not any(is_(t, ":") for t in s.params[0]) and any(is_(t, "self") for t in s.params[0]):
            n = norm(s.params[0])
            s.self_mut = "mut" in n and "&" not in n
            s.self_kind = "&mut" if "mut" in n and "&" in n else "&" if "&" in n else "val"
            s.params = s.params[1:]
        s.ok = body is not None and not item.where and not any(t.k == "ident" and t.t in ("const", "impl") for t in item.gen) and not any(is_(t, "impl") or is_(t, "dyn") for t in walk(item.params.ch))
        gens = [t for t in item.gen if t.k == "ident"]
        if gens:
            s.ok = False
        if body is not None and calls(body.ch, s.name, not ctx):
            s.ok = False
        if "async" in item.quals or "unsafe" in item.quals:
            s.ok = False
        s.ret = nolife(item.ret)
        s.div = body is not None and diverges(body.ch)

def own_type(ctx):
    m = re.match(r"^<(.*?)as", ctx) if ctx.startswith("<") else None
    return (m.group(1) if m else ctx).strip()

COPY = set("u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool char f64".split())

def expansion(h, args, recv, mode, fret, ptypes={}):
    """tokens of the block that replaces the call. mode: value | tail | try"""
    body = Group("{", cp(h.body.ch), " ", h.body.cws, h.body.line)
    pre = []
    selfarg = None
    if h.self_kind:
        if recv is None:
            raise Bail()
        if not (len(recv) == 1 and is_(recv[0], "self")):
            if not place(recv):
                raise Bail()
            if h.self_kind == "val":
                if any(t.k == "ident" and t.t == "self__" for t in walk(body.ch)):
                    raise Bail()
                for t in walk(body.ch):
                    if t.k == "ident" and t.t == "self":
                        t.t = "self__"
                selfarg = cp(recv)
            else:
                body.ch = subst_ref(body.ch, "self", recv, "&mut" if h.self_kind == "&mut" else "&")
        elif h.self_kind == "val":
            raise Bail()
    if len(args) != len(h.params):
        raise Bail()
    names = []
    for p in h.params:
        k = next(i for i, t in enumerate(p) if is_(t, ":"))
        pat = p[:k]
        mut = bool(pat) and is_(pat[0], "mut")
        if mut:
            pat = pat[1:]
        if len(pat) != 1 or pat[0].k != "ident":
            raise Bail()
        names.append((pat[0].t, mut, p[k + 1:]))
    pnames = set(n for n, _, _ in names)
    binds = []
    for (n, mut, ty), arg in zip(names, args):
        arg = cp(arg)
        if not arg:
            raise Bail()
        tyn = norm(ty)
        if re.match(r"^&('\w+)?mut\b", tyn.replace(" ", "")) or re.match(r"^&\s*('\w+\s*)?mut\b", tyn):
            if is_(arg[0], "&") and len(arg) > 2 and is_(arg[1], "mut") and place(arg[2:]):
                pl, amp = arg[2:], "&mut"
            elif len(arg) == 1 and arg[0].k == "ident":
                pl, amp = arg, ""          # itself a &mut variable (or self)
                if arg[0].t != n and any(t.k == "ident" and t.t == arg[0].t for t in walk(body.ch)):
                    raise Bail()
                if arg[0].t != n:
                    # *p -> *q, p.x -> q.x, p -> q
                    for t in walk(body.ch):
                        if t.k == "ident" and t.t == n:
                            t.t = arg[0].t
                continue
            elif is_(arg[0], "&") and len(arg) == 4 and is_(arg[1], "mut") and is_(arg[2], "*") and arg[3].k == "ident":
                if any(t.k == "ident" and t.t == arg[3].t for t in walk(body.ch)):
                    raise Bail()
                for t in walk(body.ch):
                    if t.k == "ident" and t.t == n:
                        t.t = arg[3].t
                continue
            else:
                raise Bail()
            if pl[0].t != "self" and any(t.k == "ident" and t.t == pl[0].t and t.t != n for t in walk(body.ch)):
                raise Bail()
            body.ch = subst_ref(body.ch, n, pl, amp)
            continue
        if len(arg) == 1 and arg[0].k == "ident" and arg[0].t == n and not mut:
            continue
        looped = any(is_(t, "for") or is_(t, "while") or is_(t, "loop") for t in walk(body.ch))
        if looped and not mut and not any(is_(t, "move") for t in walk(body.ch)):
            # facts about a variable bound before a loop are lost in it, so name the argument itself where that is the same
            used = lambda x: any(t.k == "ident" and t.t == x for t in walk(body.ch))
            one = len(arg) == 1 and arg[0].k == "ident" and not used(arg[0].t)
            if one and (nolife(ty) in COPY or ptypes.get(arg[0].t) == nolife(ty)):
                for t in walk(body.ch):
                    if t.k == "ident" and t.t == n:
                        t.t = arg[0].t
                continue
            if len(arg) == 1 and arg[0].k == "num" and nolife(ty) in COPY:
                body.ch = subst_ref(body.ch, n, arg, "")
                continue
            if len(arg) > 1 and is_(arg[0], "&") and place(arg[1:]) and norm(ty).startswith("&") and (arg[1].t == n or not used(arg[1].t)):
                body.ch = subst_ref(body.ch, n, arg[1:], "&")
                continue
        binds.append([n, mut, ty, arg])
    clash = any(t.k == "ident" and t.t in pnames and t.t != b[0] for b in binds for t in walk(b[3])) or any(t.k == "ident" and t.t == b[0] for b in binds for t in walk(b[3]))
    lets = []
    def let(n, mut, ty, arg):
        o = [Tok("ident", "let", "\n", INL)]
        if mut:
            o.append(Tok("ident", "mut", " ", INL))
        o.append(Tok("ident", n, " ", INL))
        if ty is not None:
            o.append(Tok("op", ":", "", INL))
            tt = type_toks(ty)
            tt[0].ws = " "
            o += tt
        o.append(Tok("op", "=", " ", INL))
        arg[0].ws = " "
        o += arg
        o.append(Tok("op", ";", "", INL))
        return o
    if selfarg:
        lets += let("self__", h.self_mut, None, selfarg)
    if clash:
        for b in binds:
            lets += let("in__" + b[0], False, b[2], b[3])
        for b in binds:
            lets += let(b[0], b[1], None, [Tok("ident", "in__" + b[0], " ", INL)])
    else:
        for b in binds:
            lets += let(*b)
    if h.div:
        if mode == "tail":
            pass        # the call is the result itself, so the types agree
        elif mode == "try":
            if h.ret.startswith("Result") or h.ret.endswith("Result") or "Result<" in h.ret:
                ok, err = "Ok", "Err"
            elif h.ret.startswith("Option"):
                ok, err = "Some", "None"
            else:
                raise Bail()
            def errty(r):
                m = re.match(r"^(?:\w+::)*\w*Result<(.*)>$", r)
                if not m:
                    return r
                parts, d, cur = [], 0, ""
                for c in m.group(1):
                    if c in "<([": d += 1
                    if c in ">)]": d -= 1
                    if c == "," and d == 0:
                        parts.append(cur); cur = ""
                    else:
                        cur += c
                parts.append(cur)
                return parts[-1] if len(parts) > 1 else r.split("<")[0]
            if errty(h.ret) != errty(fret) and not (ok == "Some" and fret.startswith("Option")):
                raise Bail()
            if not returns_fine(body.ch, err):
                raise Bail()
            unwrap_tail(body.ch, ok, err)
        else:
            raise Bail()
    body.ch = lets + body.ch
    return body

def inline_calls(body, helpers, mod, ctx, fret, params=None):
    """expand helper calls in body (a Group); returns the names expanded"""
    done = []
    me = own_type(ctx) if ctx else None
    ptypes = {}
    for p in split_params(params.ch) if params is not None else []:
        k = next((i for i, t in enumerate(p) if is_(t, ":")), None)
        if k == 1 and p[0].k == "ident":
            ptypes[p[0].t] = nolife(p[2:])
    byname = {}
    for h in helpers:
        if h.ok:
            byname.setdefault(h.name, []).append(h)
    def find(ch, i):
        """a call at position i (index of the name): helper, start index, receiver"""
        t = ch[i]
        if t.k != "ident" or t.t not in byname or i + 1 >= len(ch) or not isg(ch[i + 1], "("):
            return None
        prev = ch[i - 1] if i else None
        if prev is not None and is_(prev, "."):
            # method: receiver is a path of fields
            j = i - 2
            if j < 0 or ch[j].k not in ("ident", "num"):
                return None
            while j - 1 > 0 and is_(ch[j - 1], ".") and ch[j - 2].k in ("ident", "num"):
                j -= 2
            if j > 0 and (is_(ch[j - 1], ".") or is_(ch[j - 1], "::")):
                return None
            recv = ch[j:i - 1]
            hs = [h for h in byname[t.t] if h.self_kind and (len(recv) > 1 or not is_(recv[0], "self") or own_type(h.ctx) == me)]
            return (hs[0], j, recv) if len(hs) == 1 else None
        if prev is not None and is_(prev, "::"):
            q = ch[i - 2] if i >= 2 else None
            if q is None or q.k != "ident":
                return None
            if is_(q, "Self"):
                hs = [h for h in byname[t.t] if h.ctx and own_type(h.ctx) == me and not h.self_kind]
            elif is_(q, "self") or is_(q, "super"):
                return None
            else:
                hs = [h for h in byname[t.t] if h.ctx and own_type(h.ctx).split("<")[0] == q.t and not h.self_kind]
            if i >= 3 and is_(ch[i - 3], "::"):
                return None
            return (hs[0], i - 2, None) if len(hs) == 1 else None
        if prev is not None and is_(prev, "fn"):
            return None
        hs = [h for h in byname[t.t] if not h.ctx and h.mod == mod]
        return (hs[0], i, None) if len(hs) == 1 else None

    def one(ch, intail, isblock):
        i = 0
        while i < len(ch):
            r = find(ch, i)
            if r:
                h, a, recv = r
                end = i + 2
                mode = "value"
                if end < len(ch) and is_(ch[end], "?"):
                    mode = "try"
                elif a > 0 and is_(ch[a - 1], "return") or (intail and end == len(ch) and (a == 0 or is_(ch[a - 1], ";") or isg(ch[a - 1], "{"))):
                    mode = "tail"
                if h.mod != mod and not h.self_kind and h.ctx == "":
                    i += 1
                    continue
                try:
                    b = expansion(h, split_args(ch[i + 1].ch), recv, mode, fret, ptypes)
                    ws = ch[a].ws
                    if h.div and mode == "try":
                        end += 1
                    stmt = isblock and (a == 0 or is_(ch[a - 1], ";") or isg(ch[a - 1], "{")) and end < len(ch) and is_(ch[end], ";")
                    if stmt and h.ret in ("", "()"):
                        b.ws = ws
                        ch[a:end + 1] = [b]
                    else:
                        b.ws = ""
                        ch[a:end] = [Group("(", [b], ws)] if not (mode == "tail" and end == len(ch)) else ([Tok("op", ";", "", INL)] if a > 0 and isg(ch[a - 1], "{") else []) + [Group("{", b.ch, ws, b.cws, b.line)]
                    done.append(h.full)
                    return True
                except (Bail, StopIteration):
                    if DEBUG: import traceback; traceback.print_exc()
            t = ch[i]
            if isinstance(t, Group):
                tail = False
                if intail and t.d == "{":
                    from extract import statements
                    st = statements(ch)
                    x, y = st[-1] if st else (0, 0)
                    # the last expression: a block or the branches of an if
                    tail = x <= i < y and y == len(ch) and not is_(ch[y - 1], ";") and (is_(ch[x], "if") or i == x)
                if one(t.ch, tail, t.d == "{"):
                    return True
            i += 1
        return False
    for _ in range(12):
        if not one(body.ch, True, True):
            break
    return done
