"""Rewrites calls of Option / Result combinators whose function argument is written in place (a closure, a path) to
the `match` that is their definition, so that the verifier sees the code the closure holds. Only literal rewriting:
`R.map_or(D, |p| E)` is `match R { Some(p) => E, None => D }` by the documentation of std. What cannot be rewritten
faithfully (the closure returns, the kind of the receiver is not evident) is left alone."""
from rustlex import Tok, Group, parse, text, norm, is_, isg
from inline import split_args, walk, cp

OPT_RECV = set("strip_prefix strip_suffix first last get get_mut next next_back as_deref take split_first split_last split_once rsplit_once find rfind checked_add checked_sub checked_mul checked_rem checked_div ok err pop position rposition cloned copied to_digit peek max min nth ok_or".split()) - {"ok_or", "max", "min", "find"}
RES_RECV = set("parse try_from try_into from_utf8 from_str map_err ok_or ok_or_else".split())
OPT_NEXT = set("map_or map_or_else is_some is_none ok_or ok_or_else is_some_and is_none_or cloned copied filter".split())
RES_NEXT = set("map_err is_ok is_err ok err unwrap_or_else is_ok_and".split()) - {"unwrap_or_else"}

def path_arg(a):
    """a path used as a function: idents and ::"""
    return bool(a) and all(is_(t, "::") or t.k == "ident" for t in a) and a[-1].k == "ident" and not is_(a[0], "move") and not is_(a[0], "return")

def closure(a):
    """(pattern tokens list, body tokens) of a closure literal, or None"""
    i = 0
    if a and is_(a[0], "move"):
        i = 1
    if i < len(a) and is_(a[i], "||"):
        body = a[i + 1:]
        pats = []
    elif i < len(a) and is_(a[i], "|"):
        j = i + 1
        while j < len(a) and not is_(a[j], "|"):
            j += 1
        if j >= len(a):
            return None
        pats = split_args(a[i + 1:j])
        # type annotations are dropped
        for k, p in enumerate(pats):
            for q, t in enumerate(p):
                if is_(t, ":") and q:
                    pats[k] = p[:q]
                    break
        body = a[j + 1:]
    else:
        return None
    if not body or any(is_(t, "return") or is_(t, "?") for t in walk(body)):
        return None
    return pats, body

def apply_fn(a, fresh):
    """the argument as (pattern text, expression text) for one parameter"""
    c = closure(a)
    if c:
        if len(c[0]) != 1:
            return None
        return text(c[0][0], False).strip(), "{ " + text(c[1], False).strip() + " }"
    if path_arg(a):
        return fresh, text(a, False).strip() + "(" + fresh + ")"
    return None

def thunk(a):
    c = closure(a)
    if c and not c[0]:
        return "{ " + text(c[1], False).strip() + " }"
    if path_arg(a):
        return text(a, False).strip() + "()"
    return None

NAMES = set("map_or map_or_else is_some_and is_none_or is_ok_and map_err ok_or ok_or_else unwrap_or_else and_then map filter or_else then then_some".split())

def receiver(ch, dot):
    """start of the postfix chain that ends before ch[dot]"""
    i = dot - 1
    while i >= 0:
        t = ch[i]
        if is_(t, "?"):
            i -= 1
            continue
        if isinstance(t, Group):
            if t.d == "{":
                return None
            # call arguments, index, or a parenthesised expression
            if i > 0 and (ch[i - 1].k == "ident" and ch[i - 1].t not in ("return", "in", "if", "match", "while", "else", "let", "mut", "ref", "break") or isinstance(ch[i - 1], Group) and ch[i - 1].d in "([" or is_(ch[i - 1], "?")):
                i -= 1
                continue
            if i > 0 and is_(ch[i - 1], ">"):
                # turbofish
                j = i - 1
                d = 0
                while j >= 0:
                    if is_(ch[j], ">"): d += 1
                    if is_(ch[j], "<"):
                        d -= 1
                        if d == 0: break
                    j -= 1
                if j > 0 and is_(ch[j - 1], "::"):
                    i = j - 2
                    continue
                return None
            if i > 0 and is_(ch[i - 1], "!"):
                return None
            return i
        if t.k in ("ident", "num", "str", "char", "byte", "bytestr"):
            if i > 0 and (is_(ch[i - 1], ".") or is_(ch[i - 1], "::")):
                i -= 2
                if i >= 0 and is_(ch[i + 1], "::") and is_(ch[i], ">"):
                    return None
                continue
            return i
        return None
    return None

def last_method(ch):
    """name of the last call in a chain"""
    i = len(ch) - 1
    while i >= 0 and is_(ch[i], "?"):
        return None
    if i >= 1 and isg(ch[i], "("):
        j = i - 1
        if is_(ch[j], ">"):
            while j >= 0 and not is_(ch[j], "::"):
                j -= 1
            j -= 1
        if j >= 0 and ch[j].k == "ident":
            return ch[j].t
    return None

def kind_of(recv, nxt, rets):
    m = last_method(recv)
    if m == "as_ref" or m == "as_mut":
        j = len(recv) - 3
        return "opt" if nxt in OPT_NEXT else None
    if m in OPT_RECV:
        return "opt"
    if m in RES_RECV:
        return "res"
    if m in rets:
        return rets[m]
    if nxt in OPT_NEXT:
        return "opt"
    if nxt in RES_NEXT:
        return "res"
    if len(recv) >= 1 and recv[0].k == "ident" and recv[0].t in ("Some", "None") and len(recv) <= 2:
        return "opt"
    return None

def one(ch, cnt, rets):
    i = 0
    while i < len(ch):
        t = ch[i]
        if isinstance(t, Group):
            if one(t.ch, cnt, rets):
                return True
        elif t.k == "ident" and t.t in NAMES and i >= 2 and is_(ch[i - 1], ".") and i + 1 < len(ch) and isg(ch[i + 1], "("):
            a = receiver(ch, i - 1)
            if a is not None:
                nxt = ch[i + 3].t if i + 3 < len(ch) and is_(ch[i + 2], ".") and ch[i + 3].k == "ident" else None
                out = build(t.t, ch[a:i - 1], split_args(ch[i + 1].ch), cnt, nxt, rets)
                if out is not None:
                    line = t.line
                    g = parse("(" + out + ")")
                    g[0].ws = ch[a].ws or " "
                    mark(g, line)
                    ch[a:i + 2] = g
                    return True
        i += 1
    return False

def mark(ch, line):
    for t in ch:
        t.line = line
        if isinstance(t, Group):
            mark(t.ch, line)

def build(name, recv, args, cnt, nxt, rets):
    R = text(recv, False).strip()
    cnt[0] += 1
    v = "v__%d" % cnt[0]
    n = len(args)
    if name == "map_or" and n == 2:
        f = apply_fn(args[1], v)
        if f and kind_of(recv, None, rets) != "res":
            return "match %s { Some(%s) => %s, None => %s }" % (R, f[0], f[1], text(args[0], False).strip())
        return None
    if name == "map_or_else" and n == 2:
        f = apply_fn(args[1], v)
        c = closure(args[0])
        if f and c and not c[0]:
            return "match %s { Some(%s) => %s, None => %s }" % (R, f[0], f[1], thunk(args[0]))
        g = apply_fn(args[0], v)
        if f and c and len(c[0]) == 1:
            return "match %s { Ok(%s) => %s, Err(%s) => %s }" % (R, f[0], f[1], g[0], g[1])
        return None
    if name in ("is_some_and", "is_none_or", "is_ok_and") and n == 1:
        f = apply_fn(args[0], v)
        if f:
            return {"is_some_and": "match %s { Some(%s) => %s, None => false }", "is_none_or": "match %s { Some(%s) => %s, None => true }", "is_ok_and": "match %s { Ok(%s) => %s, Err(_) => false }"}[name] % (R, f[0], f[1])
        return None
    if name == "map_err" and n == 1:
        f = apply_fn(args[0], v)
        if f:
            return "match %s { Ok(ok__) => Ok(ok__), Err(%s) => Err(%s) }" % (R, f[0], f[1])
        return None
    if name == "ok_or" and n == 1:
        return None
    if name == "ok_or_else" and n == 1:
        e = thunk(args[0])
        return e and "match %s { Some(%s) => Ok(%s), None => Err(%s) }" % (R, v, v, e)
    if name == "unwrap_or_else" and n == 1:
        c = closure(args[0])
        if c and not c[0]:
            return "match %s { Some(%s) => %s, None => %s }" % (R, v, v, thunk(args[0]))
        if c and len(c[0]) == 1:
            f = apply_fn(args[0], v)
            return "match %s { Ok(ok__) => ok__, Err(%s) => %s }" % (R, f[0], f[1])
        return None
    if name == "then" and n == 1:
        e = closure(args[0]) and thunk(args[0])
        return e and "if %s { Some(%s) } else { None }" % (R, e)
    if name == "then_some" and n == 1:
        return "if %s { Some(%s) } else { None }" % (R, text(args[0], False).strip())
    if name in ("and_then", "map", "filter", "or_else") and n == 1:
        k = kind_of(recv, nxt, rets)
        if name == "filter":
            f = apply_fn(args[0], v)
            if k != "opt" or not f or not closure(args[0]):
                return None
            return "match %s { Some(%s) => if { let %s = &%s; %s } { Some(%s) } else { None }, None => None }" % (R, v, f[0], v, f[1], v)
        if name == "or_else":
            c = closure(args[0])
            if c and not c[0]:
                return "match %s { Some(%s) => Some(%s), None => %s }" % (R, v, v, thunk(args[0]))
            return None
        f = apply_fn(args[0], v)
        if not f or k is None:
            return None
        w = f[1] if name == "and_then" else None
        if k == "opt":
            return "match %s { Some(%s) => %s, None => None }" % (R, f[0], w or "Some(%s)" % f[1])
        return "match %s { Ok(%s) => %s, Err(err__) => Err(err__) }" % (R, f[0], w or "Ok(%s)" % f[1])
    return None

PATM = set("contains find trim_start_matches trim_end_matches".split())

def literal_patterns(ch):
    """str functions taking a pattern that is a literal -> the stand-in of that name"""
    for i, t in enumerate(ch):
        if isinstance(t, Group):
            literal_patterns(t.ch)
        elif t.k == "ident" and t.t in PATM and i and is_(ch[i - 1], ".") and i + 1 < len(ch) and isg(ch[i + 1], "("):
            g = ch[i + 1].ch
            lit = len(g) == 1 and g[0].k in ("str", "char") and not g[0].t.startswith("b")
            if lit or t.t.startswith("trim") and g and not any(is_(x, "|") or is_(x, "||") or isg(x, "[") for x in g):
                t.t += "_p"

def max_min(ch):
    """std::cmp::max(a, b) and min -> the stand-ins"""
    i = 0
    while i < len(ch):
        t = ch[i]
        if isinstance(t, Group):
            max_min(t.ch)
        elif t.k == "ident" and t.t in ("max", "min") and i + 1 < len(ch) and isg(ch[i + 1], "(") and len(split_args(ch[i + 1].ch)) == 2:
            j = i
            while j >= 2 and is_(ch[j - 1], "::") and ch[j - 2].k == "ident" and ch[j - 2].t in ("std", "core", "cmp"):
                j -= 2
            if not (j and (is_(ch[j - 1], ".") or is_(ch[j - 1], "::") or is_(ch[j - 1], "fn"))):
                g = parse("crate::th2::MaxMin::%s_p" % t.t)
                g[0].ws = ch[j].ws
                mark(g, t.line)
                ch[j:i + 1] = g
                i = j + len(g) - 1
        i += 1

def same(a, b):
    return len(a) == len(b) and all((isinstance(x, Group) and isinstance(y, Group) and x.d == y.d and same(x.ch, y.ch)) or (not isinstance(x, Group) and not isinstance(y, Group) and x.t == y.t) for x, y in zip(a, b))

def indexed(ch, i, expr, out):
    """collects the places where the loop variable i indexes expr; False when either is used in another way"""
    n, k = len(expr), 0
    while k < len(ch):
        if not isinstance(ch[k], Group) and same(ch[k:k + n], expr) and k + n < len(ch) and isg(ch[k + n], "[") and len(ch[k + n].ch) == 1 and is_(ch[k + n].ch[0], i) \
                and not (k and (is_(ch[k - 1], ".") or is_(ch[k - 1], "mut"))) and not (k + n + 1 < len(ch) and ch[k + n + 1].k == "op" and ch[k + n + 1].t.endswith("=") and ch[k + n + 1].t not in ("==", "<=", ">=", "!=")):
            out.append((ch, k))
            k += n + 1
            continue
        t = ch[k]
        if isinstance(t, Group):
            if not indexed(t.ch, i, expr, out):
                return False
        elif t.k == "ident" and (t.t == i or t.t == expr[0].t):
            return False
        k += 1
    return True

def for_patterns(ch, cnt):
    """`for &c in x`, `for c in x.iter().copied()` and `for i in 0..x.len()` with i only in `x[i]` -> `for r in x` and `*r`"""
    for q, t in enumerate(ch):
        if isinstance(t, Group):
            for_patterns(t.ch, cnt)
    q = -1
    while q + 1 < len(ch):
        q += 1
        if not is_(ch[q], "for") or q + 1 < len(ch) and is_(ch[q + 1], "<"):
            continue
        k = next((j for j in range(q + 1, len(ch)) if is_(ch[j], "in")), None)
        b = next((j for j in range(q + 1, len(ch)) if isg(ch[j], "{")), None)
        if k is None or b is None or b < k:
            continue
        pat, src, body = ch[q + 1:k], ch[k + 1:b], ch[b]
        r = "r%d__" % cnt[1]
        new = None
        if len(pat) == 2 and is_(pat[0], "&") and pat[1].k == "ident":
            new, bind = src, pat[1].t
        elif len(pat) == 1 and pat[0].k == "ident" and len(src) > 6 and isg(src[-1], "(") and is_(src[-2], "copied") and is_(src[-3], ".") and isg(src[-4], "(") and is_(src[-5], "iter") and is_(src[-6], "."):
            new, bind = src[:-3], pat[0].t
        elif len(pat) == 1 and pat[0].k == "ident" and len(src) > 5 and src[0].k == "num" and src[0].t in ("0", "0usize") and is_(src[1], "..") and isg(src[-1], "(") and not src[-1].ch and is_(src[-2], "len") and is_(src[-3], "."):
            expr, out = src[2:-3], []
            if all(x.k in ("ident", "num") or is_(x, ".") for x in expr) and expr[0].k == "ident" and indexed(body.ch, pat[0].t, expr, out) and out:
                for c, at in reversed(out):
                    g = parse("(*%s)" % r)
                    g[0].ws = c[at].ws
                    mark(g, c[at].line)
                    c[at:at + len(expr) + 1] = g
                new, bind = expr + parse(".iter()"), None
        if new is None:
            continue
        cnt[1] += 1
        if bind:
            l = parse(" let %s = *%s;" % (bind, r))
            mark(l, body.line)
            body.ch[0:0] = l
        h = parse(" %s" % r)
        h[0].ws = " "
        new[0].ws = " "
        mark(h, ch[q].line)
        ch[q + 1:b] = h + [ch[k]] + new
        q += len(h) + 1 + len(new)

def stmts(ch):
    from extract import statements
    return statements(ch)

def mentions(ts, x):
    return any(not isinstance(t, Group) and t.k == "ident" and t.t == x for t in walk(ts))

def let_of(ch, upto, name):
    """(start, end) of `let mut name = ...;` before position upto in this block"""
    for x, y in stmts(ch):
        if y <= upto and y - x > 4 and is_(ch[x], "let") and is_(ch[x + 1], "mut") and is_(ch[x + 2], name) and (is_(ch[x + 3], "=") or is_(ch[x + 3], ":")) and is_(ch[y - 1], ";"):
            return x, y
    return None

def as_for(ch, q):
    """while over an index or an iterator -> for"""
    b = next((j for j in range(q + 1, len(ch)) if isg(ch[j], "{")), None)
    if b is None or not is_(ch[q], "while"):
        return False
    head, body = ch[q + 1:b], ch[b]
    if is_(head[0], "let"):
        e = next((j for j, t in enumerate(head) if is_(t, "=")), None)
        if e is None or e + 5 != len(head) or head[e + 1].k != "ident" or not is_(head[e + 2], ".") or not is_(head[e + 3], "next") or not isg(head[e + 4], "(") or e != 3 or not is_(head[1], "Some") or not isg(head[2], "("):
            return False
        it = head[e + 1].t
        l = let_of(ch, q, it)
        if not l or not is_(ch[l[0] + 3], "=") or mentions(ch[l[1]:q], it) or mentions(ch[b:], it):
            return False
        src = ch[l[0] + 4:l[1] - 1]
        roots = [t.t for t in walk(src) if not isinstance(t, Group) and t.k == "ident"]
        if any(is_(t, "let") and j + 1 < len(ch) and ch[j + 1].t in roots for j, t in enumerate(ch[l[1]:q], l[1])):
            return False
        pat = cp(head[2].ch)
        pat[0].ws = src[0].ws = " "
        f = parse(" for")[0]; i = parse(" in")[0]
        f.ws = ch[q].ws
        mark([f, i], ch[q].line)
        ch[q:b] = [f] + pat + [i] + src
        del ch[l[0]:l[1]]
        return True
    # while i < x.len() { ..; i += 1; }
    if len(head) < 6 or head[0].k != "ident" or not is_(head[1], "<"):
        return False
    v = head[0].t
    l = let_of(ch, q, v)
    st = stmts(body.ch)
    if not l or not st or mentions(ch[l[1]:q], v) or mentions(ch[b + 1:], v) or any(is_(t, "continue") for t in walk(body.ch)):
        return False
    x, y = st[-1]
    if not (y - x == 4 and is_(body.ch[x], v) and is_(body.ch[x + 1], "+=") and body.ch[x + 2].t == "1"):
        return False
    z = ch[l[1] - 2]
    if z.k != "num" or z.t not in ("0", "0usize"):
        return False
    if not (is_(head[-2], "len") and isg(head[-1], "(") and not head[-1].ch and is_(head[-3], ".")):
        return False
    expr, out = head[2:-3], []
    if not expr or not all(t.k in ("ident", "num") or is_(t, ".") for t in expr) or expr[0].k != "ident" or not indexed(body.ch[:x], v, expr, out) or not out:
        return False
    del body.ch[x:y]
    f = parse(" for %s in 0..%s.len()" % (v, text(expr, False).strip()))
    f[0].ws = ch[q].ws
    mark(f, ch[q].line)
    ch[q:b] = f
    del ch[l[0]:l[1]]
    return True

def as_while(ch, q):
    """loop { if c { break; } .. } -> while !(c) { .. }"""
    if not is_(ch[q], "loop") or q + 1 >= len(ch) or not isg(ch[q + 1], "{"):
        return False
    body = ch[q + 1]
    st = stmts(body.ch)
    if len(st) == 1 and is_(body.ch[0], "if") and not is_(body.ch[1], "let") and len(body.ch) >= 5 and isg(body.ch[-1], "{") and is_(body.ch[-2], "else") and isg(body.ch[-3], "{") \
            and [t.t for t in body.ch[-1].ch if not isinstance(t, Group)] in (["break"], ["break", ";"]) and not any(isinstance(t, Group) for t in body.ch[-1].ch) and not any(is_(t, "else") for t in body.ch[1:-3]):
        f = parse(" while")
        f[0].ws = ch[q].ws
        mark(f, ch[q].line)
        ch[q:q + 2] = f + body.ch[1:-2]
        return True
    if len(st) < 2:
        return False
    x, y = st[0]
    s = body.ch[x:y]
    if not is_(s[0], "if") or is_(s[1], "let") or not isg(s[-1], "{") or any(is_(t, "else") for t in s) or [t.t for t in s[-1].ch if not isinstance(t, Group)] not in (["break"], ["break", ";"]) or any(isinstance(t, Group) for t in s[-1].ch):
        return False
    f = parse(" while !(%s)" % text(s[1:-1], False).strip())
    f[0].ws = ch[q].ws
    mark(f, ch[q].line)
    del body.ch[x:y]
    ch[q:q + 1] = f
    return True

def as_loop(ch, q):
    """while c { .. } -> loop { if !(c) { break; } .. }"""
    b = next((j for j in range(q + 1, len(ch)) if isg(ch[j], "{")), None)
    if b is None or not is_(ch[q], "while") or is_(ch[q + 1], "let") or any(is_(t, "let") for t in ch[q + 1:b]):
        return False
    g = parse(" if !(%s) { break; }" % text(ch[q + 1:b], False).strip())
    mark(g, ch[q].line)
    ch[b].ch[0:0] = g
    f = parse(" loop")
    f[0].ws = ch[q].ws
    mark(f, ch[q].line)
    ch[q:b] = f
    return True

def loop_kinds(body, want, breaks):
    """loops written with another keyword than the annotated ones, where the two are the same loop by definition"""
    from extract import find_loops
    for k, w in enumerate(want):
        l = find_loops(body.ch, [])
        if len(l) <= k or l[k][2] == w:
            continue
        if w == "loop" and not breaks(k):
            continue        # the annotations of a `loop` without facts at `break` fit a `while` as it is
        ch, q, _ = l[k]
        {"for": as_for, "while": as_while, "loop": as_loop}[w](ch, q)

def is_continue(ts):
    return [t.t for t in ts if not isinstance(t, Group)] in (["continue"], ["continue", ";"]) and not any(isinstance(t, Group) for t in ts)

def no_continue(ch):
    """the statements of a loop body: `if c { ..; continue; } rest` -> `if c { .. } else { rest }`,
    `let p = e else { continue; }; rest` -> `if let p = e { rest }`"""
    st = stmts(ch)
    for n, (x, y) in enumerate(st):
        s = ch[x:y]
        if is_continue(s):
            del ch[x:]
            return
        last = n == len(st) - 1
        if is_(s[0], "if") and isg(s[-1], "{") and s[-1].ch and not any(is_(t, "else") for t in s):
            inner = stmts(s[-1].ch)
            a, b = inner[-1]
            if is_continue(s[-1].ch[a:b]):
                del s[-1].ch[a:b]
                if not last:
                    g = parse(" else {}")
                    mark(g, s[0].line)
                    g[-1].ch[:] = ch[y:]
                    no_continue(g[-1].ch)
                    ch[y:] = g
                return
        if is_(s[0], "let") and len(s) > 4 and is_(s[-1], ";") and isg(s[-2], "{") and is_(s[-3], "else") and is_continue(s[-2].ch):
            g = parse(" if {}")
            mark(g, s[0].line)
            g[-1].ch[:] = ch[y:]
            no_continue(g[-1].ch)
            ch[x:] = g[:1] + s[:-3] + g[1:]
            return
        if last and is_(s[0], "if"):
            for t in s:
                if isg(t, "{"):
                    no_continue(t.ch)

def continues(body):
    from extract import find_loops
    for ch, q, kind in find_loops(body.ch, []):
        b = next((j for j in range(q + 1, len(ch)) if isg(ch[j], "{")), None)
        if b is not None and any(is_(t, "continue") for t in walk(ch[b].ch) if not isinstance(t, Group)):
            no_continue(ch[b].ch)

def desugar(body, rets, want=(), breaks=lambda k: True):
    continues(body)
    loop_kinds(body, want or (), breaks)
    for_patterns(body.ch, [0, 0])
    literal_patterns(body.ch)
    max_min(body.ch)
    cnt = [0]
    for _ in range(40):
        if not one(body.ch, cnt, rets):
            break
