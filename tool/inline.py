"""Undo helper extractions: a function of the current source that the contracts do not know is put back in place
of its calls (beta reduction), so that the caller's obligations speak about the code that runs.  Functions that
were only renamed keep their contract.  Whatever cannot be handled is left alone."""
import difflib
from rustlex import lex, match_close, plain, text, Tok, is_p, is_id, OPEN, CLOSE

BLOCK_KW = {"if", "while", "for", "loop", "match", "unsafe"}


def mk(s):
    out = lex(s)
    for t in out:
        if not t.ws:
            t.ws = " "
    return out


def clone(ts):
    return [Tok(t.k, t.s, t.ws, t.line) for t in ts]


def statements(t):
    """split a block's tokens into statements; each is (tokens, ends_with_semicolon)"""
    res, i, n = [], 0, len(t)
    while i < n:
        s = i
        if t[i].k == "id" and t[i].s in BLOCK_KW or is_p(t[i], "{") or t[i].k == "life":
            # block-like statement
            j = i
            while True:
                while j < n and not is_p(t[j], "{"):
                    if t[j].k == "p" and t[j].s in OPEN:
                        j = match_close(t, j)
                    if is_p(t[j], ";"):
                        break
                    j += 1
                if j >= n or is_p(t[j], ";"):
                    break
                j = match_close(t, j) + 1
                if j < n and is_id(t[j], "else"):
                    j += 1
                    continue
                break
            # part of a larger expression?
            if j < n and t[j].k == "p" and t[j].s in (".", "?", "==", "+", "&&", "||"):
                pass
            else:
                if j < n and is_p(t[j], ";"):
                    res.append((t[s:j], True))
                    i = j + 1
                else:
                    res.append((t[s:j], False))
                    i = j
                continue
        j = i
        while j < n and not is_p(t[j], ";"):
            if t[j].k == "p" and t[j].s in OPEN:
                j = match_close(t, j)
            j += 1
        res.append((t[s:j], j < n))
        i = j + 1
    return res


def has_return(t):
    return any(x.k == "id" and x.s == "return" or is_p(x, "?") for x in t)


def to_value(t):
    """rewrite early returns into a block whose value is the function's result; None if impossible"""
    if not has_return(t):
        return t
    st = statements(t)
    out = []
    for q, (s, semi) in enumerate(st):
        if not has_return(s):
            out += s + ([Tok("p", ";", "")] if semi else [])
            continue
        if is_id(s[0], "return"):
            if q != len(st) - 1 or has_return(s[1:]):
                return None
            return out + s[1:]
        if is_id(s[0], "if"):
            parts = []      # (cond, block) ... else block
            i = 0
            els = None
            while True:
                j = i + 1
                while not is_p(s[j], "{"):
                    if s[j].k == "p" and s[j].s in OPEN:
                        j = match_close(s, j)
                    j += 1
                e = match_close(s, j)
                if has_return(s[i:j]):
                    return None
                parts.append((s[i:j], s[j + 1:e]))
                if e + 1 < len(s) and is_id(s[e + 1], "else"):
                    if is_id(s[e + 2], "if"):
                        i = e + 2
                        continue
                    els = s[e + 3:match_close(s, e + 2)]
                break
            rest = []
            for (r, rs) in st[q + 1:]:
                rest += r + ([Tok("p", ";", "")] if rs else [])
            blocks = []
            for cond, b in parts + ([(None, els)] if els is not None else []):
                if ends(b):
                    v = to_value(b)
                elif not has_return(b) and q == len(st) - 1:
                    v = b
                else:
                    if has_return(b) or declared(b) & {x.s for (r, _) in st[q + 1:] for x in r if x.k == "id"}:
                        return None
                    v = to_value(clone(b) + ([] if not b or is_p(b[-1], ";") or is_p(b[-1], "}") else mk(";")) + clone(rest))
                if v is None:
                    return None
                blocks.append((cond, v))
            if els is None:
                v = to_value(clone(rest))
                if v is None:
                    return None
                blocks.append((None, v))
            for k, (cond, v) in enumerate(blocks):
                if k:
                    out += mk("else")
                out += (cond or []) + mk("{") + v + mk("}")
            return out
        return None
    return out


def ends(b):
    """does the block always return?"""
    st = statements(b)
    return bool(st) and is_id(st[-1][0][0], "return") if st and st[-1][0] else False


def declared(t):
    names = set()
    for i, x in enumerate(t):
        if x.k == "id" and x.s in ("let", "for") or is_p(x, "|"):
            j = i + 1
            while j < len(t) and not (is_p(t[j], "=") or is_id(t[j], "in") or is_p(t[j], "|") or is_p(t[j], ":") or is_p(t[j], ";")):
                if t[j].k == "id" and t[j].s not in ("mut", "ref", "Some", "None"):
                    names.add(t[j].s)
                j += 1
                if j - i > 30:
                    break
    return names


def in_scope(t, params=()):
    """an over-approximation of the names in scope at the end of t"""
    stack, pending = [set(params)], set()
    i = 0
    while i < len(t):
        x = t[i]
        if is_p(x, "{"):
            stack.append(pending)
            pending = set()
        elif is_id(x, "for") or is_id(x, "let") and i and t[i - 1].s in ("if", "while", "&&"):
            pending = pending | declared(t[i:i + 32])
        elif is_p(x, "}") and len(stack) > 1:
            stack.pop()
        elif is_id(x, "let") or is_p(x, "|"):
            stack[-1] |= declared(t[i:i + 32])
        elif is_p(x, "=>"):
            j = i - 1
            while j >= 0 and not (t[j].k == "p" and t[j].s in ("{", ",", "}")):
                if t[j].k == "id":
                    stack[-1].add(t[j].s)
                j -= 1
        i += 1
    return set().union(pending, *stack)


class Helper:
    def __init__(self, m, key, it, impl, split_fn, split_args):
        self.m, self.key, self.it, self.impl, self.name = m, key, it, impl, it.name
        toks = list(plain(it.head)) + [Tok("p", "{", " ")] + list(plain(it.body)) + [Tok("p", "}", " ")]
        _, _, params, mid, body = split_fn(toks)
        self.ret = any(is_p(x, "->") for x in mid)
        self.selfref = False
        self.effects = any(is_id(x, "mut") for x in params[1:-1])
        self.usesself = any(is_id(x, "Self") for x in body)
        self.params = []        # (name, type tokens, mut)
        self.ok = True
        for a in split_args(params[1:-1]):
            s = [x.s for x in a]
            if s and s[-1] == "self" and ":" not in s:
                self.selfref = True
                if "&" not in s:
                    self.ok = False
                continue
            z = s.index(":")
            nm = [x for x in s[:z] if x != "mut"]
            if len(nm) != 1:
                self.ok = False
                continue
            self.params.append((nm[0], a[z + 1:], "mut" in s[:z]))
            if any(x in ("Fn", "FnMut", "FnOnce", "impl", "dyn") for x in s):
                self.ok = False
        b = to_value(clone(body))
        if b is None:
            self.ok = False
            return
        if any(is_id(x, self.name) for x in b):
            self.ok = False
        self.body = b
        st = statements(b)
        self.tail = []
        self.stmts = b
        if st and not st[-1][1] and self.ret:
            self.tail = st[-1][0]
            self.stmts = b[:len(b) - len(self.tail)]


def simple_path(t):
    return bool(t) and all(x.k == "id" or is_p(x, ".") or x.k == "num" or is_p(x, "::") for x in t) and t[0].k in ("id", "num")


def is_place(t):
    """a path with fields and indexing by paths, no calls"""
    i = 0
    while i < len(t):
        if is_p(t[i], "["):
            e = match_close(t, i)
            if not is_place(t[i + 1:e]):
                return False
            i = e + 1
            continue
        if not (t[i].k in ("id", "num") or is_p(t[i], ".")):
            return False
        i += 1
    return bool(t)


def struct_field(body, i):
    """is token i a shorthand field of a struct literal?"""
    if not (i > 0 and i + 1 < len(body) and body[i - 1].k == "p" and body[i - 1].s in ("{", ",") and body[i + 1].k == "p" and body[i + 1].s in (",", "}")):
        return False
    d, j = 0, i - 1
    while j >= 0:
        if body[j].k == "p" and body[j].s in CLOSE:
            d += 1
        elif body[j].k == "p" and body[j].s in OPEN:
            if d == 0:
                break
            d -= 1
        j -= 1
    return j > 0 and body[j].s == "{" and body[j - 1].k == "id" and body[j - 1].s[:1].isupper()


STD_METHODS = set("len get get_mut push pop min max iter iter_mut into_iter insert remove clear extend contains is_empty first last clone cmp "
                  "partial_cmp eq ne new default from into map filter collect sort dedup retain resize swap take replace next peek find any all "
                  "fold sum unwrap expect is_some is_none is_ok is_err ok err".split())


def subst(body, sub, refs, recv):
    out, i = [], 0
    while i < len(body):
        x = body[i]
        fieldname = i > 0 and is_p(body[i - 1], ".")
        label = x.k == "id" and i + 1 < len(body) and is_p(body[i + 1], ":") and i > 0 and (is_p(body[i - 1], "{") or is_p(body[i - 1], ","))
        if x.k == "id" and x.s in sub and struct_field(body, i):
            out += [Tok("id", x.s, x.ws), Tok("p", ":", "")]
        if x.k == "id" and x.s == "self" and not fieldname and recv is not None:
            r = clone(recv)
            r[0].ws = x.ws
            out += r
        elif x.k == "id" and not fieldname and not label and x.s in sub:
            place = sub[x.s]
            if x.s in refs:         # a reference parameter bound to &place
                amp = refs[x.s]
                if i + 1 < len(body) and (is_p(body[i + 1], ".") or is_p(body[i + 1], "[")):
                    r = clone(place)
                elif out and is_p(out[-1], "*"):
                    out.pop()
                    r = clone(place)
                else:
                    r = clone(amp) + clone(place)
            else:
                r = clone(place)
            r[0].ws = x.ws or (" " if out and out[-1].k == "id" else "")
            out += r
        else:
            out.append(Tok(x.k, x.s, x.ws, x.line))
        i += 1
    return out


def split_lets(binds):
    return [s for s, _ in statements(binds)] if binds else []


def inline_call(t, i, h, split_args, receiver_start, outer=(), impl=None, ambiguous=False):
    """t[i] is the name of helper h at a call; returns the new token list or None"""
    e = match_close(t, i + 1)
    args = split_args(t[i + 2:e])
    start = i
    recv = None
    sametype = impl is not None and h.impl is not None and impl == h.impl
    if h.usesself and not sametype:
        return None
    if h.selfref:
        if not (i >= 2 and is_p(t[i - 1], ".")):
            return None
        start = receiver_start(t, i - 1)
        recv = plain(t[start:i - 1])
        if not (len(recv) == 1 and is_id(recv[0], "self") and sametype):
            if not simple_path(recv) or h.name in STD_METHODS or ambiguous:
                return None
            if is_id(recv[0], "self") and len(recv) == 1:
                return None
    elif i >= 2 and is_p(t[i - 1], "::"):
        start = i - 2
        if i >= 4 and is_p(t[i - 3], "::") or not (t[start].s == h.impl or t[start].s == "Self" and sametype or t[start].s == h.m and h.impl is None):
            return None
    elif i >= 1 and is_p(t[i - 1], ".") or h.impl is not None:
        return None
    if len(args) != len(h.params):
        return None
    body, tail = h.stmts, h.tail
    binds, sub, refs = [], {}, {}
    ids = [{x.s for x in plain(a) if x.k == "id"} for a in args]
    argnames = set().union({x.s for x in recv or [] if x.k == "id"}, *ids)

    def bind(q, p, mut, pa):
        """let p = argument; under another name when p means something else in an argument"""
        n = p
        own = len(pa) == 1 and pa[0].s == p
        others = set().union({x.s for x in recv or [] if x.k == "id"}, *(ids[:q] + ids[q + 1:])) if len(ids) > 1 or recv else set()
        if p in others or p in ids[q] and not own:
            n = p + "_vq"
            sub[p] = [Tok("id", n, " ")]
        return mk("let %s%s =" % ("mut " if mut else "", n)) + pa + mk(";")

    for q, ((p, ty, mut), a) in enumerate(zip(h.params, args)):
        pa = plain(a)
        if is_p(pa[0], "&") and len(pa) > 1 and is_id(pa[1], "mut"):
            root = next((x.s for x in pa[2:] if x.k == "id"), None)
            if any(root in z for k, z in enumerate(ids) if k != q) and root != "self":
                return None
        if mut:
            binds += bind(q, p, mut, pa)
        elif len(pa) == 1 and pa[0].k in ("id", "num"):
            if pa[0].s != p:
                sub[p] = pa
        elif is_p(pa[0], "&") and is_p(ty[0], "&"):
            z = 2 if len(pa) > 1 and is_id(pa[1], "mut") else 1
            if simple_path(pa[z:]):
                sub[p] = pa[z:]
                refs[p] = pa[:z]
            else:
                binds += bind(q, p, mut, pa)
        elif sum(1 for x in h.body if is_id(x, p)) == 1 and is_place(pa) and not h.effects:
            sub[p] = pa
        else:
            binds += bind(q, p, mut, pa)
    decl = declared(h.body)
    clash = (decl & argnames)
    ren = {n: [Tok("id", n + "_vq", " ")] for n in clash if n not in sub}
    if ren:
        body = subst(body, ren, {}, None)
        tail = subst(tail, ren, {}, None)
    body = subst(body, sub, refs, recv)
    tail = subst(tail, sub, refs, recv)
    # context
    prev = t[start - 1] if start > 0 else None
    nxt = t[e + 1] if e + 1 < len(t) else None
    stmt_start = prev is None or prev.k == "p" and prev.s in (";", "{", "}") or prev.k == "G"
    rest_ids = {x.s for x in t[e + 1:] if x.k == "id"}
    local = declared(body) | {x[1].s if x[1].s != "mut" else x[2].s for x in split_lets(binds)}
    # a name the inlined statements declare hides a name the rest of the function uses
    leak = bool(local & rest_ids & in_scope(t[:start], outer))
    if not tail:
        if not stmt_start:
            return None
        semi = nxt is not None and is_p(nxt, ";")
        new = binds + body
        if leak:
            new = mk("{") + new + mk("}")
        elif new and not is_p(new[-1], ";") and not is_p(new[-1], "}"):
            new += mk(";")
        return t[:start] + new + t[e + 2 if semi else e + 1:]
    pre = binds + body
    atom = simple_path(tail)
    closed = (prev is None or prev.k == "p" and prev.s in (";", "{", "}", "(", ",", "=", "=>") or prev.k == "id" and prev.s in ("return", "if", "while", "match", "in")) and \
        (nxt is None or nxt.k == "p" and nxt.s in (";", ")", ",", "{", "}"))
    if prev is not None and is_p(prev, "!") or (prev is not None and prev.k == "p" and prev.s == "{" and False):
        closed = False
    if closed and prev is not None and prev.k == "id" and prev.s in ("if", "while", "match") and any(is_p(x, "{") for x in tail):
        closed = False
    val = clone(tail) if atom or closed else mk("(") + clone(tail) + mk(")")
    if not pre:
        return t[:start] + val + t[e + 1:]
    # hoist the statements in front of the statement that contains the call, when the call comes first in it
    s = start
    while s > 0 and not (t[s - 1].k == "p" and t[s - 1].s in (";", "{", "}") or t[s - 1].k == "G"):
        s -= 1
    lead = [x for x in t[s:start]]
    names = [x.s for x in lead]
    first = not lead or names == ["return"] or names == ["if"] or names == ["match"] or (names[0] == "let" and names[-1] == "=" and "(" not in names[:1]) or \
        (names[-1] == "=" and is_place(plain(lead[:-1])) and len(names) > 1) or names == ["if", "!"]
    if first and names[:1] in (["if"], ["match"]) and s > 0 and is_id(t[s - 1], "else"):
        first = False
    if s > 0 and is_p(t[s - 1], "{") and s >= 2 and is_p(t[s - 2], "="):
        first = first
    if first and not leak:
        return t[:s] + pre + lead + val + t[e + 1:]
    return t[:start] + mk("{") + pre + clone(tail) + mk("}") + t[e + 1:]


def param_names(it):
    h = plain(it.head)
    return {h[i].s for i in range(len(h) - 1) if h[i].k == "id" and is_p(h[i + 1], ":")} | {"self"}


def similar(a, b):
    sm = difflib.SequenceMatcher(None, a, b, autojunk=False)
    return sm.ratio()


def preprocess(parsed, ex, collect_fns, split_fn, split_args, receiver_start, skip, usable):
    """parsed: {module: (source items, carrier items)}; rewrites the bodies of source fn items in place"""
    renamed = {}                # module -> {source key: carrier key}
    helpers = {}
    fns, impls, known = [], {}, set()
    for m, (src, car) in parsed.items():
        sf = {k: v for k, v in collect_fns([i for i in src if not skip(i)]).items() if not skip(v[0])}
        cf = {k: v for k, v in collect_fns(car).items() if not skip(v[0])}
        new = [k for k in sf if k not in cf]
        gone = [k for k in cf if k not in sf]
        ren = {}
        for g in gone:
            best, score = None, 0.8
            gi = g.rsplit("::", 1)[0] if "::" in g else ""
            gb = [x.s for x in plain(cf[g][0].body or [])]
            for k in new:
                if k in ren or (k.rsplit("::", 1)[0] if "::" in k else "") != gi or sf[k][0].body is None:
                    continue
                s = similar(gb, [x.s for x in plain(sf[k][0].body)])
                if s > score:
                    best, score = k, s
            if best:
                ren[best] = g
        if ren:
            renamed[m] = ren
        for k, (it, impl, tr) in sf.items():
            fns.append((m, k, it))
            impls[id(it)] = impl
            known |= {x.s for i, x in enumerate(plain(cf[k][0].body or [])) if i and x.k == "id"} if k in cf else set()
            if it.body is None or tr or k in ren or k not in new or not usable(it):
                continue
            try:
                h = Helper(m, k, it, impl, split_fn, split_args)
            except Exception:
                continue
            if h.ok:
                helpers.setdefault(it.name, []).append(h)
    # renamed functions: put the name back (declaration and calls)
    names = {}
    for m, ren in renamed.items():
        for k, g in ren.items():
            a, b = k.rsplit("::", 1)[-1], g.rsplit("::", 1)[-1]
            if a != b:
                names[a] = b
    allnames = {it.name for _, _, it in fns}
    for a, b in list(names.items()):
        if b in allnames or a in STD_METHODS or sum(1 for _, _, it in fns if it.name == a) != 1:
            del names[a]
    if names:
        for m, k, it in fns:
            for part in (it.head, it.body or []):
                for i, x in enumerate(part):
                    if x.k == "id" and x.s in names and i + 1 < len(part) and is_p(part[i + 1], "("):
                        x.s = names[x.s]
            if it.name in names:
                it.name = names[it.name]
        for a, b in names.items():
            ex.notes.append("function %s is the contracts' %s" % (a, b))
    inlined, kept = set(), set()
    helpers = {n: hs[0] for n, hs in helpers.items() if len(hs) == 1 and sum(1 for _, _, it in fns if it.name == n) == 1}
    touched = {}
    for _ in range(6):
        change = False
        # helpers of helpers first
        for m, k, it in fns:
            if it.body is None:
                continue
            t = list(it.body)
            i = 0
            while i < len(t):
                x = t[i]
                if x.k == "id" and x.s in helpers and i + 1 < len(t) and is_p(t[i + 1], "(") and it.name != x.s and not (i and is_id(t[i - 1], "fn")):
                    h = helpers[x.s]
                    try:
                        new = inline_call(t, i, h, split_args, receiver_start, param_names(it), impls[id(it)], x.s in known)
                    except Exception:
                        new = None
                    if new is None:
                        kept.add(x.s)
                        i += 1
                        continue
                    t = new
                    inlined.add(x.s)
                    touched.setdefault((m, k), set()).add(x.s)
                    change = True
                    i = 0
                    continue
                i += 1
            it.body = t
        if not change:
            break
        kept = set()
        for n, h in list(helpers.items()):
            try:
                helpers[n] = Helper(h.m, h.key, h.it, h.impl, split_fn, split_args)
            except Exception:
                del helpers[n]
    used = {x.s for _, _, it in fns for x in it.body or [] if x.k == "id" and x.s in inlined and it.name != x.s}
    gone_helpers = {(helpers[n].m, helpers[n].key) for n in inlined if n in helpers and n not in used}
    for (m, k), ns in touched.items():
        ex.notes.append("%s::%s: inlined %s" % (m, k, ", ".join(sorted(ns))))
    return gone_helpers, touched
