"""A small Rust tokenizer and item splitter, enough for the extraction in extract.py."""
import re

class Tok:
    __slots__ = ("k", "s", "ws", "line")
    # k: 'id', 'num', 'str', 'chr', 'life', 'p' (punctuation), 'G' (ghost text)
    def __init__(self, k, s, ws="", line=0):
        self.k, self.s, self.ws, self.line = k, s, ws, line
    def __repr__(self):
        return "%s:%r" % (self.k, self.s)

class LexError(Exception):
    pass

_id = re.compile(r"(r#)?[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:_?(?:[iuf](?:8|16|32|64|128)|[iu]size))?")
_raw = re.compile(r'b?r(#*)"')
_multi = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", ".."]

def lex(src):
    """Tokens of src. Ordinary comments vanish; /*@ ... @*/ becomes a 'G' token."""
    out, i, n, ws, line = [], 0, len(src), "", 1
    def emit(k, s):
        nonlocal ws, line
        out.append(Tok(k, s, ws, line))
        ws = ""
    while i < n:
        c = src[i]
        if c.isspace():
            j = i
            while j < n and src[j].isspace():
                j += 1
            ws += src[i:j]; line += src.count("\n", i, j); i = j
        elif src.startswith("/*@", i):
            j = src.find("@*/", i)
            if j < 0:
                raise LexError("unterminated ghost segment at line %d" % line)
            emit("G", src[i + 3:j]); line += src.count("\n", i, j); i = j + 3
        elif src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
        elif src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j): depth += 1; j += 2
                elif src.startswith("*/", j): depth -= 1; j += 2
                else: j += 1
            line += src.count("\n", i, j); ws += " "; i = j
        elif (m := _raw.match(src, i)):
            end = src.find('"' + m.group(1), m.end())
            j = end + 1 + len(m.group(1))
            emit("str", src[i:j]); line += src.count("\n", i, j); i = j
        elif c == '"' or (c == 'b' and i + 1 < n and src[i + 1] == '"'):
            j = i + (2 if c == 'b' else 1)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            emit("str", src[i:j]); line += src.count("\n", i, j); i = j
        elif c == "'":
            m = re.match(r"'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])'", src[i:])
            if m:
                emit("chr", m.group(0)); i += m.end()
            else:
                m = re.match(r"'[A-Za-z_][A-Za-z0-9_]*", src[i:])
                if not m:
                    raise LexError("bad quote at line %d" % line)
                emit("life", m.group(0)); i += m.end()
        elif (m := _id.match(src, i)):
            emit("id", m.group(0)); i = m.end()
        elif c.isdigit():
            m = _num.match(src, i)
            t = m.group(0)
            emit("num", t); i += len(t)
        else:
            for mu in _multi:
                if src.startswith(mu, i):
                    emit("p", mu); i += len(mu); break
            else:
                emit("p", c); i += 1
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(t, i):
    """index of the token closing the bracket at t[i]"""
    depth = 0
    for j in range(i, len(t)):
        if t[j].k != "p":
            continue
        if t[j].s in OPEN: depth += 1
        elif t[j].s in CLOSE:
            depth -= 1
            if depth == 0:
                return j
    raise LexError("unbalanced bracket at line %d" % t[i].line)

def is_p(t, s):
    return t.k == "p" and t.s == s

def is_id(t, s):
    return t.k == "id" and t.s == s

class Item:
    """kind: use const type struct enum impl trait fn mod macro other.
    attrs: list of token lists; head: tokens before the body; body: tokens inside {...} (without
    braces) or None; name; items: children for impl/mod."""
    def __init__(self, kind, name, attrs, toks, head, body, items=None):
        self.kind, self.name, self.attrs, self.toks = kind, name, attrs, toks
        self.head, self.body, self.items = head, body, items

    def attr_text(self):
        return ["".join(x.s for x in a if x.k != "G") for a in self.attrs]

KW = {"use", "const", "static", "type", "struct", "enum", "impl", "trait", "fn", "mod", "union", "extern", "macro_rules"}

def split_items(t):
    """Split a token list (module or impl body) into Items."""
    items, i, n = [], 0, len(t)
    while i < n:
        start = i
        attrs, lead_ghost = [], []
        while i < n and (is_p(t[i], "#") or t[i].k == "G"):
            if t[i].k == "G":
                lead_ghost.append(t[i]); i += 1; continue
            j = i + 1
            if is_p(t[j], "!"):
                j += 1
            e = match_close(t, j)
            attrs.append(t[i:e + 1]); i = e + 1
        if i >= n:
            if lead_ghost:
                items.append(Item("ghost", None, [], lead_ghost, lead_ghost, None))
            break
        # find the keyword
        j = i
        kind, name = "other", None
        while j < n:
            if t[j].k == "id" and t[j].s in KW and not (t[j].s == "const" and j + 1 < n and is_id(t[j + 1], "fn")) \
               and not (t[j].s == "extern" and any(is_id(x, "fn") for x in t[j:j + 3])):
                kind = t[j].s
                break
            if is_p(t[j], "(") or is_p(t[j], "["):
                j = match_close(t, j) + 1
                continue
            if is_p(t[j], ";") or is_p(t[j], "{"):
                break
            j += 1
        if kind in ("fn", "struct", "enum", "const", "static", "type", "trait", "mod", "union"):
            for k in range(j + 1, n):
                if t[k].k == "id" and t[k].s != "mut":
                    name = t[k].s
                    break
        # find the end: first ';' or '{...}' at depth 0 (after the keyword)
        k, body = j, None
        end = None
        while k < n:
            if is_p(t[k], "(") or is_p(t[k], "["):
                k = match_close(t, k) + 1
                continue
            if is_p(t[k], "{") and kind in ("const", "static", "use"):
                k = match_close(t, k) + 1
                continue
            if is_p(t[k], "{"):
                e = match_close(t, k)
                body = (k, e); end = e + 1
                break
            if is_p(t[k], ";"):
                end = k + 1
                break
            k += 1
        if end is None:
            raise LexError("item without end at line %d" % t[start].line)
        # tuple structs: struct X(..);
        toks = t[i:end]
        head = t[i:(body[0] if body else end)]
        inner = t[body[0] + 1:body[1]] if body else None
        children = None
        if kind == "impl":
            h = [x for x in head if x.k != "G"]
            txt = [x.s for x in h[1:]]
            if txt and txt[0] == "<":
                d, q = 0, 0
                for q, s in enumerate(txt):
                    if s == "<": d += 1
                    elif s == ">": d -= 1
                    if d == 0: break
                txt = txt[q + 1:]
            if "for" in txt:
                p = txt.index("for")
                name = "".join(txt[p + 1:]).split("where")[0] + " as " + "".join(txt[:p])
            else:
                name = "".join(txt).split("where")[0]
            children = split_items(inner)
        elif kind in ("mod", "trait") and body:
            children = split_items(inner)
        it = Item(kind, name, attrs, toks, head, inner, children)
        it.lead_ghost = lead_ghost
        items.append(it)
        i = end
    return items

def plain(t):
    return [x for x in t if x.k != "G"]

def text(t):
    return "".join(x.ws + x.s for x in t)
