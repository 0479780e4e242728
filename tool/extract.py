"""Mechanical extraction: /repo/src/*.rs (current working tree) + /verif/contracts/*.rs  ->  one Verus file.

Every executable token comes from /repo/src.  The files under /verif/contracts carry only ghost text: a
carrier <module>.rs is the source text the contracts were written against, with the ghost text in
/*@ ... @*/ comments; the executable tokens of a carrier are used as anchors and nothing else.  The ghost
segments of each function are moved onto the tokens of the same function in the current source (exactly when
the tokens agree, by sequence alignment otherwise) and then the normalisations listed in DESIGN.md are
applied.  What is dropped or rewritten is recorded in Extraction.notes.
"""
import difflib, os, re, sys
import inline
from rustlex import (lex, split_items, match_close, plain, text, Tok, is_p, is_id, LexError, OPEN, CLOSE)

MODULES = ["constants", "heap_item", "valid_flags", "shortest_path", "input_graph", "preparation_graph",
           "witness_search", "node_contractor", "fast_graph", "fast_graph32", "fast_graph_builder",
           "path_calculator", "lib"]
TEST_ONLY = {"dijkstra", "floyd_warshall"}

# functions outside the verified text (file IO, formatting, serde glue); see DESIGN.md
EXCLUDED_RE = re.compile(r"\bFormatter\b")
EXCLUDED_NAMES = {"unit_test_output_string"}
# text files: part of the verified text for C15 only
IO_RE = re.compile(r"\b(File|BufReader|BufWriter|format|BufRead|split_whitespace|SplitWhitespace|starts_with|parse|write|writeln)\b|&\s*str\b|&\s*String\b")
IO_FILES = {"spec_io.rs", "spec_files.rs"}

# functions that carry the ghost parameter vp_ok: "the caller claims that this call must not panic"
OKSET = {"get_edges", "get_num_nodes", "get_num_edges", "check_frozen", "freeze", "add_edge", "add_edge_bidir",
         "do_add_edge", "from_input_graph", "build", "build_with_params", "build_with_order",
         "build_with_order_with_params", "prepare", "prepare_with_params", "prepare_with_order",
         "prepare_with_order_with_params", "calc_path", "calc_path_multiple_sources_and_targets",
         "serialize_32", "usize_to_u32", "usize_to_u32_vec", "usize_to_u32_edges", "usize_to_u32_edge",
         "run_contraction", "run_contraction_with_order",
         "from_file", "to_file", "from_dimacs_file", "to_dimacs_file", "read_from_file", "read_from_dimacs", "read_arc_line"}
OKQUAL = {("FastGraphBuilder", "new"), ("FastGraph32", "new")}
HIGHER_ORDER = {"handle_shortcuts"}
KEEP_DERIVES = {"Copy", "Clone"}
LOG_MACROS = {"warn", "debug", "info", "trace", "error"}
KEYWORDS = {"if", "else", "while", "for", "loop", "match", "return", "let", "mut", "in", "as", "ref", "break",
            "continue", "fn", "impl", "pub", "self", "Self", "true", "false", "move", "where", "usize", "u32",
            "bool", "Vec", "Some", "None", "Ok", "Err", "Option", "Result"}


RESERVED = {"int", "nat", "spec", "proof", "exec", "tracked", "ghost", "requires", "ensures", "invariant", "decreases", "recommends",
            "returns", "via", "when", "choose", "forall", "exists", "trigger", "assume", "is", "has"}


class Undecided(Exception):
    """The extraction cannot bring the current source within the verifier's reach."""


def mk(s):
    """tokens of a synthetic piece of text"""
    out = lex(s)
    for t in out:
        if not t.ws:
            t.ws = " "
    return out


def G(s):
    return Tok("G", s, " ")


class FnInfo:
    def __init__(self, module, key):
        self.module, self.key = module, key
        self.status = "exact"       # exact | soft | lost | nocontract
        self.detail = []
        self.lines = (0, 0)
        self.hascontract = False
        self.io = False

    @property
    def name(self):
        return self.module + "::" + self.key


class Extraction:
    def __init__(self):
        self.text = ""
        self.fns = []               # FnInfo
        self.notes = []             # what was dropped / rewritten
        self.missing = []           # carrier functions absent from the source
        self.problems = []          # reasons why the result cannot decide anything
        self.excluded = []
        self.own_minmax = False     # ... a max or min
        self.own_pop = False        # the source defines a pop or is_empty of its own
        self.floatfns = set()       # functions that return floats
        self.contracts_lines = []   # (start, end, file) of spec files

    def fn_at(self, line):
        for f in self.fns:
            if f.lines[0] <= line <= f.lines[1]:
                return f
        return None


def rename_ghost(s, ren):
    if not ren:
        return s
    return re.sub(r"(?<![\w.])(" + "|".join(map(re.escape, ren)) + r")(?!\w)", lambda m: ren[m.group(1)], s)


def transplant(src, car, info):
    """src: plain tokens of the current item; car: tokens with ghost segments. Returns src with the ghost
    segments inserted."""
    C = plain(car)
    segs, g = [], 0
    for t in car:
        if t.k == "G":
            segs.append((g, t))
        else:
            g += 1
    cs, ss = [t.s for t in C], [t.s for t in src]
    at, ren = {}, {}
    nloops = lambda ts: sum(1 for t in ts if t.k == "id" and t.s in ("while", "for", "loop"))
    if nloops(src) > nloops(C):
        info.soft("a loop without contract")
    if cs == ss:
        for g, t in segs:
            at.setdefault(g, []).append(t)
    else:
        sm = difflib.SequenceMatcher(None, cs, ss, autojunk=False)
        c2s = {}
        cand = {}
        for tag, i1, i2, j1, j2 in sm.get_opcodes():
            if tag == "equal":
                for k in range(i2 - i1):
                    c2s[i1 + k] = j1 + k
            elif tag == "replace" and i2 - i1 == j2 - j1:
                for k in range(i2 - i1):
                    a, b = C[i1 + k], src[j1 + k]
                    if a.k == "id" and b.k == "id" and a.s not in KEYWORDS and b.s not in KEYWORDS:
                        c2s.setdefault(i1 + k, j1 + k)
                        cand.setdefault(a.s, set()).add(b.s)
        for a, bs in cand.items():
            if len(bs) == 1:
                b = next(iter(bs))
                if a not in ss and b not in cs:
                    ren[a] = b
        if ren:
            info.detail.append("renamed locals: " + ", ".join("%s->%s" % x for x in sorted(ren.items())))
        for g, t in segs:
            p, n = c2s.get(g - 1), c2s.get(g)
            if g == 0:
                pos = 0
            elif g == len(C):
                pos = len(src)
            elif p is not None and n is not None and n == p + 1:
                pos = n
            elif n is not None and C[g].s == "{":
                pos = n
                if p is None:
                    info.soft("header before '{' changed")
            elif p is not None and n is not None:
                pos = p + 1 if n > p else None
                info.soft("tokens inserted at a ghost anchor")
                if pos is None:
                    pos = n
                    info.soft("tokens moved at a ghost anchor")
            elif p is not None:
                pos = p + 1
                info.soft("the token after a ghost anchor changed")
            elif n is not None:
                pos = n
                info.soft("the token before a ghost anchor changed")
            else:
                info.lost("lost anchor near '%s'" % " ".join(cs[max(0, g - 4):g + 4]))
                continue
            why = misplaced(t, g, C, pos, src)
            if why:
                info.soft(why)
                continue
            at.setdefault(pos, []).append(Tok("G", rename_ghost(t.s, ren), t.ws, t.line))
    out = []
    for i, t in enumerate(src):
        out.extend(at.get(i, []))
        out.append(t)
    out.extend(at.get(len(src), []))
    if [t.s for t in plain(out)] != ss:
        raise Undecided("self-check failed: ghost transplant changed executable tokens")
    return out


def best_transplant(src, car, info, own, notes):
    """transplant; where the source writes a loop in another form than the carrier (while/loop/while let), try the equivalent
    forms and keep the one whose anchors fit best"""
    def attempt(ts):
        inf = FnInfo(info.module, info.key)
        inf.hascontract = info.hascontract
        inf.io = info.io
        o = transplant(ts, car, inf)
        return (("exact", "soft", "lost").index(inf.status), sum(not d.startswith("renamed") for d in inf.detail)), ts, o, inf
    best = attempt(src)
    for _ in range(6):
        if best[0][0] == 0:
            break
        alts = [attempt(a) for a in loop_forms(best[1], own)]
        alts = [a for a in alts if a[0] < best[0]]
        if not alts:
            break
        best = min(alts, key=lambda a: a[0])
        if not any("loop form" in n and info.name in n for n in notes):
            notes.append("%s: loop form normalised" % info.name)
    info.status, info.detail = best[3].status, best[3].detail
    return best[2]


def loop_forms(t, own):
    """equivalent ways to write one of the loops: while C {B} = loop { if !(C) {break;} B }, and
    while let Some(p) = e.pop() {B} = while !e.is_empty() { let p = e.pop().unwrap(); B } for the containers of std"""
    out = []
    def path(ts):
        return ts and all(x.k == "id" or is_p(x, ".") for x in ts)
    def call(ts, name):
        """e for e.name()"""
        if len(ts) > 4 and [x.s for x in ts[-4:]] == [".", name, "(", ")"] and path(ts[:-4]):
            return ts[:-4]
    def neg(c):
        if is_p(c[0], "!") and (path(c[1:-2]) and [x.s for x in c[-2:]] == ["(", ")"] or len(c) > 2 and is_p(c[1], "(") and match_close(c, 1) == len(c) - 1):
            return c[1:]
        if path(c[:-2]) and [x.s for x in c[-2:]] == ["(", ")"]:
            return mk("!") + c
        return mk("!(") + c + mk(")")
    def poplet(ts):
        """let P = e.pop().unwrap()[.0]; at the start of a body -> (pattern for Some(..), e, length)"""
        if not ts or not is_id(ts[0], "let"):
            return None
        d = 0
        for j, x in enumerate(ts):
            if x.k == "p" and x.s in OPEN: d += 1
            if x.k == "p" and x.s in CLOSE: d -= 1
            if d == 0 and is_p(x, ";"):
                break
        eq = [k for k in range(j) if is_p(ts[k], "=")]
        if not eq:
            return None
        pat, rhs = ts[1:eq[0]], ts[eq[0] + 1:j]
        first = [x.s for x in rhs[-2:]] == [".", "0"]
        if first:
            rhs = rhs[:-2]
        if [x.s for x in rhs[-4:]] != [".", "unwrap", "(", ")"] or any(is_p(x, ":") for x in pat):
            return None
        e = call(rhs[:-4], "pop")
        if not e:
            return None
        return (mk("(") + pat + mk(", _)") if first else pat), e, j + 1
    same = lambda a, b: [x.s for x in a] == [x.s for x in b]
    for i, x in enumerate(t):
        if x.k != "id" or x.s not in ("while", "loop") or not (i == 0 or t[i - 1].k == "p" and t[i - 1].s in (";", "{", "}", ":")):
            continue
        d, b = 0, i + 1
        while b < len(t) and not (d == 0 and is_p(t[b], "{")):
            if t[b].k == "p" and t[b].s in OPEN: d += 1
            if t[b].k == "p" and t[b].s in CLOSE: d -= 1
            b += 1
        if b >= len(t):
            continue
        e = match_close(t, b)
        head, body = t[i + 1:b], t[b + 1:e]
        def form(h, bd):
            out.append(t[:i] + h + [t[b]] + bd + t[e:])
        if x.s == "while" and head and is_id(head[0], "let"):
            if len(head) > 5 and [y.s for y in head[1:3]] == ["Some", "("] and not own:
                c = match_close(head, 2)
                pat = head[3:c]
                ex = call(head[c + 2:], "pop") if is_p(head[c + 1], "=") else None
                if ex:
                    if len(pat) == 5 and [pat[0].s] + [y.s for y in pat[2:]] == ["(", ",", "_", ")"]:
                        let = mk("let") + [pat[1]] + mk("=") + ex + mk(".pop().unwrap().0;")
                    else:
                        let = mk("let") + pat + mk("=") + ex + mk(".pop().unwrap();")
                    form(mk("while !") + ex + mk(".is_empty()"), let + body)
                    form(mk("loop"), mk("if") + ex + mk(".is_empty() { break; }") + let + body)
        elif x.s == "while":
            form(mk("loop"), mk("if") + neg(head) + mk("{ break; }") + body)
            pl = poplet(body)
            if pl and not own and is_p(head[0], "!") and call(head[1:], "is_empty") and same(call(head[1:], "is_empty"), pl[1]):
                form(mk("while let Some(") + pl[0] + mk(") =") + pl[1] + mk(".pop()"), body[pl[2]:])
        elif body and is_id(body[0], "if") and not is_id(body[1], "let"):
            d, k = 0, 1
            while k < len(body) and not (d == 0 and is_p(body[k], "{")):
                if body[k].k == "p" and body[k].s in OPEN: d += 1
                if body[k].k == "p" and body[k].s in CLOSE: d -= 1
                k += 1
            if [y.s for y in body[k:k + 4]] == ["{", "break", ";", "}"] and not is_id(body[k + 4] if k + 4 < len(body) else body[0], "else"):
                c, rest = body[1:k], body[k + 4:]
                form(mk("while") + neg(c), rest)
                pl = poplet(rest)
                if pl and not own and call(c, "is_empty") and same(call(c, "is_empty"), pl[1]):
                    form(mk("while let Some(") + pl[0] + mk(") =") + pl[1] + mk(".pop()"), rest[pl[2]:])
    return out


def misplaced(t, g, C, pos, src):
    """would this ghost segment end up where it cannot be parsed?"""
    def stmt(ts, k):
        return k == 0 or ts[k - 1].k == "p" and ts[k - 1].s in (";", "{", "}")
    w = t.s.split(None, 1)[0] if t.s.strip() else ""
    def loophead(ts, k):
        while k > 0 and not stmt(ts, k):
            k -= 1
            if ts[k].k == "p" and ts[k].s in CLOSE:
                d = 0
                while True:
                    if ts[k].s in CLOSE:
                        d += 1
                    elif ts[k].s in OPEN:
                        d -= 1
                    if d == 0 or k == 0:
                        break
                    k -= 1
        return ts[k].s in ("while", "for", "loop") or ts[k].k == "life"
    if w in ("invariant", "invariant_except_break", "decreases", "ensures") and 0 < g < len(C) and C[g].s == "{" and not stmt(C, g) and loophead(C, g):
        if pos >= len(src) or src[pos].s != "{" or not loophead(src, pos):
            return "a loop's contract has lost its loop"
    elif w.startswith("invariant") and not (pos < len(src) and 0 < pos and src[pos].s == C[g].s and src[pos - 1].s == C[g - 1].s):
        return "a loop's contract has lost its iterator chain"
    elif stmt(C, g) and not stmt(src, pos):
        return "a ghost statement has lost its place"
    return None


def _soft(self, why):
    if self.status == "exact":
        self.status = "soft"
    self.detail.append(why)


def _lost(self, why):
    if self.status != "nocontract":
        self.status = "lost"
    self.detail.append(why)


FnInfo.soft, FnInfo.lost = _soft, _lost


# ---------------------------------------------------------------------------------------------- normalisation

class Norm:
    """The normalisations of one function body."""

    def __init__(self, ex, info, fname, oktype, params, impl):
        self.ex, self.info, self.fname, self.ok = ex, info, fname, oktype
        self.params, self.impl = params, impl
        self.io = False

    def note(self, s):
        self.ex.notes.append("%s: %s" % (self.info.name, s))

    def okarg(self):
        return "Ghost(vp_ok)" if self.ok else "Ghost(true)"

    def run(self, t, depth=0):
        t = self.macros(t)
        t = self.paths(t)
        if self.io:
            t = self.iocalls(t)
        t = self.okcalls(t)
        t = self.stdcalls(t)
        t = self.collects(t, depth)
        t = self.floats(t)
        t = self.loops(t, depth)
        return t

    # --- macros -----------------------------------------------------------------------------------------
    def macros(self, t):
        out, i = [], 0
        while i < len(t):
            x = t[i]
            if x.k == "id" and x.s in ("cfg", "cfg_attr") and i > 0 and (is_p(t[i - 1], "[") or i + 1 < len(t) and is_p(t[i + 1], "!")):
                raise Undecided("conditional compilation")
            if x.k == "id" and i + 2 < len(t) and is_p(t[i + 1], "!") and t[i + 2].k == "p" and t[i + 2].s in OPEN:
                e = match_close(t, i + 2)
                args = self.split_args(t[i + 3:e])
                if x.s in LOG_MACROS:
                    j = e + 1
                    if j < len(t) and is_p(t[j], ";"):
                        j += 1
                    self.note("dropped log macro %s!" % x.s)
                    i = j
                    continue
                if x.s in ("assert", "debug_assert"):
                    f = "vp_debug_assert" if x.s.startswith("debug") else "vp_assert"
                    self.note("%s! -> %s" % (x.s, f))
                    out += mk(f + "(") + self.macros(args[0]) + mk(", %s)" % self.okarg())
                    i = e + 1
                    continue
                if x.s in ("assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
                    op = "==" if x.s.endswith("eq") else "!="
                    f = "vp_debug_assert" if x.s.startswith("debug") else "vp_assert"
                    self.note("%s! -> %s" % (x.s, f))
                    out += mk(f + "((") + self.macros(args[0]) + mk(") %s (" % op) + self.macros(args[1]) + mk("), %s)" % self.okarg())
                    i = e + 1
                    continue
                if self.io and x.s in ("write", "writeln", "format") and len(args) >= (1 if x.s == "format" else 2):
                    fmt = args[1:] if x.s != "format" else args
                    txt = self.format_text(fmt, x.s == "writeln")
                    if x.s == "format":
                        out += txt + mk(".vp_string()")
                    else:
                        out += args[0] + mk(".vp_write(") + txt + mk(")")
                    self.note("%s! -> pieces of the format string and the arguments" % x.s)
                    i = e + 1
                    continue
                if x.s in ("panic", "unreachable", "todo", "unimplemented"):
                    self.note("%s! -> vp_panic" % x.s)
                    nxt = t[e + 1] if e + 1 < len(t) else None
                    semi = nxt is not None and is_p(nxt, ";")
                    last = semi and (e + 2 >= len(t) or is_p(t[e + 2], "}"))
                    out += mk("vp_panic%s(%s)" % ("::<()>" if semi and not last else "", self.okarg()))
                    i = e + 2 if last else e + 1
                    continue
            out.append(x)
            i += 1
        return out

    # --- formatting and strings (text files) ------------------------------------------------------------------
    @staticmethod
    def chars(s):
        """Rust text of a sequence with the characters of s"""
        return "Seq::<char>::empty()" + "".join(".push('%s')" % (c if c.isalnum() and c.isascii() or c in " ,.:;-_+=/()|#" else "\\u{%x}" % ord(c)) for c in s)

    @staticmethod
    def literal(tok):
        m = re.match(r'^"((?:[^"\\]|\\.)*)"$', tok.s, re.S)
        if not m or re.search(r"\\[^nrt\\\"'0]", m.group(1)):
            raise Undecided("string literal " + tok.s)
        return re.sub(r"\\(.)", lambda q: {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(q.group(1), q.group(1)), m.group(1))

    def format_text(self, args, newline):
        if len(args[0]) != 1 or not args[0][0].s.startswith('"'):
            raise Undecided("format string that is no literal")
        f = self.literal(args[0][0])
        rest = args[1:]
        res, cur, i = mk("VpText::vp_new()"), "", 0
        def lit(c):
            return mk(".lit(Ghost(%s))" % self.chars(c)) if c else []
        while i < len(f):
            if f[i:i + 2] in ("{{", "}}"):
                cur += f[i]
                i += 2
            elif f[i] == "{":
                j = f.index("}", i)
                name = f[i + 1:j]
                res += lit(cur)
                cur = ""
                if name == "":
                    if not rest:
                        raise Undecided("format string with too few arguments")
                    a = rest[0]
                    rest = rest[1:]
                elif re.match(r"^[a-z_]\w*$", name):
                    a = mk(name)
                else:
                    raise Undecided("format specification {%s}" % name)
                res += mk(".arg(&(") + a + mk("))")
                i = j + 1
            else:
                cur += f[i]
                i += 1
        if rest:
            raise Undecided("named or surplus format arguments")
        return res + lit(cur + ("\n" if newline else ""))

    def iocalls(self, t):
        out, i = [], 0
        while i < len(t):
            x = t[i]
            if is_p(x, ".") and i + 2 < len(t) and t[i + 1].k == "id":
                nm = t[i + 1].s
                j = i + 2
                if nm == "parse" and is_p(t[j], "::"):
                    e = j
                    while not is_p(t[e], "("):
                        e += 1
                    if text(t[j:e]).replace(" ", "") != "::<usize>":
                        raise Undecided("parse of another type than usize")
                    out += mk(".vp_parse_usize(")
                    i = e + 1
                    continue
                if is_p(t[j], "("):
                    e = match_close(t, j)
                    arg = plain(t[j + 1:e])
                    if nm in ("unwrap", "expect"):
                        out += mk(".vp_unwrap(%s)" % self.okarg())
                        self.note("%s -> vp_unwrap" % nm)
                        i = e + 1
                        continue
                    if nm == "starts_with" and len(arg) == 1:
                        lit = self.literal(arg[0]) if arg[0].s.startswith('"') else arg[0].s[1:-1] if re.match(r"^'[^'\\]'$", arg[0].s) else None
                        if lit is None:
                            raise Undecided("starts_with on a pattern that is no literal")
                        out += mk(".vp_starts_with(Ghost(%s))" % self.chars(lit))
                        i = e + 1
                        continue
                    if nm in ("is_empty", "split_whitespace") and not arg:
                        out += mk(".vp_%s()" % nm)
                        i = e + 1
                        continue
                    if nm == "parse":
                        raise Undecided("parse without a type")
            # s[k..]
            if is_p(x, "[") and out and out[-1].k == "id" and out[-1].s not in KEYWORDS:
                e = match_close(t, i)
                if len(t[i + 1:e]) >= 2 and is_p(t[e - 1], ".."):
                    amp = len(out) > 1 and is_p(out[-2], "&")
                    if amp:
                        base = out.pop()
                        out.pop()
                        out.append(base)
                    out += mk(".vp_from(") + t[i + 1:e - 1] + mk(")")
                    self.note("s[k..] -> vp_from")
                    i = e + 1
                    continue
            out.append(x)
            i += 1
        return out

    @staticmethod
    def split_args(t):
        args, cur, i, ang = [], [], 0, 0
        while i < len(t):
            if t[i].k == "p" and t[i].s in OPEN:
                e = match_close(t, i)
                cur += t[i:e + 1]
                i = e + 1
                continue
            if is_p(t[i], "|") and not cur:      # closure argument: copy the parameter list
                j = i + 1
                while not is_p(t[j], "|"):
                    j += 1
                cur += t[i:j + 1]
                i = j + 1
                continue
            if is_p(t[i], ","):
                args.append(cur)
                cur = []
            else:
                cur.append(t[i])
            i += 1
        if cur:
            args.append(cur)
        return args

    # --- std::usize::MAX -> usize::MAX ---------------------------------------------------------------------
    def paths(self, t):
        out, i = [], 0
        while i < len(t):
            if is_id(t[i], "std") and i + 4 < len(t) and is_p(t[i + 1], "::") and t[i + 2].s in ("usize", "u32", "u64", "i32") \
               and is_p(t[i + 3], "::"):
                t[i + 2].ws = t[i].ws
                i += 2
                continue
            out.append(t[i])
            i += 1
        return out

    # --- the ghost argument vp_ok ---------------------------------------------------------------------------
    def okcalls(self, t):
        out, i = [], 0
        stack = []
        while i < len(t):
            x = t[i]
            if x.k == "id" and i + 1 < len(t) and is_p(t[i + 1], "(") and not (i > 0 and is_id(t[i - 1], "fn")):
                hit = x.s in OKSET
                if not hit and i >= 2 and is_p(t[i - 1], "::"):
                    q = t[i - 2].s
                    if q == "Self":
                        q = self.impl
                    hit = (q, x.s) in OKQUAL
                if hit:
                    e = match_close(t, i + 1)
                    stack.append(e)
                    inner = [y for y in plain(t[i + 2:e])]
                    out.append(x)
                    out.append(t[i + 1])
                    # recursive processing happens because we continue right after '('
                    i += 2
                    if not inner:
                        out += mk(self.okarg())
                        self_end = stack.pop()
                        continue
                    continue
            if stack and i == stack[-1]:
                stack.pop()
                if not (out and is_p(out[-1], ",")):
                    out.append(Tok("p", ","))
                out += mk(self.okarg())
            out.append(x)
            i += 1
        return out

    # --- std functions with closures -> documented equivalents in contracts/vp.rs ---------------------------
    def receiver_start(self, t, dot):
        """index of the first token of the postfix expression that ends before t[dot]"""
        i = dot - 1
        while i >= 0:
            x = t[i]
            if x.k == "p" and x.s in CLOSE:
                d = 0
                while True:
                    if t[i].k == "p" and t[i].s in CLOSE:
                        d += 1
                    elif t[i].k == "p" and t[i].s in OPEN:
                        d -= 1
                        if d == 0:
                            break
                    i -= 1
                if x.s == ")" or x.s == "]":
                    prev = t[i - 1] if i > 0 else None
                    if prev is not None and (prev.k == "id" and prev.s not in KEYWORDS or (prev.k == "p" and prev.s in (")", "]"))
                                             or (prev.k == "id" and prev.s in ("self", "Self"))):
                        i -= 1
                        continue
                    return i
                return i
            if x.k in ("id", "num"):
                if i > 0 and t[i - 1].k == "p" and t[i - 1].s in (".", "::"):
                    i -= 2
                    continue
                return i
            return i + 1
        return 0

    def stdcalls(self, t):
        """X.sort_unstable_by(F) -> vp_sort_by(&mut X, F);  X.dedup_by(F) -> loop, see DESIGN.md"""
        i = 0
        while i < len(t):
            if is_p(t[i], ".") and i + 2 < len(t) and t[i + 1].k == "id" and is_p(t[i + 2], "("):
                nm = t[i + 1].s
                if nm in ("max", "min") and not self.ex.own_minmax and len(self.split_args(t[i + 3:match_close(t, i + 2)])) == 1:
                    t[i + 1] = Tok("id", "vp_" + nm, t[i + 1].ws, t[i + 1].line)
                    self.note("method %s of integers -> vp_%s" % (nm, nm))
                    i += 1
                    continue
                if nm in ("sort_unstable_by", "sort_by", "retain"):
                    b = self.receiver_start(t, i)
                    e = match_close(t, i + 2)
                    rec = t[b:i]
                    arg = t[i + 3:e]
                    if arg and is_p(arg[0], "|"):
                        j = 1
                        while not is_p(arg[j], "|"):
                            j += 1
                        j += 1
                        if j < len(arg) and arg[j].k == "G" and j + 1 < len(arg) and not is_p(arg[j + 1], "{"):
                            arg = arg[:j + 1] + mk("{") + arg[j + 1:] + mk("}")
                    isref = len(plain(rec)) == 1 and (self.params.get(plain(rec)[0].s) or [Tok("p", "", 0)])[0].s == "&"
                    t = t[:b] + mk(("vp_sort_by(" if nm != "retain" else "vp_retain(") + ("" if isref else "&mut")) + rec + mk(",") + arg + mk(")") + t[e + 1:]
                    self.note("%s -> vp_%s (assumed contract)" % (nm, "retain" if nm == "retain" else "sort_by"))
                    i = b + 1
                    continue
                if nm == "dedup_by":
                    b = self.receiver_start(t, i)
                    e = match_close(t, i + 2)
                    rec = plain(t[b:i])
                    arg = t[i + 3:e]
                    if not arg or not is_p(arg[0], "|"):
                        raise Undecided("dedup_by without a literal closure")
                    j = 1
                    while not is_p(arg[j], "|"):
                        j += 1
                    names = [x.s for x in plain(arg[1:j]) if x.k == "id"]
                    body = arg[j + 1:]
                    gh = [x for x in body if x.k == "G"]
                    body = plain(body)
                    R = text(rec)
                    gs, ge = "", ""
                    if gh and "@@END" in gh[0].s:
                        hs, ge = gh[0].s.split("@@END")
                        hs, gs = hs.split("@@START")
                        gh = [G(hs)]
                    new = mk("{ let mut vp_out = vp_vec_like(&%s); let mut vp_dd: usize = 0; while vp_dd < %s.len()" % (R, R)) + gh + \
                        mk("{") + [G(gs)] + mk("let vp_dup = if vp_out.len() > 0 { let %s = &%s[vp_dd]; let %s = &vp_out[vp_out.len() - 1];" % (names[0], R, names[1])) + \
                        body + mk("} else { false }; if !vp_dup { vp_out.push(%s[vp_dd]); } vp_dd = vp_dd + 1;" % R) + [G(ge)] + mk("} %s = vp_out; }" % R)
                    t = t[:b] + new + t[e + 1:]
                    self.note("dedup_by -> equivalent loop (keeps the first of each run)")
                    i = b + 1
                    continue
            i += 1
        return t

    # --- E.iter().map(F).collect() -------------------------------------------------------------------------
    def collects(self, t, depth):
        i = 0
        n = 0
        while i < len(t):
            if is_p(t[i], ".") and is_id(t[i + 1], "map") and is_p(t[i + 2], "("):
                e = match_close(t, i + 2)
                j = e + 1
                # .collect() or .collect::<..>()
                if not (j + 1 < len(t) and is_p(t[j], ".") and is_id(t[j + 1], "collect")):
                    i += 1
                    continue
                k = j + 2
                if is_p(t[k], "::"):
                    d = 0
                    k += 1
                    while True:
                        if is_p(t[k], "<"): d += 1
                        elif is_p(t[k], ">"):
                            d -= 1
                            if d == 0: break
                        k += 1
                    k += 1
                if not is_p(t[k], "("):
                    i += 1
                    continue
                k = match_close(t, k)
                b = self.receiver_start(t, i)
                rec = plain(t[b:i])
                arg = t[i + 3:e]
                gh = []
                if arg and is_p(arg[0], "|"):
                    q = 1
                    while not is_p(arg[q], "|"):
                        q += 1
                    pat = plain(arg[1:q])
                    body = arg[q + 1:]
                    while body and body[0].k == "G":
                        gh.append(body[0])
                        body = body[1:]
                    if any(is_p(x, ":") for x in pat):
                        pat = pat[:[is_p(x, ":") for x in pat].index(True)]
                else:
                    pat = mk("vp_x")
                    body = plain(arg) + mk("(vp_x)")
                D = "c%d" % n
                n += 1
                R = [x.s for x in rec]
                if R[-4:] == [".", "iter", "(", ")"]:
                    base = rec[:-4]
                    init = "let vp_v%s = %s; let vp_st%s: usize = 0; let vp_end%s = vp_v%s.len();" % (D, self.refof(base), D, D, D)
                    bind = mk("let") + pat + mk("= &vp_v%s[vp_it%s];" % (D, D))
                elif R and R[0] == "(" and ".." in R and match_close(rec, 0) == len(rec) - 1:
                    z = R.index("..")
                    init = "let vp_st%s = %s; let vp_end%s = %s;" % (D, text(rec[1:z]), D, text(rec[z + 1:-1]))
                    bind = mk("let") + pat + mk("= vp_it%s;" % D)
                else:
                    i += 1
                    continue
                hdr = self.loophead(gh, D)
                new = mk("{ %s let mut vp_it%s = vp_st%s; let mut vp_c%s = Vec::new(); while vp_it%s < vp_end%s" % (init, D, D, D, D, D)) + hdr + \
                    mk("{") + bind + mk("vp_it%s = vp_it%s + 1; let vp_e = {" % (D, D)) + body + mk("}; vp_c%s.push(vp_e); } vp_c%s }" % (D, D))
                t = t[:b] + new + t[k + 1:]
                self.note("map/collect -> loop")
                i = b + 1
                continue
            i += 1
        return t

    def refof(self, base):
        """text of an expression of reference type for iterating over `base` by reference"""
        if len(base) == 1 and base[0].k == "id":
            ty = self.params.get(base[0].s)
            if ty and ty[0].s == "&":
                return base[0].s
        return "&" + text(base).strip()

    def loophead(self, gh, D, extra=""):
        auto = "vp_st%s <= vp_it%s, vp_it%s <= vp_end%s || vp_it%s == vp_st%s,%s" % (D, D, D, D, D, D, extra)
        user = "\n".join(x.s for x in gh).strip()
        user = self.select(user)
        if re.search(r"\binvariant\b", user):
            s = re.sub(r"\binvariant\b", lambda m: "invariant " + auto, user, count=1)
        elif user:
            m = re.search(r"\b(ensures|decreases)\b", user)
            if m:
                s = user[:m.start()] + " invariant " + auto + " " + user[m.start():]
            else:
                s = user + " invariant " + auto
        else:
            s = "invariant " + auto
        if not re.search(r"\bdecreases\b", user):
            if not s.rstrip().endswith(","):
                s += ","
            s += "\n decreases vp_end%s - vp_it%s," % (D, D)
        return [G("\n" + s + "\n")]

    def select(self, s):
        return s

    # --- floating point: the operations stay, casts from and to integers become calls -------------------------
    def floats(self, t):
        def isfloat(seg, known):
            """does this operand (plain tokens) have a floating point type?"""
            if len(seg) == 1 and seg[0].k == "id":
                return seg[0].s in known
            if seg and is_p(seg[-1], ")"):
                o = self.match_open(seg, len(seg) - 1)
                if o > 0 and seg[o - 1].k == "id":
                    return seg[o - 1].s in self.ex.floatfns
            return any(x.k == "num" and isfloatnum(x.s) or x.k == "id" and (x.s in known or x.s in ("vp_to_f32", "vp_to_f64", "f32", "f64") or x.s in self.ex.floatfns)
                       for x in seg)
        def isfloatnum(s):
            return bool(re.match(r"[0-9][0-9_]*(\.[0-9]|[eE][+-]?[0-9]|_?f(32|64)$)", s)) and not s.startswith("0x")
        i = 0
        while i < len(t):
            if is_id(t[i], "as") and i + 1 < len(t) and t[i + 1].s in ("f32", "f64") and not any(x.k == "G" for x in t[i - 1:i]):
                b = self.operand_start(t, i)
                fn = "vp_to_" + t[i + 1].s
                t = t[:b] + mk(fn + "(") + t[b:i] + mk(")") + t[i + 2:]
                self.note("integer to float cast -> arbitrary float")
                i = b
            i += 1
        known, i = set(), 0
        while i < len(t):
            # let [mut] x [: f32] = E;
            if is_id(t[i], "let"):
                j = i + 1
                if j < len(t) and is_id(t[j], "mut"):
                    j += 1
                if j + 1 < len(t) and t[j].k == "id" and (is_p(t[j + 1], "=") or is_p(t[j + 1], ":")):
                    e = j + 1
                    while e < len(t) and not is_p(t[e], ";"):
                        if t[e].k == "p" and t[e].s in OPEN:
                            e = match_close(t, e)
                        e += 1
                    rhs = plain(t[j + 1:e])
                    if "as" in [x.s for x in rhs[-2:]]:
                        rhs = []
                    if isfloat(rhs, known):
                        known.add(t[j].s)
            elif is_id(t[i], "as") and i + 1 < len(t) and t[i + 1].k == "id" and t[i + 1].s not in ("f32", "f64"):
                b = self.operand_start(t, i)
                if isfloat(plain(t[b:i]), known):
                    ty = t[i + 1].s
                    t = t[:b] + mk("vp_f32_to_usize(") + t[b:i] + mk(")") + (t[i + 2:] if ty in ("usize", "Weight", "NodeId", "EdgeId") else t[i:])
                    self.note("float to integer cast -> arbitrary integer")
                    i = b
            i += 1
        return t

    @staticmethod
    def match_open(t, i):
        d = 0
        while i >= 0:
            if t[i].k == "p" and t[i].s in CLOSE:
                d += 1
            elif t[i].k == "p" and t[i].s in OPEN:
                d -= 1
                if d == 0:
                    return i
            i -= 1
        raise Undecided("unbalanced expression")

    def operand_start(self, t, i):
        """start of the operand that ends before position i (a cast binds tighter than every binary operator)"""
        b = i
        while b > 0:
            x = t[b - 1]
            if x.k == "p" and x.s in CLOSE:
                b = self.match_open(t, b - 1)
                if b > 0 and (t[b - 1].k == "id" and t[b - 1].s not in ("return", "in", "if", "match", "else", "while") or t[b - 1].k == "p" and t[b - 1].s in (")", "]")):
                    continue
            elif x.k in ("id", "num"):
                b -= 1
            else:
                raise Undecided("operand of a cast")
            if b > 0 and t[b - 1].k == "p" and t[b - 1].s in (".", "::"):
                b -= 1
                continue
            break
        while b > 0 and t[b - 1].k == "p" and t[b - 1].s in ("*", "-", "&", "!") and (b == 1 or t[b - 2].k == "p" and t[b - 2].s not in CLOSE or is_id(t[b - 2], "return")):
            b -= 1
        return b

    # --- for loops -> while loops --------------------------------------------------------------------------
    def loops(self, t, depth):
        out, i = [], 0
        while i < len(t):
            x = t[i]
            if is_id(x, "for") and not (i + 1 < len(t) and is_p(t[i + 1], "<")):
                # find 'in' at depth 0
                j = i + 1
                while not is_id(t[j], "in"):
                    if t[j].k == "p" and t[j].s in OPEN:
                        j = match_close(t, j)
                    j += 1
                pat = plain(t[i + 1:j])
                k = j + 1
                while not is_p(t[k], "{"):
                    if t[k].k == "p" and t[k].s in OPEN:
                        k = match_close(t, k)
                    k += 1
                e = match_close(t, k)
                expr = t[j + 1:k]
                gh = [y for y in expr if y.k == "G"]
                expr = plain(expr)
                body = t[k + 1:e]
                label = []
                if len(out) >= 2 and out[-2].k == "life" and is_p(out[-1], ":"):
                    label = out[-2:]
                    out = out[:-2]
                out += self.forloop(label, pat, expr, gh, body, depth + 1)
                i = e + 1
                continue
            out.append(x)
            i += 1
        return out

    @staticmethod
    def call_name(base):
        d = 0
        for q in range(len(base) - 1, -1, -1):
            if base[q].k == "p" and base[q].s in CLOSE: d += 1
            elif base[q].k == "p" and base[q].s in OPEN:
                d -= 1
                if d == 0:
                    return base[q - 1].s if q > 0 else None
        return None

    def forloop(self, label, pat, expr, gh, body, depth):
        D = str(depth)
        S = [x.s for x in expr]
        # top level range?
        d, rng, incl = 0, None, False
        for q, x in enumerate(expr):
            if x.k == "p" and x.s in OPEN: d += 1
            elif x.k == "p" and x.s in CLOSE: d -= 1
            elif d == 0 and x.k == "p" and x.s in ("..", "..="):
                rng, incl = q, x.s == "..="
                break
        subst = None
        if rng is not None:
            if incl:
                raise Undecided("inclusive range loop")
            init = mk("let vp_st%s = " % D) + expr[:rng] + mk("; let vp_end%s = " % D) + expr[rng + 1:] + mk(";")
            bind = mk("let") + pat + mk("= vp_it%s;" % D)
            kind = "range"
            extra = ""
        else:
            chain = []
            base = expr
            while len(base) >= 4 and is_p(base[-1], ")") and is_p(base[-2], "(") and base[-3].k == "id" and is_p(base[-4], ".") \
                    and base[-3].s in ("iter", "iter_mut", "into_iter", "enumerate", "cloned", "copied"):
                chain.insert(0, base[-3].s)
                base = base[:-4]
            mut = byref = False
            if chain and chain[0] == "iter":
                byref = True
                chain = chain[1:]
                refexpr = self.refof(base)
            elif chain and chain[0] == "iter_mut":
                mut = True
                chain = chain[1:]
            elif base and is_p(base[0], "&") and len(base) > 1 and is_id(base[1], "mut"):
                mut = True
                base = base[2:]
            elif base and is_p(base[0], "&"):
                byref = True
                base = base[1:]
                refexpr = "&" + text(base).strip()
            elif chain and chain[0] == "into_iter":
                chain = chain[1:]
            elif base and is_p(base[-1], ")") and self.call_name(base) in REF_FNS:
                byref = True
                refexpr = text(base).strip()
            elif len(base) == 1 and base[0].k == "id" and base[0].s in self.params and self.params[base[0].s][0].s == "&":
                byref = True
                refexpr = base[0].s
            extra = ""
            if mut:
                if chain or len(pat) != 1 or pat[0].k != "id":
                    raise Undecided("unsupported mutable iteration")
                B = text(base).strip()
                init = mk("let vp_st%s: usize = 0; let vp_end%s = %s.len();" % (D, D, B))
                bind = mk("let vp_ix%s = vp_it%s;" % (D, D))
                subst = (pat[0].s, mk("%s[vp_ix%s]" % (B, D)))
                kind = "mutable iteration"
            else:
                if byref:
                    init = mk("let vp_v%s = %s;" % (D, refexpr))
                    elem = "&vp_v%s[vp_it%s]" % (D, D)
                else:
                    init = mk("let vp_v%s = vp_into_vec(" % D) + base + mk(");")
                    elem = "vp_v%s[vp_it%s]" % (D, D)
                    if self.io and self.call_name(base) == "lines":
                        elem = "vp_own(&%s)" % elem
                        self.note("iterator over lines -> vector of lines")
                for c in chain:
                    if c in ("cloned", "copied"):
                        elem = "vp_v%s[vp_it%s]" % (D, D)
                    elif c == "enumerate":
                        elem = "(vp_it%s, %s)" % (D, elem)
                    else:
                        raise Undecided("unsupported iterator adaptor " + c)
                # a reference pattern copies the element
                if is_p(pat[0], "&") and elem.startswith("&") and not is_id(pat[1], "mut"):
                    pat, elem = pat[1:], elem[1:]
                elif len(pat) > 3 and is_p(pat[0], "(") and is_p(pat[2], ",") and is_p(pat[3], "&") and not is_id(pat[4], "mut") and elem.startswith("(vp_it%s, &" % D):
                    pat, elem = pat[:3] + pat[4:], elem.replace(", &", ", ", 1)
                init = init + mk("let vp_st%s: usize = 0; let vp_end%s: usize = vp_v%s.len();" % (D, D, D))
                extra = " vp_end%s == vp_v%s.len()," % (D, D)
                bind = mk("let") + pat + mk("= %s;" % elem)
                kind = "iteration"
        if subst:
            nm, place = subst
            nb, q = [], 0
            while q < len(body):
                y = body[q]
                if y.k == "id" and y.s == nm and not (q > 0 and is_p(body[q - 1], ".")):
                    if nb and is_p(nb[-1], "*"):
                        nb.pop()
                    pp = [Tok(z.k, z.s, z.ws) for z in place]
                    nb += pp
                else:
                    nb.append(y)
                q += 1
            body = nb
        body = self.loops(body, depth)
        lead = []
        while body and body[0].k == "G" and body[0].s.lstrip().startswith("pre:"):
            body = body[1:]
        hdr = self.loophead(gh, D, extra)
        self.note("for loop (%s) -> while" % kind)
        return mk("{") + init + mk("let mut vp_it%s = vp_st%s;" % (D, D)) + label + mk("while vp_it%s < vp_end%s" % (D, D)) + hdr + \
            mk("{") + bind + mk("vp_it%s = vp_it%s + 1;" % (D, D)) + body + mk("} }")


# ---------------------------------------------------------------------------------------------- item emission

def strip_vis(t):
    """remove a leading pub / pub(...)"""
    out = list(t)
    for i, x in enumerate(out):
        if x.k == "G":
            continue
        if is_id(x, "pub"):
            j = i + 1
            if j < len(out) and is_p(out[j], "("):
                j = match_close(out, j) + 1
            ws = x.ws
            rest = out[j:]
            if rest:
                rest[0].ws = ws
            return out[:i] + rest
        return out
    return out


def split_fn(t):
    """t: tokens of a fn item without attributes -> (before_params, params(list of tokens incl parens), between, body)"""
    i = 0
    while not is_id(t[i], "fn"):
        i += 1
    name = t[i + 1].s
    j = i + 2
    if is_p(t[j], "<"):
        d = 0
        while True:
            if is_p(t[j], "<"): d += 1
            elif is_p(t[j], ">"): d -= 1
            elif is_p(t[j], ">>"): d -= 2
            j += 1
            if d == 0: break
    while not is_p(t[j], "("):
        j += 1
    e = match_close(t, j)
    k = e + 1
    while k < len(t) and not is_p(t[k], "{") and not is_p(t[k], ";"):
        if t[k].k == "p" and t[k].s in OPEN:
            k = match_close(t, k)
        k += 1
    if k >= len(t) or is_p(t[k], ";"):
        return name, t[:j], t[j:e + 1], t[e + 1:k], None
    b = match_close(t, k)
    return name, t[:j], t[j:e + 1], t[e + 1:k], t[k + 1:b]


def parse_params(ptoks):
    """(x: T, ...) -> {x: type tokens}"""
    res = {}
    for a in Norm.split_args(plain(ptoks)[1:-1]):
        s = [x.s for x in a]
        if ":" in s:
            z = s.index(":")
            nm = [x.s for x in a[:z] if x.k == "id" and x.s != "mut"]
            if len(nm) == 1:
                res[nm[0]] = a[z + 1:]
    return res


def emit_fn(ex, info, it, toks, impl, in_trait, attrs, lead):
    """toks: fn tokens with ghost; returns token list"""
    toks = strip_vis(toks)
    name, pre, params, mid, body = split_fn(toks)
    pmap = parse_params(params)
    okfn = name in OKSET or (impl, name) in OKQUAL
    nm = Norm(ex, info, name, okfn, pmap, impl)
    nm.io = info.io
    if okfn:
        inner = plain(params[1:-1])
        sep = "" if (not inner or is_p(inner[-1], ",")) else ","
        params = params[:-1] + mk("%s Ghost(vp_ok): Ghost<bool>)" % sep)
    # name the result
    mplain = mid
    arrow = next((q for q, x in enumerate(mid) if is_p(x, "->")), None)
    if arrow is not None:
        q = arrow + 1
        while q < len(mid) and mid[q].k != "G" and not is_id(mid[q], "where"):
            q += 1
        if not ERASE[0]:
            mid = mid[:arrow + 1] + mk("(res:") + mid[arrow + 1:q] + mk(")") + mid[q:]
    # where clause before ghost is fine
    body = nm.run(body) if body is not None else None
    head = []
    if body is not None and info.name in ex.external:
        head.append(G("\n#[verifier::external_body]"))
        lead = []
        body = mk("unimplemented!()")
    elif body is not None and ex.probes:
        body = add_probes(ex, info, body)
    leadtxt = "\n".join(x.s for x in lead)
    if "loop_isolation" not in leadtxt and body is not None:
        head.append(G("\n#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]"))
    for x in lead:
        head.append(G("\n" + x.s + "\n"))
    pre = nm.paths(pre)
    vis = [] if in_trait else mk("pub")
    return head + vis + pre + params + mid + (mk("{") + body + mk("\n}") if body is not None else [])


def add_probes(ex, info, body):
    """assertions that must fail: behind the precondition and behind every loop invariant"""
    def probe(kind):
        ex.probe_list.append((info.name, kind))
        return G("\nproof { assert(!vp_probe(%d)); }\n" % (len(ex.probe_list) - 1))
    out = [probe("entry")]
    i, pend = 0, []
    while i < len(body):
        x = body[i]
        out.append(x)
        if (is_id(x, "while") or is_id(x, "loop")) and x.k == "id":
            j = i + 1
            while not is_p(body[j], "{"):
                if body[j].k == "p" and body[j].s in OPEN:
                    j = match_close(body, j)
                j += 1
            pend.append(j)
        if i in pend:
            out.append(probe("loop body"))
        i += 1
    return out


ERASE = [False]     # leave the ghost text out (see extract(erase=True))


def render(toks):
    out = []
    for t in toks:
        if t.k == "G":
            if ERASE[0]:
                continue
            out.append(" " + t.s + " ")
        else:
            w = t.ws
            if not w and out and out[-1] and (out[-1][-1].isalnum() or out[-1][-1] == "_") and (t.s[0].isalnum() or t.s[0] == "_"):
                w = " "
            out.append(w + t.s)
    return "".join(out)


REF_FNS = set()     # functions of the current source that return a reference


def cfg_test(it):
    return any(a.replace(" ", "") == "#[cfg(test)]" for a in it.attr_text())


def cfg_hook(it):
    return any("vp_hooks" in a for a in it.attr_text())


def cfg_other(it):
    """conditionally compiled (other than tests): which text runs depends on how the crate is built"""
    if any(re.match(r"#!?\s*\[\s*cfg", a) for a in it.attr_text()):
        return True
    return it.kind not in ("fn", "impl") and re.search(r"#\s*\[\s*cfg", render(plain(it.toks))) is not None


def derives(it):
    keep = []
    for a in it.attr_text():
        m = re.match(r"#\[derive\((.*)\)\]", a)
        if m:
            keep += [x for x in m.group(1).split(",") if x.strip() in KEEP_DERIVES or ERASE[0]]
    return keep


PRIMITIVE = {"usize", "u32", "u64", "u8", "u16", "bool", "Vec", "i32", "i64"}


def lossless_derives(parsed):
    """structs whose Serialize and Deserialize are both derived, without any serde attribute, down to their field types"""
    ok, alias = {}, {}
    for m, (src, car) in parsed.items():
        for it in src:
            if it.kind == "type":
                s = [x.s for x in plain(it.toks)]
                if "=" in s and "type" in s:
                    alias[s[s.index("type") + 1]] = set(x for x in s[s.index("=") + 1:] if re.match(r"\w", x))
            if it.kind != "struct" or it.body is None or cfg_test(it):
                continue
            at = [a.replace(" ", "").replace("\n", "") for a in it.attr_text()]
            ds = set()
            for a in at:
                mm = re.match(r"#\[derive\((.*)\)\]", a)
                if mm:
                    ds |= set(x.split("::")[-1] for x in mm.group(1).split(","))
            body = plain(it.body)
            if not {"Serialize", "Deserialize"} <= ds or any("serde" in a for a in at) or any(is_p(x, "#") for x in body):
                continue
            types = set()
            for f in Norm.split_args(body):
                s = [x.s for x in strip_vis(f)]
                if ":" in s:
                    types |= set(x for x in s[s.index(":") + 1:] if re.match(r"\w", x))
            ok[it.name] = types
    # hand-written implementations beside a derive would not compile
    ch = True
    while ch:
        ch = False
        for n, ts in list(ok.items()):
            if any(not (t in PRIMITIVE or t in ok or (t in alias and alias[t] <= PRIMITIVE)) for t in ts):
                del ok[n]
                ch = True
    return set(ok)


def widen_fields(body):
    """add pub to every field of a struct body"""
    out = []
    for a in Norm.split_args(body):
        lead = [x for x in a if x.k == "G"]
        a = [x for x in a if x.k != "G"]
        # attributes on fields
        while a and is_p(a[0], "#"):
            a = a[match_close(a, 1) + 1:]
        a = strip_vis(a)
        if a:
            out += lead + mk("\n    pub") + a + mk(",")
        else:
            out += lead
    return out


def map_use(it, module):
    s = "".join(x.s + (" " if x.k == "id" and x.s in ("use", "pub", "as", "crate_") else "") for x in plain(it.toks) if True)
    s = render(plain(strip_vis(it.head)))
    flat = re.sub(r"\s+", " ", s).strip()
    if not flat.endswith(";"):
        flat += ";"
    if re.search(r"\b(serde|std::fs|std::io|rand|stopwatch|log)\b", flat) or flat == "use std::fmt;":
        return None
    if "priority_queue" in flat:
        return "use crate::vp::PriorityQueue;"
    m = re.match(r"use std::(u32|usize|u64)::MAX;", flat)
    if m:
        return "pub const MAX: %s = %s::MAX;" % (m.group(1), m.group(1))
    if flat.startswith("use super::*"):
        return None
    return "pub " + flat if flat.startswith("use crate") else flat


def collect_fns(items, prefix=""):
    """-> {key: (Item, implname, in_trait)}"""
    res = {}
    for it in items:
        if it.kind == "fn":
            res[it.name] = (it, None, False)
        elif it.kind == "impl":
            nm = it.name
            base = nm.split(" as ")[0]
            for c in it.items:
                if c.kind == "fn":
                    res[nm + "::" + c.name] = (c, base, " as " in nm)
    return res


def load(path):
    with open(path) as f:
        return f.read()


def item_attr_toks(it):
    return [x for a in it.attrs for x in a]


def fn_tokens(it):
    """tokens of a fn item without its attributes and lead ghost"""
    n = 0
    return list(it.head) + ([] if it.body is None else [Tok("p", "{", " ")] + list(it.body) + [Tok("p", "}", " ")])


def extract(src_dir, con_dir, external=(), probes=False, io=False, erase=False):
    """erase: the same text without its ghost part, with contracts/exec_vp.rs for vp.rs: an ordinary Rust program that is run
    against the real code (tool/normcheck.py)"""
    ERASE[0] = erase
    try:
        return extract_(src_dir, con_dir, external, probes, io, erase)
    finally:
        ERASE[0] = False


def extract_(src_dir, con_dir, external, probes, io, erase):
    ex = Extraction()
    ex.io = io
    ex.external, ex.probes, ex.probe_list = set(external), probes, []
    out = []          # list of strings
    line = [1]

    def put(s):
        if erase:
            s = re.sub(r"#\[verifier::[^\]]*\]", "", s)
        out.append(s)
        line[0] += s.count("\n")

    put("// generated by /verif/tool/extract.py from %s - do not edit\n" % src_dir)
    put(("" if erase else "#![feature(allocator_api)]\n") + "#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_snake_case, unused_braces, unused_attributes, unused_labels, unused_assignments, deprecated, unused_must_use)]\n")
    put("" if erase else "use vstd::prelude::*;\n")
    specs = sorted(f for f in os.listdir(con_dir) if f.startswith("spec_") and f.endswith(".rs"))
    parsed0 = {m: (split_items(lex(load(os.path.join(src_dir, m + ".rs")))), []) for m in MODULES if os.path.exists(os.path.join(src_dir, m + ".rs"))}
    ex.lossless = lossless_derives(parsed0)
    if not {"FastGraph", "FastGraph32"} <= ex.lossless:
        ex.notes.append("lib: Serialize/Deserialize of FastGraph or FastGraph32 are not plainly derived: theorems on them left out")
        specs.remove("spec_serde.rs")
    if not {"InputGraph", "Edge"} <= ex.lossless:
        ex.notes.append("input_graph: Serialize/Deserialize of InputGraph or Edge are not plainly derived: theorems on them left out")
        specs.remove("spec_serde_input.rs")
    if not io:
        specs = [f for f in specs if f not in IO_FILES]
    if erase:
        specs = []
    for f in (["exec_vp.rs"] + (["exec_io.rs"] if io else []) if erase else ["vp.rs"] + specs):
        m = f[:-3].replace("exec_io", "spec_io").replace("exec_", "")
        put("pub mod %s {\n" % m)
        a = line[0]
        put(load(os.path.join(con_dir, f)))
        put("\n}\n")
        ex.contracts_lines.append((a, line[0], f))
    # which modules does the current tree have?
    present = sorted(f[:-3] for f in os.listdir(src_dir) if f.endswith(".rs"))
    for m in present:
        if m not in MODULES and m not in TEST_ONLY:
            ex.notes.append("source module without carrier: " + m)
    order = [m for m in MODULES if m in present] + [m for m in present if m not in MODULES and m not in TEST_ONLY]
    for m in MODULES:
        if m not in present:
            ex.problems.append("module %s is gone" % m)
    parsed = {}
    for m in order:
        src = split_items(lex(load(os.path.join(src_dir, m + ".rs"))))
        cp = os.path.join(con_dir, m + ".rs")
        car = split_items(lex(load(cp))) if os.path.exists(cp) else []
        parsed[m] = (src, car)
    def usable(it):
        return it.name not in HIGHER_ORDER and it.name not in EXCLUDED_NAMES and impl_plain(it, ex)
    norm0 = Norm(ex, FnInfo("?", "?"), "", False, {}, None)
    gone, touched = inline.preprocess(parsed, ex, collect_fns, split_fn, Norm.split_args, norm0.receiver_start,
                                      lambda it: cfg_test(it) or cfg_hook(it), usable)
    ex.touched = touched
    ex.gone = gone
    REF_FNS.clear()
    for m in order:
        for it, impl, tr in collect_fns(parsed[m][0]).values():
            mid = plain(split_fn(fn_tokens(it))[3])
            if len(mid) > 1 and is_p(mid[0], "->") and is_p(mid[1], "&"):
                REF_FNS.add(it.name)
            if any(x.s in ("f32", "f64") for x in mid):
                ex.floatfns.add(it.name)
    inl = build_inlinables(parsed, ex)
    for m in order:
        src, car = parsed[m]
        cfns = collect_fns(car)
        if m == "lib":
            ind = ""
        else:
            put("pub mod %s {\n" % m)
        put("#[allow(unused_imports)] use vstd::prelude::*;\n" if m != "lib" and not erase else "")
        put("#[allow(unused_imports)] use crate::vp::*;\n")
        for f in (["spec_io.rs"] if erase and io else specs):
            if f not in IO_FILES or m == "input_graph":
                put("#[allow(unused_imports)] use crate::%s::*;\n" % f[:-3])
        body_items = []
        for it in src:
            if cfg_test(it) or cfg_hook(it):
                continue
            ex.problems += ["%s: %s is compiled conditionally" % (m, c.name) for c in [it] + (it.items if it.kind == "impl" else [])
                            if not cfg_test(c) and not cfg_hook(c) and cfg_other(c)]
            if it.kind == "use":
                u = map_use(it, m)
                if u:
                    if u.startswith("pub const"):
                        body_items.append(("raw", u))
                    else:
                        put(u + "\n")
                else:
                    ex.notes.append("%s: dropped %s" % (m, re.sub(r"\s+", " ", render(plain(it.head)))))
                continue
            body_items.append(("item", it))
        put("" if erase else "verus! {\n")
        seen = set()
        for kind, it in body_items:
            if kind == "raw":
                put(it + "\n")
                continue
            emit_item(ex, m, it, cfns, car, put, line, seen, inl)
        for k, (c, impl, tr) in cfns.items():
            if k not in seen and not cfg_test(c):
                ex.missing.append(m + "::" + k)
        # module-level ghost items of the carrier
        for c in car:
            gs = c.toks if c.kind == "ghost" else [x for x in c.lead_ghost if not x.s.lstrip().startswith("#[")]
            if gs and not erase:
                a = line[0]
                put("\n" + "\n".join(x.s for x in gs) + "\n")
                ex.contracts_lines.append((a, line[0], m + ".rs"))
        put("" if erase else "} // verus!\n")
        if m != "lib":
            put("}\n")
    put("" if erase else "fn main() {}\n")
    ex.text = "".join(out)
    return ex


def emit_item(ex, m, it, cfns, car, put, line, seen, inl):
    if it.kind == "fn":
        emit_one_fn(ex, m, it, it.name, None, False, cfns, put, line, seen, inl)
    elif it.kind == "impl":
        kids = []
        intr = " as " in it.name
        base = it.name.split(" as ")[0]
        if re.search(r"Debug|Serialize|Default", it.name.split(" as ")[1] if intr else ""):
            ex.excluded.append("%s::%s" % (m, it.name))
            return
        # lead ghost of the impl from the carrier
        clead = []
        for c in car:
            if c.kind == "impl" and c.name == it.name:
                clead = [x for x in c.lead_ghost if x.s.lstrip().startswith("#[")]
        for x in clead:
            put("\n" + x.s + "\n")
        put("\n" + render(Norm(ex, FnInfo(m, it.name), "", False, {}, base).paths(plain(it.head))) + " {\n")
        for c in it.items:
            if cfg_test(c) or cfg_hook(c):
                continue
            if c.kind == "fn":
                emit_one_fn(ex, m, c, it.name + "::" + c.name, base, intr, cfns, put, line, seen, inl)
            else:
                put(render(plain(c.toks)) + "\n")
        put("}\n")
    elif it.kind == "struct":
        cit = next((c for c in car if c.kind == "struct" and c.name == it.name), None)
        d = derives(it)
        if cit is not None:
            for x in cit.lead_ghost:
                if x.s.lstrip().startswith("#["):
                    put("\n" + x.s + "\n")
        if d and "Copy" in [x.strip() for x in d]:
            put("#[derive(%s)]\n" % ", ".join(d))
        elif d:
            ex.notes.append("%s: derive(Clone) of %s left out" % (m, it.name) if False else "")
            put("#[verifier::external_derive]\n#[derive(%s)]\n" % ", ".join(d))
        if it.body is None:
            put("pub " + render(plain(strip_vis(it.head))) + "\n")
        else:
            put("pub " + render(plain(strip_vis(it.head))).strip() + " {" + render(widen_fields(plain(it.body))) + "\n}\n")
        if it.name in ex.lossless and not any(is_p(x, "<") for x in plain(it.head)):
            ex.notes.append("%s: derived Serialize/Deserialize of %s -> assumed contract" % (m, it.name))
            put("" if ERASE[0] else "impl %s {\n#[verifier::external_body] pub fn serialize<VpS: Serializer>(&self, s: VpS) -> (res: Result<VpS::Ok, VpS::Error>)\n"
                "    ensures vp_ser(*self, s, res),\n{ unimplemented!() }\n"
                "#[verifier::external_body] pub fn deserialize<'de, VpD: Deserializer<'de>>(d: VpD) -> (res: Result<Self, VpD::Error>)\n"
                "    ensures vp_des(d, res),\n{ unimplemented!() }\n}\n" % it.name)
    elif it.kind in ("const", "type", "static", "enum"):
        t = plain(strip_vis(it.head if it.body is None else it.head))
        n = Norm(ex, FnInfo(m, it.name or "?"), "", False, {}, None)
        s = render(n.paths(t))
        if it.kind == "enum":
            s += " {" + render(plain(it.body)) + "}"
            put("pub " + s.strip() + "\n")
        else:
            s = s.strip()
            put("pub " + s + ("" if s.endswith(";") else ";") + "\n")
    elif it.kind == "trait":
        put("pub " + render(plain(strip_vis(it.toks))).strip() + "\n")
    elif it.kind in ("mod", "extern", "ghost"):
        pass
    else:
        raise Undecided("item of kind %s in %s" % (it.kind, m))


def specialise(ex, m, toks, cfns_all, inl, info, fname):
    """inline calls of higher-order functions (closure parameters) at their call sites"""
    i = 0
    while i < len(toks):
        x = toks[i]
        if x.k == "id" and x.s in inl["hof"] and i + 1 < len(toks) and is_p(toks[i + 1], "(") and not (i > 0 and is_id(toks[i - 1], "fn")):
            e = match_close(toks, i + 1)
            args = Norm.split_args(toks[i + 2:e])
            hname, pnames, body, fparam = inl["hof"][x.s](fname)
            if len(args) != len(pnames):
                raise Undecided("call of %s with a different number of arguments" % x.s)
            binds, sub, clos = [], {}, None
            for p, a in zip(pnames, args):
                pa = plain(a)
                if p == fparam:
                    clos = a
                elif len(pa) == 1 and pa[0].s == p:
                    pass
                else:
                    binds += mk("let %s =" % p) + pa + mk(";")
            nb, q = [], 0
            while q < len(body):
                y = body[q]
                if y.k == "id" and y.s == fparam and q + 1 < len(body) and is_p(body[q + 1], "("):
                    e2 = match_close(body, q + 1)
                    cargs = Norm.split_args(body[q + 2:e2])
                    pc = clos
                    if pc and is_p(plain(pc)[0], "|"):
                        z = 1
                        while not is_p(pc[z], "|"):
                            z += 1
                        ps = Norm.split_args(pc[1:z])
                        cb = pc[z + 1:]
                        blk = mk("{")
                        for pp, ca in zip(ps, cargs):
                            if len(plain(pp)) == 1 and plain(pp)[0].s.startswith("_") and len(plain(ca)) == 1:
                                continue
                            blk += mk("let") + plain(pp) + mk("=") + ca + mk(";")
                        if cb and is_p(plain(cb)[0], "{") :
                            blk += cb
                        else:
                            blk += cb + mk(";")
                        blk += mk("}")
                        nb += blk
                    else:
                        nb += plain(pc) + body[q + 1:e2 + 1]
                    q = e2 + 1
                    continue
                nb.append(y)
                q += 1
            nxt = i
            new = mk("{") + binds + nb + mk("}")
            j = e + 1
            if j < len(toks) and is_p(toks[j], ";"):
                j += 1
            toks = toks[:i] + new + toks[j:]
            ex.notes.append("%s: %s inlined with its closure argument" % (info.name, x.s))
            i += len(new)
            continue
        i += 1
    return toks


def build_inlinables(parsed, ex):
    """higher-order functions and helper functions without contract"""
    hof = {}
    helpers = {}
    for m, (src, car) in parsed.items():
        sf, cf = collect_fns([i for i in src if not cfg_test(i)]), collect_fns(car)
        for k, (it, impl, tr) in sf.items():
            if cfg_test(it) or cfg_hook(it) or it.kind != "fn" or it.body is None:
                continue
            if it.name in ("max", "min"):
                ex.own_minmax = True
            if it.name in ("pop", "is_empty"):
                ex.own_pop = True
            if it.name in HIGHER_ORDER:
                def make(it=it, cf=cf, k=k, m=m):
                    def get(fname):
                        info = FnInfo(m, k)
                        toks = plain(fn_tokens(it))
                        if k in cf:
                            toks = transplant(toks, fn_tokens(cf[k][0]), info)
                        if info.status != "exact":
                            get.status = (info.status, info.detail)
                        sel = []
                        for t in toks:
                            if t.k == "G":
                                mm = re.match(r"\s*\[(\w+)\]", t.s)
                                if mm:
                                    if mm.group(1) != fname:
                                        continue
                                    t = Tok("G", t.s[mm.end():], t.ws, t.line)
                            sel.append(t)
                        name, pre, params, mid, body = split_fn(sel)
                        pn = []
                        fparam = None
                        for a in Norm.split_args(plain(params)[1:-1]):
                            nmx = [y.s for y in a if y.k == "id" and y.s != "mut"][0]
                            pn.append(nmx)
                            ty = [y.s for y in a]
                            ty = ty[ty.index(":") + 1:]
                            if ty == ["F"] or "FnMut" in ty or "Fn" in ty:
                                fparam = nmx
                        return name, pn, body, fparam
                    get.status = None
                    return get
                hof[it.name] = make()
            elif k not in cf and impl_plain(it, ex):
                helpers[k] = (m, it, impl)
    return {"hof": hof, "helpers": helpers}


def impl_plain(it, ex):
    s = render(plain(it.toks))
    return not EXCLUDED_RE.search(s) and (ex.io or not IO_RE.search(s))


def emit_one_fn(ex, m, it, key, impl, in_trait, cfns, put, line, seen, inl):
    info = FnInfo(m, key)
    seen.add(key)
    srctxt = render(plain(it.toks))
    info.io = bool(IO_RE.search(srctxt))
    if it.name in EXCLUDED_NAMES or EXCLUDED_RE.search(srctxt) or info.io and not ex.io:
        ex.excluded.append(info.name)
        return
    if it.name in HIGHER_ORDER:
        return
    if (m, key) in ex.gone:
        ex.notes.append("%s: every call is inlined, not emitted on its own" % info.name)
        return
    toks = plain(fn_tokens(it))
    lead = []
    if key in cfns:
        c = cfns[key][0]
        lead = [x for x in c.lead_ghost if impl is not None or x.s.lstrip().startswith("#[")]
        info.hascontract = any(t.k == "G" for t in fn_tokens(c)) or bool(lead)
        toks = best_transplant(toks, fn_tokens(c), info, ex.own_pop, ex.notes)
        if (m, key) in ex.touched and [x.s for x in plain(toks)] != [x.s for x in plain(fn_tokens(c))]:
            info.soft("inlined " + ", ".join(sorted(ex.touched[(m, key)])))
    else:
        info.status = "nocontract"
        info.detail.append("no contract for this function")
    toks = specialise(ex, m, toks, None, inl, info, it.name)
    for h, get in inl["hof"].items():
        if get.status and any(x.k == "id" and x.s == h for x in plain(fn_tokens(it))):
            info.status = get.status[0] if info.status == "exact" else info.status
            info.detail += get.status[1]
    for x in toks:
        if x.k == "id" and x.s in RESERVED:
            x.s += "_vp"
            ex.notes.append("%s: identifier %s renamed (reserved word of the verifier)" % (info.name, x.s))
    t = emit_fn(ex, info, it, toks, impl, in_trait, it.attrs, lead)
    a = line[0]
    put("\n" + render(t) + "\n")
    info.lines = (a, line[0])
    ex.fns.append(info)


if __name__ == "__main__":
    src = sys.argv[1] if len(sys.argv) > 1 else "/repo/src"
    con = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    e = extract(src, con, io="--io" in sys.argv, erase="--erase" in sys.argv)
    sys.stdout.write(e.text)
    for f in e.fns:
        if f.status != "exact":
            sys.stderr.write("%s %s %s\n" % (f.name, f.status, f.detail))
    sys.stderr.write("missing: %s\nproblems: %s\n" % (e.missing, e.problems))
