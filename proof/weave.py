"""Weaves contracts into the functions of /repo/src and prints one Verus crate.

The executable text comes from /repo/src on every run; the specs in specs/*.vspec hold only
contracts, invariants, ghost code, lemmas and declarations of what is assumed of other crates.
See DESIGN.md, "What the extraction drops and rewrites".
"""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


class WeaveError(Exception):
    pass


# ---------------------------------------------------------------- tokens

class T:
    __slots__ = ("k", "s", "line", "joint", "sub", "endline", "file")

    def __init__(self, k, s, line=0, joint=False, sub=None, file=None):
        self.k, self.s, self.line, self.joint, self.sub, self.endline, self.file = k, s, line, joint, sub, line, file

    def __repr__(self):
        return flat([self])


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<life>'[A-Za-z_]\w*(?!'))
 |(?P<chr>b?'(?:\\(?:x..|u\{[^}]*\}|.)|[^'\\])')
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<p>[^\s\w])
''', re.X | re.S)
CLOSE = {"(": ")", "[": "]", "{": "}"}


def tokenize(text, file):
    stack = [[]]
    opens = []
    pos, line, n = 0, 1, len(text)
    while pos < n:
        if text.startswith("/*", pos):
            d, q = 1, pos + 2
            while d:
                a, b = text.find("*/", q), text.find("/*", q)
                if a < 0:
                    raise WeaveError("comment")
                if 0 <= b < a:
                    d, q = d + 1, b + 2
                else:
                    d, q = d - 1, a + 2
            line += text.count("\n", pos, q)
            pos = q
            continue
        m = TOK.match(text, pos)
        if not m:
            raise WeaveError(f"{file}:{line}: cannot read {text[pos:pos+20]!r}")
        k, s = m.lastgroup, m.group()
        if k == "h":
            k = "raw"
        pos = m.end()
        if k in ("ws", "lc"):
            line += s.count("\n")
            continue
        if k == "p" and s in "([{":
            g = T("g", s, line, sub=[], file=file)
            stack[-1].append(g)
            stack.append(g.sub)
            opens.append(g)
        elif k == "p" and s in ")]}":
            if not opens or CLOSE[opens[-1].s] != s:
                raise WeaveError(f"{file}:{line}: unbalanced {s}")
            g = opens.pop()
            g.endline = line
            stack.pop()
        else:
            joint = k == "p" and pos < n and not text[pos].isspace() and bool(re.match(r"[^\s\w]", text[pos])) and not text.startswith(("//", "/*"), pos)
            stack[-1].append(T({"raw": "str"}.get(k, k), s, line, joint, file=file))
        line += s.count("\n")
    if opens:
        raise WeaveError(f"{file}: unclosed group")
    return stack[0]


def closed(body, after):
    """body, its trailing unit expression made a statement if something is put after it"""
    if not after or not body or is_p(body, len(body) - 1, ";") or is_g(body, len(body) - 1, "{"):
        return body
    return body + [T("p", ";", body[-1].line, file=body[-1].file)]


def ghost(text, file=None, line=0):
    t = T("ghost", text, line, file=file)
    return t


def tok(text):
    return tokenize(text, None)


def clone(ts):
    out = []
    for t in ts:
        c = T(t.k, t.s, t.line, t.joint, None if t.sub is None else clone(t.sub), t.file)
        c.endline = t.endline
        out.append(c)
    return out


def flat(ts):
    """Text of a token list, on one line, normalised."""
    out = []
    for t in ts:
        if t.k == "g":
            out.append(t.s + (" " if t.sub else ""))
            out.append(flat(t.sub))
            out.append((" " if t.sub else "") + CLOSE[t.s] + " ")
        elif t.k == "ghost":
            out.append(" " + t.s + " ")
        else:
            out.append(t.s + ("" if t.joint else " "))
    return "".join(out).strip()


def seq(ts):
    """Flat list of atoms for anchor matching: (list, index) positions are kept."""
    return [t.s if t.k != "g" else t.s for t in ts]


def is_p(ts, i, s):
    return 0 <= i < len(ts) and ts[i].k == "p" and ts[i].s == s


def is_id(ts, i, s=None):
    return 0 <= i < len(ts) and ts[i].k == "id" and (s is None or ts[i].s == s)


def is_g(ts, i, d=None):
    return 0 <= i < len(ts) and ts[i].k == "g" and (d is None or ts[i].s == d)


def op2(ts, i, s):
    """two-character operator at i"""
    return is_p(ts, i, s[0]) and ts[i].joint and is_p(ts, i + 1, s[1])


# ---------------------------------------------------------------- cfg

CFG = {"test": False, "substrate_parser_verif": True, "target_pointer_width=64": True, "target_pointer_width=32": False,
       "feature=std": True, "feature=default": True, "feature=embed-display": False}


def cfg_true(ts):
    if len(ts) == 2 and ts[0].k == "id" and ts[1].k == "g":
        parts = split_commas(ts[1].sub)
        vals = [cfg_true(p) for p in parts if p]
        return {"any": any(vals), "all": all(vals), "not": not vals[0]}[ts[0].s]
    key = "".join(t.s for t in ts).replace('"', "")
    if key not in CFG:
        raise WeaveError(f"cfg {key} not known")
    return CFG[key]


def split_commas(ts, sep=",", angles=True):
    out, cur, depth = [], [], 0
    for i, t in enumerate(ts):
        if angles and t.k == "p" and t.s == "<":
            depth += 1
        if angles and t.k == "p" and t.s == ">" and not (i and ts[i - 1].s in ("-", "=") and ts[i - 1].joint):
            depth = max(0, depth - 1)
        if t.k == "p" and t.s == sep and depth == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    out.append(cur)
    return out


def attrs_at(ts, i):
    """outer attributes at i -> (list of inner token lists, next index)"""
    a = []
    while is_p(ts, i, "#") and is_g(ts, i + 1, "["):
        a.append(ts[i + 1].sub)
        i += 2
    while is_p(ts, i, "#") and is_p(ts, i + 1, "!") and is_g(ts, i + 2, "["):
        i += 3
        more, i = attrs_at(ts, i)
        a += more
    return a, i


def cfg_ok(attrs):
    return all(cfg_true(a[1].sub) for a in attrs if a and a[0].s == "cfg" and len(a) > 1)


def drop_cfg_in_group(ts, sep=","):
    """comma separated entries (fields, variants, arms of a struct literal) filtered by cfg; attributes dropped"""
    out = []
    for part in split_commas(ts, sep):
        a, j = attrs_at(part, 0)
        if not part:
            continue
        if cfg_ok(a):
            out += part[j:] + [T("p", ",", part[-1].line)]
    return out


def clean_body(ts):
    """attributes inside bodies: match arms, struct literal fields, statements"""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == "p" and t.s == "#" and is_g(ts, i + 1, "["):
            a, j = attrs_at(ts, i)
            if cfg_ok(a):
                i = j
                continue
            # skip what the attribute is on
            k = j
            arrow = False
            while k < len(ts):
                if op2(ts, k, "=>"):
                    arrow = True
                    k += 2
                    if is_g(ts, k, "{"):
                        k += 1
                        if is_p(ts, k, ","):
                            k += 1
                        break
                    continue
                if is_p(ts, k, ",") or is_p(ts, k, ";"):
                    k += 1
                    break
                if is_g(ts, k, "{") and not arrow:
                    k += 1
                    break
                k += 1
            i = k
            continue
        if t.k == "g":
            t.sub = clean_body(t.sub)
        out.append(t)
        i += 1
    return out


# ---------------------------------------------------------------- items

KW = {"fn", "struct", "enum", "trait", "impl", "const", "static", "type", "mod", "use", "macro_rules", "union"}


class Item:
    def __init__(self):
        self.kind = self.name = None
        self.attrs = []
        self.toks = []
        self.line = 0
        self.file = None


def parse_items(ts):
    items, i = [], 0
    while i < len(ts):
        attrs, i = attrs_at(ts, i)
        if i >= len(ts):
            break
        it = Item()
        it.attrs = attrs
        it.line, it.file = ts[i].line, ts[i].file
        start = i
        # visibility
        if is_id(ts, i, "pub"):
            i += 1
            if is_g(ts, i, "("):
                i += 1
        while is_id(ts, i) and ts[i].s in ("unsafe", "extern", "async", "default") or (is_id(ts, i, "const") and is_id(ts, i + 1, "fn")):
            i += 1
        if not is_id(ts, i):
            raise WeaveError(f"{ts[i].file}:{ts[i].line}: item expected at {flat(ts[i:i+4])}")
        k = ts[i].s
        if k == "crate":   # extern crate
            while not is_p(ts, i, ";"):
                i += 1
            i += 1
            it.kind, it.toks = "use", []
            items.append(it)
            continue
        if k not in KW:
            # macro invocation
            j = i
            while is_id(ts, j) or is_p(ts, j, ":"):
                j += 1
            if not is_p(ts, j, "!"):
                raise WeaveError(f"{ts[i].file}:{ts[i].line}: unknown item {k}")
            it.kind, it.name = "invoke", ts[j - 1].s
            g = ts[j + 1]
            it.toks = [g]
            i = j + 2
            if g.s != "{" and is_p(ts, i, ";"):
                i += 1
            items.append(it)
            continue
        it.kind = k
        if k == "macro_rules":
            it.name = ts[i + 2].s
            it.toks = [ts[i + 3]]
            i += 4
            if is_p(ts, i, ";"):
                i += 1
            items.append(it)
            continue
        if k not in ("impl", "use"):
            it.name = ts[i + 1].s
        j = i + 1
        while j < len(ts):
            if is_p(ts, j, ";"):
                j += 1
                break
            if is_g(ts, j, "{") and k not in ("const", "static", "use", "type"):
                j += 1
                break
            j += 1
        it.toks = ts[start:j]
        i = j
        items.append(it)
    return items


# ---------------------------------------------------------------- macros by example

def parse_pattern(ts):
    """[('lit',tok) | ('var',name,frag) | ('rep',pattern,sep,op)]"""
    out, i = [], 0
    while i < len(ts):
        if is_p(ts, i, "#") and is_g(ts, i + 1, "[") and flat(ts[i + 1].sub).replace(" ", "").endswith(":meta"):
            i += 2          # documentation, not kept by the tokenizer
            continue
        if is_p(ts, i, "$"):
            if is_g(ts, i + 1, "("):
                inner = parse_pattern(ts[i + 1].sub)
                j = i + 2
                sep = None
                if not (ts[j].k == "p" and ts[j].s in "*+?"):
                    sep = ts[j]
                    j += 1
                out.append(("rep", inner, sep, ts[j].s))
                i = j + 1
                continue
            out.append(("var", ts[i + 1].s, ts[i + 3].s))
            i += 4
            continue
        if ts[i].k == "g":
            out.append(("grp", ts[i].s, parse_pattern(ts[i].sub)))
        else:
            out.append(("lit", ts[i]))
        i += 1
    return out


def take_frag(frag, ts, i):
    if i >= len(ts):
        return None
    if frag in ("ident", "tt", "literal", "lifetime"):
        return i + 1
    depth, j = 0, i
    while j < len(ts):
        t = ts[j]
        if t.k == "p":
            if frag in ("ty", "path") and t.s == "<":
                depth += 1
            elif frag in ("ty", "path") and t.s == ">" and not (j > i and ts[j - 1].s == "-"):
                depth -= 1
            elif depth == 0 and (t.s in ",;" or op2(ts, j, "=>") or (frag in ("ty", "path") and t.s == "=")):
                break
        j += 1
    return j if j > i else None


def match_macro(pat, ts, i=0):
    b = {}
    for n, p in enumerate(pat):
        if p[0] == "lit":
            if i < len(ts) and ts[i].k != "g" and ts[i].s == p[1].s:
                i += 1
            else:
                return None
        elif p[0] == "grp":
            if is_g(ts, i, p[1]):
                r = match_macro(p[2], ts[i].sub)
                if r is None or r[1] != len(ts[i].sub):
                    return None
                b.update(r[0])
                i += 1
            else:
                return None
        elif p[0] == "var":
            j = take_frag(p[2], ts, i)
            if j is None:
                return None
            b[p[1]] = ts[i:j]
            i = j
        else:
            reps = []
            while i < len(ts):
                k = i
                if reps and p[2] is not None:
                    if is_p(ts, k, p[2].s):
                        k += 1
                    else:
                        break
                r = match_macro(p[1], ts, k)
                if r is None or r[1] == k:
                    break
                reps.append(r[0])
                i = r[1]
            b[("rep", id(p))] = reps
            names = set()
            collect_names(p[1], names)
            for nm in names:
                b[nm] = ("reps", reps)
    return b, i


def collect_names(pat, out):
    for p in pat:
        if p[0] == "var":
            out.add(p[1])
        elif p[0] == "rep":
            collect_names(p[1], out)
        elif p[0] == "grp":
            collect_names(p[2], out)


def transcribe(ts, b):
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == "p" and t.s == "$" and i + 1 < len(ts):
            n = ts[i + 1]
            if n.k == "g":
                j = i + 2
                sep = None
                if not (ts[j].k == "p" and ts[j].s in "*+?"):
                    sep = ts[j]
                    j += 1
                used = set()
                vars_in(n.sub, used)
                reps = None
                for u in used:
                    if u in b and isinstance(b[u], tuple):
                        reps = b[u][1]
                if reps is None:
                    raise WeaveError("repetition without a variable")
                for k, r in enumerate(reps):
                    if k and sep is not None:
                        out += clone([sep])
                    out += transcribe(n.sub, {**b, **r})
                i = j + 1
                continue
            if n.k == "id" and n.s in b:
                v = b[n.s]
                if isinstance(v, tuple):
                    raise WeaveError("variable of a repetition outside it")
                c = clone(v)
                for x in c:
                    x.line = t.line
                out += c
                i += 2
                continue
        if t.k == "g":
            g = T("g", t.s, t.line, sub=transcribe(t.sub, b), file=t.file)
            g.endline = t.endline
            out.append(g)
        else:
            out.append(T(t.k, t.s, t.line, t.joint, file=t.file))
        i += 1
    return out


def vars_in(ts, out):
    for i, t in enumerate(ts):
        if t.k == "p" and t.s == "$" and i + 1 < len(ts) and ts[i + 1].k == "id":
            out.add(ts[i + 1].s)
        if t.k == "g":
            vars_in(t.sub, out)


def expand(macro_item, args):
    body = macro_item.toks[0].sub
    i = 0
    while i < len(body):
        pat, rhs = body[i], body[i + 3]
        r = match_macro(parse_pattern(pat.sub), args)
        if r is not None and r[1] == len(args):
            return transcribe(rhs.sub, r[0])
        i += 4
        if is_p(body, i, ";"):
            i += 1
    raise WeaveError(f"no rule of {macro_item.name}! matches")


def expand_inner(ts, macros):
    """expand invocations of local macros inside a body"""
    i = 0
    out = []
    while i < len(ts):
        t = ts[i]
        if t.k == "id" and t.s in macros and is_p(ts, i + 1, "!") and is_g(ts, i + 2):
            e = expand(macros[t.s], ts[i + 2].sub)
            e = expand_inner(e, macros)
            # a macro in expression position gives a block or an expression
            out.append(T("g", "(", t.line, sub=e, file=t.file))
            i += 3
            continue
        if t.k == "id" and t.s == "stringify" and is_p(ts, i + 1, "!") and is_g(ts, i + 2):
            out.append(T("str", '"' + flat(ts[i + 2].sub) + '"', t.line, file=t.file))
            i += 3
            continue
        if t.k == "id" and t.s == "concat" and is_p(ts, i + 1, "!") and is_g(ts, i + 2):
            parts = [[x for x in p if x.s != ","] for p in split_commas(expand_inner(ts[i + 2].sub, macros))]
            if all(len(p) == 1 and p[0].k == "str" for p in parts):
                out.append(T("str", '"' + "".join(p[0].s[1:-1] for p in parts) + '"', t.line, file=t.file))
                i += 3
                continue
        if t.k == "g":
            t.sub = expand_inner(t.sub, macros)
        out.append(t)
        i += 1
    return out


def load_items(ts, macros):
    """items of a module, cfg-filtered, local macros expanded"""
    out = []
    for it in parse_items(ts):
        if not cfg_ok(it.attrs):
            continue
        if it.kind == "macro_rules":
            macros[it.name] = it
        elif it.kind == "invoke":
            if it.name not in macros:
                raise WeaveError(f"{it.file}:{it.line}: macro {it.name}! not known")
            out += load_items(expand(macros[it.name], it.toks[0].sub), macros)
        else:
            out.append(it)
    return out


# ---------------------------------------------------------------- specs

class FnSpec:
    def __init__(self, name):
        self.name = name
        self.ret = "r"
        self.spec = ""
        self.start = ""
        self.loops = {}
        self.lpre = {}
        self.lstart = {}
        self.lend = {}
        self.anchors = []  # (where, tokens, nth, text)
        self.rewrites = []
        self.attrs = []
        self.body = None
        self.used = False
        self.where = None


class ModSpec:
    def __init__(self, name):
        self.name = name
        self.prelude = ""
        self.fns = {}
        self.adds = {}
        self.drops = set()
        self.types = {}
        self.keep_use = []


def parse_spec(path):
    mods = {}
    mod = fn = None
    sink = None
    buf = []

    def flush():
        nonlocal buf
        if sink:
            sink("".join(buf))
        buf = []

    for n, line in enumerate(open(path), 1):
        m = re.match(r"== ?(\w+) ?(.*)$", line)
        s = re.match(r"-- ?(\w+) ?(.*)$", line) if fn is not None else None
        if m:
            flush()
            fn = None
            what, arg = m.group(1), m.group(2).strip()
            if what == "module":
                mod = mods.setdefault(arg, ModSpec(arg))
                sink = None
            elif what == "prelude":
                def sink(t, mod=mod): mod.prelude += t
            elif what == "fn":
                fn = FnSpec(arg)
                fn.where = f"{os.path.basename(path)}:{n}"
                if arg in mod.fns:
                    raise WeaveError(f"{path}:{n}: {arg} twice")
                mod.fns[arg] = fn
                sink = None
            elif what == "each":
                # == each u16 2 | u32 4 as Trait: the text with $0, $1 replaced, for each
                rows, tr = arg.rsplit(" as ", 1)
                rows = [r.split() for r in rows.split("|")]

                def sink(t, mod=mod, rows=rows, tr=tr):
                    for r in rows:
                        x = t
                        for k in range(len(r) - 1, -1, -1):
                            x = x.replace(f"${k}", r[k].replace("~", " "))
                        key = f"impl {r[0]} as {tr}"
                        mod.adds[key] = mod.adds.get(key, "") + x
            elif what in ("impl", "trait"):
                key = what + " " + arg
                def sink(t, mod=mod, key=key): mod.adds[key] = mod.adds.get(key, "") + t
            elif what == "drop":
                mod.drops.add(arg)
                sink = None
            elif what == "type":
                nm, _, at = arg.partition(" ")
                mod.types[nm] = at
                sink = None
            else:
                raise WeaveError(f"{path}:{n}: {what}")
        elif s:
            flush()
            what, arg = s.group(1), s.group(2).strip()
            if what == "ret":
                fn.ret = arg
                sink = None
            elif what == "attr":
                fn.attrs.append(arg)
                sink = None
            elif what in ("spec", "start"):
                def sink(t, fn=fn, what=what): setattr(fn, what, getattr(fn, what) + t)
            elif what == "body":
                def sink(t, fn=fn): fn.body = t
            elif what == "loop":
                a = arg.split()
                k = int(a[0])
                d = {(): fn.loops, ("start",): fn.lstart, ("end",): fn.lend, ("pre",): fn.lpre}[tuple(a[1:])]
                def sink(t, d=d, k=k): d[k] = d.get(k, "") + t
            elif what in ("before", "after"):
                mm = re.match(r"`(.*)`\s*(?:#(\d+))?$", arg)
                a = (what, tok(mm.group(1)), int(mm.group(2) or 1))
                def sink(t, fn=fn, a=a): fn.anchors.append(a + (t,))
            elif what == "rewrite":
                mm = re.match(r"`(.*)`\s*=>\s*`(.*)`\s*(\?)?$", arg)
                fn.rewrites.append((tok(mm.group(1)), mm.group(2), bool(mm.group(3))))
                sink = None
            else:
                raise WeaveError(f"{path}:{n}: {what}")
        else:
            buf.append(line)
    flush()
    return mods


# ---------------------------------------------------------------- matching token patterns

def same(a, b):
    if a.k == "g" or b.k == "g":
        return a.k == b.k and a.s == b.s and len(a.sub) == len(b.sub) and all(same(x, y) for x, y in zip(a.sub, b.sub))
    return a.s == b.s


def norm(ts):
    """without trailing commas in groups"""
    return ts


def match_at(pat, ts, i, env):
    """pattern with $x (one or more tokens, shortest) -> end index"""
    if not pat:
        return i
    if pat[0].k == "p" and pat[0].s == "$" and len(pat) > 1 and pat[1].k == "id":
        name = pat[1].s
        rest = pat[2:]
        lo = i + 1
        for j in range(lo, len(ts) + 1):
            if not rest and j != len(ts):
                continue
            e = dict(env)
            e[name] = ts[i:j]
            r = match_at(rest, ts, j, e)
            if r is not None:
                env.clear()
                env.update(e)
                return r
        return None
    if i >= len(ts):
        return None
    p, t = pat[0], ts[i]
    if p.k == "g":
        if t.k != "g" or t.s != p.s:
            return None
        sub = t.sub
        if sub and is_p(sub, len(sub) - 1, ",") and not (p.sub and is_p(p.sub, len(p.sub) - 1, ",")):
            sub = sub[:-1]
        if p.sub or sub:
            r = match_at(p.sub, sub, 0, env)
            if r != len(sub):
                return None
    elif t.k == "g" or t.k == "ghost" or t.s != p.s:
        return None
    return match_at(pat[1:], ts, i + 1, env)


def rewrite_all(pat, repl, ts, count):
    out, i = [], 0
    while i < len(ts):
        env = {}
        r = match_at(pat, ts, i, env)
        if r is not None and r > i:
            count[0] += 1
            new = tok(repl)
            for x in walk(new):
                x.line, x.file = ts[i].line, ts[i].file
                x.endline = ts[i].line
            out += subst(new, env)
            i = r
            continue
        if ts[i].k == "g":
            ts[i].sub = rewrite_all(pat, repl, ts[i].sub, count)
        out.append(ts[i])
        i += 1
    return out


def walk(ts):
    for t in ts:
        yield t
        if t.k == "g":
            yield from walk(t.sub)


def subst(ts, env):
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == "p" and t.s == "$" and is_id(ts, i + 1) and ts[i + 1].s in env:
            out += clone(env[ts[i + 1].s])
            i += 2
            continue
        if t.k == "g":
            t.sub = subst(t.sub, env)
        out.append(t)
        i += 1
    return out


def insert_anchor(ts, where, pat, nth, text, seen):
    """inserts at the nth match, depth first; True if done"""
    i = 0
    while i < len(ts):
        if match_at(pat, ts, i, {}) is not None:
            seen[0] += 1
            if seen[0] == nth:
                r = match_at(pat, ts, i, {})
                ts.insert(i if where == "before" else r, ghost(text))
                return True
        if ts[i].k == "g" and insert_anchor(ts[i].sub, where, pat, nth, text, seen):
            return True
        i += 1
    return False


# ---------------------------------------------------------------- rewrites of bodies

def recv_start(ts, i):
    """start of the postfix expression that ends right before index i (ts[i] is '.' or '?')"""
    j = i - 1
    while j >= 0:
        t = ts[j]
        if t.k == "p" and t.s == "?":
            j -= 1
            continue
        if t.k == "g" and t.s in "([":
            # call args, index, macro args, or a parenthesised expression
            p = ts[j - 1] if j else None
            if p is not None and p.s == ">" and j >= 2 and ts[j - 2].s in ("=", "-") and ts[j - 2].joint:
                return j
            if p is not None and (p.k == "g" or (p.k == "id" and p.s not in KEYWORDS) or (p.k == "p" and p.s in ">?")):
                j -= 1
                continue
            if p is not None and p.k == "p" and p.s == "!":
                j -= 2
                continue
            return j
        if t.k == "g":
            return j
        if t.k in ("id", "num", "str", "chr"):
            if j >= 1 and is_p(ts, j - 1, ".") and not op2(ts, j - 2, ".."):
                j -= 2
                continue
            if j >= 2 and op2(ts, j - 2, "::"):
                j -= 3
                if j < 0:
                    return 0
                if ts[j].k == "p" and ts[j].s == ">":
                    continue
                if ts[j].k == "id":
                    continue
                return j + 1
            return j
        if t.k == "p" and t.s == ">":
            d, k = 0, j
            while k >= 0:
                if ts[k].k == "p" and ts[k].s == ">" and not (k and ts[k - 1].s in "-=" and ts[k - 1].joint):
                    d += 1
                if ts[k].k == "p" and ts[k].s == "<":
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            if k < 0:
                raise WeaveError(f"{t.file}:{t.line}: receiver not understood")
            if k >= 2 and op2(ts, k - 2, "::"):
                j = k - 3
                continue
            return k
        raise WeaveError(f"{t.file}:{t.line}: receiver not understood")
    return 0


KEYWORDS = {"match", "if", "return", "in", "let", "else", "while", "for", "loop", "mut", "ref", "break", "move"}


def mk(text, line, file):
    ts = tok(text)
    for x in walk(ts):
        x.line = x.endline = line
        x.file = file
    return ts


class Rw:
    def __init__(self, consts, fnname):
        self.consts = consts
        self.n = 0
        self.loops = 0
        self.fn = fnname

    def fresh(self, p):
        self.n += 1
        return f"__{p}{self.n}"

    # str comparisons -------------------------------------------------------
    def str_cond(self, pat, var, line, file):
        """condition that &str `var` matches the pattern"""
        alts = split_commas(pat, "|")
        out = []
        for a in alts:
            if len(a) == 1 and a[0].k == "str":
                out.append(f"vx_str_is({var}, {a[0].s})")
                continue
            nm = a[-1].s
            if len(a) >= 1 and nm in self.consts and isinstance(self.consts[nm], str):
                out.append(f"vx_str_is({var}, {self.consts[nm]})")
            else:
                raise WeaveError(f"{file}:{line}: pattern {flat(a)} of a text")
        return "(" + " || ".join(out) + ")"

    def set_cond(self, name, var):
        c = self.consts.get(name)
        if not isinstance(c, list):
            raise WeaveError(f"{name} is no set of texts")
        return "(" + " || ".join(f"vx_str_is({var}, {x})" for x in c) + ")" if c else "(false)"

    def list_cond(self, name, var):
        c = self.consts.get(name)
        if not isinstance(c, list):
            raise WeaveError(f"{name} is no list of texts")
        return "(" + " && ".join([f"{var}.len() == {len(c)}"] + [f"vx_str_is({var}[{i}], {x})" for i, x in enumerate(c)]) + ")"

    def arms(self, ts):
        out, i = [], 0
        while i < len(ts):
            j = i
            while not op2(ts, j, "=>"):
                j += 1
                if j >= len(ts):
                    raise WeaveError("match arm")
            pat = ts[i:j]
            guard = None
            for k, t in enumerate(pat):
                if t.k == "id" and t.s == "if":
                    pat, guard = pat[:k], pat[k + 1:]
                    break
            j += 2
            if is_g(ts, j, "{") and (j + 1 >= len(ts) or is_p(ts, j + 1, ",") or True) and not (j + 1 < len(ts) and ts[j + 1].k == "p" and ts[j + 1].s in ".?"):
                body = [ts[j]]
                j += 1
                if is_p(ts, j, ","):
                    j += 1
            else:
                k = j
                d = 0
                while k < len(ts):
                    t = ts[k]
                    if t.k == "p" and t.s == "<" and k and op2(ts, k - 2, "::"):
                        d += 1
                    elif t.k == "p" and t.s == "<" and (k == j):
                        d += 1
                    elif t.k == "p" and t.s == "<" and d:
                        d += 1
                    elif t.k == "p" and t.s == ">" and d and not (ts[k - 1].s in "-=" and ts[k - 1].joint):
                        d -= 1
                    elif t.k == "p" and t.s == "," and d == 0:
                        break
                    k += 1
                body = ts[j:k]
                j = k + 1
            out.append((pat, guard, body))
            i = j
        return out

    def str_match(self, scrut, arms, line, file, is_list):
        v = self.fresh("s")
        text_pre = mk(f"let {v} = ", line, file) + scrut + mk(";", line, file)
        out, closed = [], False
        n_else = 0
        chain = []
        for pat, guard, body in arms:
            body = self.body(body)
            if len(pat) == 1 and pat[0].k == "id" and pat[0].s == "_" and guard is None:
                chain.append((None, [], body))
                closed = True
                break
            if len(pat) == 1 and pat[0].k == "id" and pat[0].s not in self.consts and not pat[0].s.isupper():
                bind = mk(f"let {pat[0].s} = {v};", line, file)
                if guard is None:
                    chain.append((None, bind, body))
                    closed = True
                    break
                chain.append((self.body(guard, {pat[0].s: v}), bind, body))
                continue
            if is_list:
                cond = mk(self.list_cond(pat[-1].s, v), line, file)
            else:
                cond = mk(self.str_cond(pat, v, line, file), line, file)
            if guard is not None:
                cond += mk("&&", line, file) + [T("g", "(", line, sub=self.body(guard), file=file)]
            chain.append((cond, [], body))
        if not closed:
            raise WeaveError(f"{file}:{line}: match of a text without a last arm")
        # nested if/else
        acc = None
        for cond, bind, body in reversed(chain):
            blk = T("g", "{", body[0].line if body else line, sub=bind + body, file=file)
            if cond is None:
                acc = [blk]
            else:
                if len(acc) == 1 and acc[0].k == "g":
                    e = acc
                else:
                    e = acc
                acc = mk("if", line, file) + cond + [blk] + mk("else", line, file) + e
        return [T("g", "{", line, sub=text_pre + acc, file=file)]

    # ----------------------------------------------------------------------
    def body(self, ts, ren=None):
        """rewrites a list of tokens; returns the new list"""
        ts = list(ts)
        # 1. matches on texts and loops (statement level, left to right)
        out, i = [], 0
        while i < len(ts):
            t = ts[i]
            if t.k == "id" and t.s == "match":
                j = i + 1
                while not is_g(ts, j, "{"):
                    j += 1
                scrut, blk = ts[i + 1:j], ts[j]
                st = flat(scrut)
                ends = len(scrut) >= 3 and is_p(scrut, len(scrut) - 3, ".") and is_g(scrut, len(scrut) - 1, "(")
                last = scrut[-2].s if ends else ""
                if last == "as_str":
                    out += self.str_match(self.body(scrut), self.arms(blk.sub), t.line, t.file, False)
                    i = j + 1
                    continue
                if "namespace" in st and "as_str" in st and last in ("as_ref", "as_slice"):
                    k = next(n for n, x in enumerate(scrut) if x.s == "namespace")
                    path = scrut[:k - 1]
                    want = tok("X.namespace().iter().map(|x| x.as_str()).collect::<Vec<&str>>().as_ref()")[2:]
                    if match_at(want, scrut, k, {}) != len(scrut):
                        raise WeaveError(f"{t.file}:{t.line}: namespace chain not understood")
                    sc = mk("vx_namespace", t.line, t.file) + [T("g", "(", t.line, sub=mk("&", t.line, t.file) + path, file=t.file)]
                    out += self.str_match(sc, self.arms(blk.sub), t.line, t.file, True)
                    i = j + 1
                    continue
            if t.k == "id" and t.s == "vec" and is_p(ts, i + 1, "!") and is_g(ts, i + 2):
                parts = [x for x in split_commas(self.body(ts[i + 2].sub)) if x]
                if len(parts) > 1:
                    raise WeaveError(f"{t.file}:{t.line}: vec! not understood")
                out += mk("vx_vec1", t.line, t.file) + [T("g", "(", t.line, sub=parts[0], file=t.file)] if parts else mk("Vec::new()", t.line, t.file)
                i += 3
                continue
            if t.k == "id" and t.s in ("format", "unreachable") and is_p(ts, i + 1, "!") and is_g(ts, i + 2):
                out += self.format(ts[i + 2].sub, t.line, t.file) if t.s == "format" else mk("vx_unreachable()", t.line, t.file)
                i += 3
                continue
            if t.k == "id" and t.s == "for" and not is_p(ts, i + 1, "<"):
                j = i + 1
                while not is_id(ts, j, "in"):
                    j += 1
                k = j + 1
                while not is_g(ts, k, "{"):
                    k += 1
                out += self.for_loop(ts[i + 1:j], ts[j + 1:k], ts[k])
                i = k + 1
                continue
            if t.k == "g":
                t.sub = self.body(t.sub, ren)
            out.append(t)
            i += 1
        ts = out
        # 2. postfix chains, left to right
        i = 0
        while i < len(ts):
            if is_p(ts, i, ".") and is_id(ts, i + 1) and not (i and op2(ts, i - 1, "..")) and not op2(ts, i, ".."):
                m = ts[i + 1].s
                line, file = ts[i].line, ts[i].file
                call = is_g(ts, i + 2, "(")
                if m in ("map_err", "map") and call and self.convertible(ts[i + 2].sub, m):
                    s = recv_start(ts, i)
                    recv = ts[s:i]
                    e = self.conv(recv, ts[i + 2].sub, m, line, file)
                    ts[s:i + 3] = e
                    i = s + len(e)
                    continue
                if m == "try_into" and call and not ts[i + 2].sub:
                    s = recv_start(ts, i)
                    e = mk("vx_try_into", line, file) + [T("g", "(", line, sub=ts[s:i], file=file)]
                    ts[s:i + 3] = e
                    i = s + len(e)
                    continue
                if m == "to_string" and call and not ts[i + 2].sub:
                    ts[i + 1].s = "vx_show"
                if m in ("clone", "to_owned", "to_vec") and call and not ts[i + 2].sub:
                    ts[i + 1].s = "vx_" + m
                if m == "__id":
                    ts[i + 1].s = "id"
                elif m == "id" and not call:
                    ts[i + 1].s = "vx_id"
                    ts.insert(i + 2, T("g", "(", line, sub=[], file=file))
                if m == "contains" and call:
                    # SET.contains(&a) with a known set of texts
                    s = recv_start(ts, i)
                    recv, arg = ts[s:i], ts[i + 2].sub
                    if len(recv) == 1 and recv[0].s in self.consts and isinstance(self.consts[recv[0].s], list):
                        a = arg[1:] if is_p(arg, 0, "&") else arg
                        var = flat(a)
                        if ren and var in ren:
                            var = ren[var]
                        e = mk(self.set_cond(recv[0].s, var), line, file)
                        ts[s:i + 3] = e
                        i = s + len(e)
                        continue
                i += 2
                continue
            i += 1
        return ts

    def format(self, sub, line, file):
        """format! with plain placeholders -> concatenation of the shown pieces"""
        parts = split_commas(sub)
        parts = [p for p in parts if p]
        lit = parts[0]
        if len(lit) != 1 or not lit[0].s.startswith('"'):
            raise WeaveError(f"{file}:{line}: format! not understood")
        text, args, pieces = lit[0].s[1:-1], parts[1:], []
        named = {p[0].s: p[2:] for p in args if len(p) > 2 and p[0].k == "id" and is_p(p, 1, "=") and not op2(p, 1, "==")}
        args = [p for p in args if not (p[0].k == "id" and p[0].s in named and is_p(p, 1, "="))]
        k = n = 0
        cur = ""
        while k < len(text):
            c = text[k]
            if c in "{}" and text[k:k + 2] == c * 2:
                cur += c
                k += 2
            elif c == "{":
                e = text.index("}", k)
                name = text[k + 1:e]
                if cur:
                    pieces.append(mk('"' + cur + '".vx_show()', line, file))
                    cur = ""
                if name == "":
                    ex = args[n]
                    n += 1
                elif name.isdigit():
                    ex = args[int(name)]
                elif re.fullmatch(r"[A-Za-z_]\w*", name):
                    ex = named.get(name) or mk(name, line, file)
                else:
                    raise WeaveError(f"{file}:{line}: format! not understood")
                pieces.append([T("g", "(", line, sub=self.body(clone(ex)), file=file)] + mk(".vx_show()", line, file))
                k = e + 1
            else:
                cur += c
                k += 1
        if cur or not pieces:
            pieces.append(mk('"' + cur + '".vx_show()', line, file))
        out = pieces[0]
        for p in pieces[1:]:
            out = mk("vx_cat", line, file) + [T("g", "(", line, sub=out + mk(",", line, file) + p, file=file)]
        return out

    def convertible(self, arg, m):
        if m == "map_err":
            return True
        # Result::map with a constructor
        return bool(arg) and arg[0].k == "id" and all(x.k == "id" or x.s == ":" for x in arg) and arg[-1].s[0].isupper()

    def conv(self, recv, arg, m, line, file):
        a, b = ("Err", "Ok") if m == "map_err" else ("Ok", "Err")
        if is_p(arg, 0, "|"):
            j = 1
            while not is_p(arg, j, "|"):
                j += 1
            pat = arg[1:j]
            ex = arg[j + 1:]
            if is_p(ex, len(ex) - 1, ","):
                ex = ex[:-1]
        else:
            v = self.fresh("e")
            if is_p(arg, len(arg) - 1, ","):
                arg = arg[:-1]
            pat = mk(v, line, file)
            ex = arg + [T("g", "(", line, sub=mk(v, line, file), file=file)]
        w = self.fresh("v")
        head = mk("match", line, file) + recv
        arms = mk(f"Result::{b}({w}) => Result::{b}({w}), Result::{a}", line, file) + [T("g", "(", line, sub=pat, file=file)]
        arms += mk("=>", line, file) + mk(f"Result::{a}", line, file) + [T("g", "(", line, sub=ex, file=file)] + mk(",", line, file)
        return [T("g", "(", line, sub=head + [T("g", "{", line, sub=arms, file=file)], file=file)]

    def for_loop(self, pat, ex, blk):
        line, file = blk.line, blk.file
        n = blk.loopno
        body = self.body(blk.sub)
        # range
        for k in range(len(ex)):
            if op2(ex, k, "..") and not (k + 2 < len(ex) and is_p(ex, k + 2, "=")):
                a, b = self.body(ex[:k]), self.body(ex[k + 2:])
                i, e = f"__i{n}", f"__e{n}"
                pre = mk(f"let mut {i} = ", line, file) + a + mk(f"; let {e} = ", line, file) + b + mk(";", line, file)
                bind = mk("let", line, file) + pat + mk(f"= {i}; {i} = {i} + 1;", line, file)
                w = mk(f"while {i} < {e}", line, file) + [ghost(blk.inv or "")]
                blk.sub = [ghost(blk.gs)] + bind + closed(body, blk.ge) + [ghost(blk.ge)]
                return [T("g", "{", line, sub=pre + [ghost(getattr(blk, "pre", ""))] + w + [blk], file=file)] if False else [ghost("{")] + pre + w + [blk] + [ghost("}")]
        ex2 = ex
        enum = False
        if match_at(tok(".enumerate()"), ex2, len(ex2) - 3, {}) == len(ex2) if len(ex2) > 3 else False:
            ex2 = ex2[:-3]
            enum = True
        if len(ex2) > 3 and match_at(tok(".iter()"), ex2, len(ex2) - 3, {}) == len(ex2):
            ex2 = ex2[:-3]
        else:
            raise WeaveError(f"{file}:{line}: loop over {flat(ex)}")
        i, s = f"__i{n}", f"__s{n}"
        pre = mk(f"let {s} = &", line, file) + self.body(ex2) + mk(f"; let mut {i}: usize = 0;", line, file)
        w = mk(f"while {i} < {s}.len()", line, file) + [ghost(blk.inv or "")]
        val = f"= ({i} - 1, &{s}[{i} - 1]);" if enum else f"= &{s}[{i} - 1];"
        bind = mk(f"{i} = {i} + 1; let", line, file) + pat + mk(val, line, file)
        blk.sub = [ghost(blk.gs)] + bind + closed(body, blk.ge) + [ghost(blk.ge)]
        return [ghost("{")] + pre + w + [blk] + [ghost("}")]


class Loop(T):
    __slots__ = ("loopno", "inv", "gs", "ge")


def number_loops(ts, spec, counter):
    """marks loop bodies in order of appearance; inserts invariants of loop/while"""
    i = 0
    while i < len(ts):
        t = ts[i]
        if t.k == "id" and t.s in ("for", "while", "loop") and not (t.s == "for" and is_p(ts, i + 1, "<")):
            j = i + 1
            while not is_g(ts, j, "{"):
                if ts[j].k == "g":
                    number_loops(ts[j].sub, spec, counter)
                j += 1
            counter[0] += 1
            n = counter[0]
            b = ts[j]
            L = Loop("g", "{", b.line, sub=b.sub, file=b.file)
            L.endline = b.endline
            L.loopno, L.inv, L.gs, L.ge = n, spec.loops.get(n), spec.lstart.get(n, ""), spec.lend.get(n, "")
            ts[j] = L
            number_loops(L.sub, spec, counter)
            if n in spec.lpre:
                ts.insert(i, ghost(spec.lpre[n]))
                j += 1
            if t.s != "for":
                L.sub = [ghost(L.gs)] + closed(L.sub, L.ge) + [ghost(L.ge)]
                if L.inv:
                    ts.insert(j, ghost(L.inv))
                    j += 1
            i = j + 1
            continue
        if t.k == "g":
            number_loops(t.sub, spec, counter)
        i += 1


# ---------------------------------------------------------------- emission

class Out:
    def __init__(self):
        self.lines = []
        self.map = []  # (source file, source line) or (spec, None)
        self.cur = ""
        self.at = None

    def nl(self):
        if self.cur.strip():
            self.lines.append(self.cur)
            self.map.append(self.at)
        self.cur = ""
        self.at = None

    def raw(self, text, where=None):
        self.nl()
        for l in text.split("\n"):
            self.lines.append(l)
            self.map.append(where)

    def toks(self, ts, where=None):
        for t in ts:
            if t.k == "ghost":
                if t.s.strip():
                    if t.s in "{}":
                        self.cur += t.s + " "
                    else:
                        self.nl()
                        self.raw(t.s, where)
                continue
            if t.line and self.at and t.file == self.at[0] and t.line > self.at[1]:
                self.nl()
            if self.at is None and t.line:
                self.at = (t.file, t.line)
            if t.k == "g":
                self.cur += t.s
                if t.s == "{":
                    self.cur += " "
                self.toks(t.sub, where)
                self.cur += CLOSE[t.s] + " "
            else:
                self.cur += t.s + ("" if t.joint else " ")


def find_consts(items):
    c = {}
    for it in items:
        if it.kind == "const":
            f = flat(it.toks)
            m = re.match(r'(?:pub (?:\( [^)]* \) )?)?const (\w+) : & (?:\'static )?str = ("(?:[^"\\]|\\.)*") ;', f)
            if m:
                c[m.group(1)] = m.group(2)
                continue
            m = re.match(r'(?:pub (?:\( [^)]* \) )?)?const (\w+) : & ?(?:\'static )?\[ & (?:\'static )?str \] = & ?\[ (.*) \] ;', f)
            if m:
                c[m.group(1)] = re.findall(r'"(?:[^"\\]|\\.)*"', m.group(2))
    return c


class FnParts:
    pass


def split_fn(ts):
    p = FnParts()
    i = 0
    while not is_id(ts, i, "fn"):
        i += 1
    p.quals = ts[:i]
    p.name = ts[i + 1].s
    j = i + 2
    if is_p(ts, j, "<"):
        d, k = 0, j
        while True:
            if is_p(ts, k, "<"):
                d += 1
            elif is_p(ts, k, ">") and not (ts[k - 1].s == "-" and ts[k - 1].joint):
                d -= 1
                if d == 0:
                    break
            k += 1
        p.generics = ts[j:k + 1]
        j = k + 1
    else:
        p.generics = []
    p.params = ts[j]
    j += 1
    p.ret = []
    if op2(ts, j, "->"):
        j += 2
        k = j
        while k < len(ts) and not is_id(ts, k, "where") and not is_g(ts, k, "{") and not is_p(ts, k, ";"):
            k += 1
        p.ret = ts[j:k]
        j = k
    p.where = []
    if is_id(ts, j, "where"):
        k = j
        while k < len(ts) and not is_g(ts, k, "{") and not is_p(ts, k, ";"):
            k += 1
        p.where = ts[j:k]
        j = k
    p.body = ts[j] if is_g(ts, j, "{") else None
    return p


def strip_vis(ts):
    if is_id(ts, 0, "pub"):
        return ts[2:] if is_g(ts, 1, "(") else ts[1:]
    return ts


class Weaver:
    def __init__(self, src, mods, trust=(), canary=False):
        self.src, self.mods = src, mods
        self.items = {}
        self.mention = ""
        self.consts = {}
        self.macros = {}
        self.problems = []   # functions that could not be woven
        self.report = []     # functions under contract
        self.spans = []      # (first line, first body line, end line, module, function)
        self.weak = {}       # (module, function) -> hint that was left out
        self.lost = {}       # (module, function) -> why its body could not be woven
        self.trust = set(trust)
        self.canary = canary
        self.no_canary = set()
        self.o = Out()

    def load(self, order):
        for m in order:
            path = os.path.join(self.src, m + ".rs")
            ts = tokenize(open(path).read(), "src/" + m + ".rs")
            mac = {}
            its = load_items(ts, mac)
            for it in its:
                if it.kind not in ("use",):
                    it.toks = self.bounds(it.toks)
            self.macros[m] = mac
            self.items[m] = its
            self.consts.update(find_consts(its))

    def fn(self, key, ts, spec, module, in_trait):
        o = self.o
        o.nl()
        first = len(o.lines)
        self.body_at = first
        self.fn_(key, ts, spec, module, in_trait)
        o.nl()
        self.spans.append((first, self.body_at, len(o.lines), module, key))

    def fn_(self, key, ts, spec, module, in_trait):
        o = self.o
        spec.used = True
        p = split_fn(clone(ts))
        where = (f"proof/specs/{spec.where}", None)
        o.nl()
        for a in spec.attrs:
            o.raw(a, where)
        if (module, key) in self.trust:
            o.raw("#[verifier::external_body]", where)
        if not in_trait:
            o.cur += "pub "
        quals = [t for t in p.quals if t.s not in ("pub",) and t.k != "g" and t.s != "const"]
        o.toks(quals)
        ret = []
        if p.ret:
            ret = mk("-> ", p.params.line, p.params.file) + [T("g", "(", p.params.line, sub=mk(spec.ret + ":", p.params.line, p.params.file) + p.ret, file=p.params.file)]
        o.toks(mk("fn " + p.name, p.params.line, p.params.file))
        o.toks(p.generics + [p.params] + ret + p.where)
        o.nl()
        if spec.spec.strip():
            o.raw(spec.spec.rstrip(), where + (key,))
        if p.body is None:
            o.cur += ";"
            o.nl()
            self.report.append((module, key, "declared"))
            return
        if spec.body is not None or any("external_body" in a for a in spec.attrs):
            o.raw("{ " + (spec.body or "unimplemented!()") + " }", where)
            self.report.append((module, key, "trusted"))
            return
        self.body_at = len(o.lines)
        if (module, key) in self.trust:
            o.raw("{ unimplemented!() }", where)
            self.report.append((module, key, "no verdict"))
            return
        body = p.body
        try:
            self.prepare(body, spec, module, key)
        except WeaveError as e:
            if not self.trusting:
                raise
            self.lost[(module, key)] = str(e)
            self.trust.add((module, key))
            raise Again()
        if self.canary:
            if "spec fn" in flat(p.quals):
                self.no_canary.add((module, key))
            body.sub.insert(1 if spec.start.strip() else 0, ghost("assert(false);"))
        o.toks([body], where)
        o.nl()
        self.report.append((module, key, "proved"))

    def prepare(self, body, spec, module, key):
        body.sub = clean_body(body.sub)
        body.sub = expand_inner(body.sub, {k: v for k, v in self.macros[module].items()})
        for where_a, pat, nth, text in spec.anchors:
            if not insert_anchor(body.sub, where_a, pat, nth, text, [0]):
                if not self.trusting:
                    raise WeaveError(f"{key}: place of a proof hint not found: {flat(pat)}")
                # may do without it; if it does not, there is no verdict
                self.weak[(module, key)] = f"place of a proof hint not found: {flat(pat)}"
        for pat, repl, opt in spec.rewrites:
            c = [0]
            body.sub = rewrite_all(pat, repl, body.sub, c)
            if not c[0] and not opt:
                raise WeaveError(f"{key}: {flat(pat)} not found")
        cnt = [0]
        number_loops(body.sub, spec, cnt)
        if spec.loops and max(spec.loops) > cnt[0] or cnt[0] > len(spec.loops):
            raise WeaveError(f"{key}: {cnt[0]} loops, {len(spec.loops)} with an invariant")
        body.sub = Rw(self.consts, key).body(body.sub)
        if self.mention:
            body.sub.insert(0, ghost(self.mention))
        if spec.start.strip():
            body.sub.insert(0, ghost(spec.start.rstrip()))

    def bounds(self, ts):
        """the bounds HasCompact and std::fmt::Display become the contracts of compact (VxCompact) and printed (VxShow) values"""
        for i, t in enumerate(ts):
            if t.k == "g":
                self.bounds(t.sub)
            if t.k == "id" and t.s == "HasCompact":
                t.s = "VxCompact"
            if t.k == "id" and t.s == "std" and re.sub(r"\s", "", flat(ts[i:i + 7])) == "std::fmt::Display":
                t.s = "VxShow"
                del ts[i + 1:i + 7]
        return ts

    def pick(self, ms, key):
        if key in ms.fns:
            return ms.fns[key]
        if " as " in key:
            w = "* as " + key.split(" as ", 1)[1]
            return ms.fns.get(w)
        return None

    def fields_pub(self, g):
        sub = drop_cfg_in_group(g.sub)
        out = []
        for part in split_commas(sub):
            if part:
                out += mk("pub", part[0].line, part[0].file) + strip_vis(part) + [T("p", ",", part[-1].line, file=part[-1].file)]
        g.sub = out
        return g

    def module(self, m, only=None):
        o = self.o
        ms = self.mods[m]
        o.raw(f"pub mod {m} {{\nuse vstd::prelude::*;\nuse crate::vx::*;")
        o.raw(ms.prelude.rstrip().split("//VERUS")[0], (f"proof/specs/{m}.vspec", None))
        o.raw("verus! {\nbroadcast use crate::vx::axiom_question_mark;")
        if "//VERUS" in ms.prelude:
            o.raw(ms.prelude.split("//VERUS", 1)[1].rstrip(), (f"proof/specs/{m}.vspec", None))
        for it in self.items[m]:
            if it.kind in ("use", "mod", "static"):
                continue
            if it.name and it.name in ms.drops:
                continue
            ts = clone(it.toks)
            if it.kind in ("struct", "enum"):
                if it.name in ms.types and ms.types[it.name] == "drop":
                    continue
                derives = set()
                for a in it.attrs:
                    if a[0].s == "derive":
                        derives |= {t.s for t in a[1].sub if t.k == "id"}
                keep = [d for d in ("Clone", "Copy", "Debug", "Eq", "PartialEq") if d in derives]
                at = ms.types.get(it.name)
                private = at is not None and at.startswith("private ")
                if private:
                    at = at[len("private "):]
                if at is not None:
                    o.raw(at)
                elif keep:
                    o.raw("#[verifier::external_derive]\n#[derive(" + ", ".join(keep) + ")]")
                ts = strip_vis(ts)
                for t in ts:
                    if t.k == "g" and t.s in "{(":
                        if private:
                            pass
                        elif it.kind == "struct":
                            self.fields_pub(t)
                        else:
                            t.sub = drop_cfg_in_group(t.sub)
                            for x in t.sub:
                                if x.k == "g":
                                    x.sub = drop_cfg_in_group(x.sub)
                o.toks(mk("pub ", it.line, it.file) + ts)
                o.nl()
            elif it.kind in ("const", "type"):
                if it.name in self.consts or it.name in ms.types and ms.types[it.name] == "drop":
                    continue
                o.toks(mk("pub ", it.line, it.file) + strip_vis(ts))
                o.nl()
            elif it.kind == "fn":
                sp = self.pick(ms, it.name)
                if sp:
                    self.fn(it.name, ts, sp, m, False)
            elif it.kind == "trait":
                ts = strip_vis(ts)
                head, g = ts[:-1], ts[-1]
                if ms.types.get(it.name) == "drop":
                    continue
                if not any(t.s == ":" for t in head):
                    w = next((k for k, t in enumerate(head) if t.s == "where"), len(head))
                    head = head[:w] + mk(": Sized", it.line, it.file) + head[w:]
                o.toks(mk("pub ", it.line, it.file) + head)
                o.cur += "{"
                o.nl()
                for sub in parse_items(g.sub):
                    if not cfg_ok(sub.attrs):
                        continue
                    if sub.kind == "fn":
                        k = f"{it.name}::{sub.name}"
                        sp = self.pick(ms, k)
                        if sp:
                            self.fn(k, sub.toks, sp, m, True)
                    else:
                        o.toks(sub.toks)
                        o.nl()
                o.raw(ms.adds.get("trait " + it.name, ""), (f"proof/specs/{m}.vspec", None))
                o.raw("}")
            elif it.kind == "impl":
                self.impl(it, ts, m, ms)
        o.raw("} }")
        for k, s in ms.fns.items():
            if not s.used:
                self.problems.append(f"{m}: function {k} is not there")

    def impl(self, it, ts, m, ms):
        o = self.o
        head, g = ts[:-1], ts[-1]
        j = 1
        if is_p(head, 1, "<"):
            d, k = 0, 1
            while True:
                if is_p(head, k, "<"):
                    d += 1
                elif is_p(head, k, ">"):
                    d -= 1
                    if d == 0:
                        break
                k += 1
            j = k + 1
        h = head[j:]
        for k, t in enumerate(h):
            if t.k == "id" and t.s == "where":
                h = h[:k]
                break
        is_trait = any(t.k == "id" and t.s == "for" for t in h)
        txt = re.sub(r"\s+", "", flat([t if t.s != "for" else T("id", "~for~") for t in h]))
        if is_trait:
            tr, _, ty = txt.partition("~for~")
            base = f"{ty} as {tr}"
        else:
            base = txt
        fns = []
        for sub in parse_items(g.sub):
            if not cfg_ok(sub.attrs):
                continue
            if sub.kind == "fn":
                key = f"{base}::{sub.name}"
                sp = self.pick(ms, key)
                if sp:
                    fns.append((key, sub, sp))
            else:
                fns.append((None, sub, None))
        key = "impl " + base
        add = ms.adds.get(key)
        if add is None and is_trait:
            add = ms.adds.get("impl * as " + base.split(" as ", 1)[1])
        if not any(k for k, _, _ in fns) and add is None:
            return
        o.toks(head)
        o.cur += "{"
        o.nl()
        self.mention = mention(add, tr) if add and is_trait else ""
        for k, sub, sp in fns:
            if k is None:
                o.toks(sub.toks)
                o.nl()
            else:
                self.fn(k, sub.toks, sp, m, is_trait)
        self.mention = ""
        if add:
            o.raw(add, (f"proof/specs/{m}.vspec", None))
        o.raw("}")


def mention(add, tr):
    """a ghost statement that names the spec functions of an impl: the verifier has the definition of a spec function at hand
    in an obligation only if it comes before it in the order of calls"""
    out = []
    for mm in re.finditer(r"spec fn (\w+)\(([^{]*?)\) -> ", add):
        ps = [x.strip() for x in re.split(r",(?![^<(]*[>)])", mm.group(2)) if x.strip()]
        tys = ["&Self" if x == "&self" else "Self" if x == "self" else x.split(":", 1)[1].strip() for x in ps]
        names = [f"a{k}" for k in range(len(tys))]
        call = f"<Self as {tr}>::{mm.group(1)}({', '.join(names)})"
        out.append(f"let ghost __m{len(out)} = " + (f"|{', '.join(f'{a}: {t}' for a, t in zip(names, tys))}| {call};" if tys else call + ";"))
    return " ".join(out)


class Again(Exception):
    pass


def load_specs(specdir):
    mods = {}
    for f in sorted(os.listdir(specdir)):
        if f.endswith(".vspec"):
            for k, v in parse_spec(os.path.join(specdir, f)).items():
                mods[k] = v
    return mods


ORDER = ["error", "printing_balance", "additional_types", "special_indicators", "cards", "propagated", "compacts", "special_types", "decoding_sci",
         "decoding_sci_ext", "storage_data", "unchecked_extrinsic", "lib", "traits"]


def run(self, specdir):
    """text of the verified crate; a function that cannot be woven is taken by its contract alone (lost)"""
    order = [m for m in ORDER if m in self.mods]
    self.load(order)
    vx = open(os.path.join(specdir, "vx.rs")).read()
    while True:
        self.o, self.report, self.spans, self.problems = Out(), [], [], []
        for ms in self.mods.values():
            for sp in ms.fns.values():
                sp.used = False
        try:
            self.o.raw(vx, ("proof/specs/vx.rs", None))
            for m in order:
                self.module(m)
            break
        except Again:
            continue
    self.o.raw("fn main() {}")
    self.o.nl()
    return "\n".join(self.o.lines) + "\n"


Weaver.run = run
Weaver.trusting = True

if __name__ == "__main__":
    import sys
    Weaver.trusting = False
    sd = os.path.join(HERE, "specs")
    w = Weaver(sys.argv[1] if len(sys.argv) > 1 else "/repo/src", load_specs(sd))
    text = w.run(sd)
    out = sys.argv[2] if len(sys.argv) > 2 else "/tmp/woven.rs"
    open(out, "w").write(text)
    for p in w.problems:
        print("problem:", p)
    print(len(w.report), "functions,", text.count("\n"), "lines")
