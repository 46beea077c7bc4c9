"""Verus units: real functions of /repo, extracted on every run, under the contracts in verus/*.vrs.

A unit is a Verus file with directives. `/*@ struct FILE NAME */`, `/*@ enum FILE NAME */` and
`/*@ const FILE NAME */` are replaced by the item of that name, and

    /*@ fn FILE :: IMPL HEADER or - :: NAME
    requires ..., ensures ...          contract, placed between signature and body
    @loop N invariant ...              placed at the N-th loop of the body
    @body N text                       placed at the start of that loop's body; @end N at its end
    @first ghost                       placed at the beginning of the body
    @before `text` ghost               placed before / after the first occurrence of the text
    @after `text` ghost
    @opt `text` => `text`              rewriting of the body, may be absent
    */

by the function of that name, cut out of FILE as it is now. `//@ subst A => B` at the top rewrites
every extracted text. What extraction changes is listed in `DROPS`; nothing else is touched. A text
that cannot be found, or that Verus does not accept, leaves that function undecided, never violated.
"""
import json, os, re, subprocess, time

DROPS = [
    "comments, attributes and visibilities are removed",
    "single-arm macros defined in the same file are expanded",
    "chosen functions that take a closure (for_each_with, Vec::retain) are inlined, with the closure's body at the calls",
    "`x |= e` on booleans becomes a call",
    "log and print macros are removed",
    "assert!(c, ...) becomes `if !c { panic!() }`; panics must be proved unreachable",
    "messages of panic!, unreachable! and expect are removed",
    "a `mut self` parameter becomes a local variable `this`",
    "`if let P = E && C { A }` becomes `if let P = E { if C { A } }`",
    "format!(...) becomes an arbitrary text",
    "Option/Result combinators with a plain closure (and_then, is_some_and, map_or, map_err, ...) become the match they stand for",
    "trait methods are checked as inherent methods of the same type",
    "imports inside functions are removed",
    "`unsafe` markers are removed; what unsafe operations need are preconditions of their contracts",
]

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


class Lost(Exception):
    pass


def blank(src):
    """src with comments, strings and characters overwritten by blanks (same length)."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif c == '"' or (c in "rb" and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_"))
                          and re.match(r'(?:b?r#*"|b")', src[i:i + 12])):
            m = re.match(r'(b?r)(#*)"', src[i:i + 12])
            if m:
                end = '"' + m.group(2)
                j = src.find(end, i + m.end())
                j = n if j < 0 else j + len(end)
            else:
                j = src.index('"', i) + 1
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            wipe(i, j)
            i = j
        elif c == "'":
            m = re.match(r"'(?:\\.[^']*|[^\\'])'", src[i:i + 14])
            if m:
                wipe(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


OPEN, CLOSE = "([{", ")]}"


def match_at(b, i):
    """Index just past the bracket that closes the one at b[i]."""
    d = 0
    while i < len(b):
        if b[i] in OPEN:
            d += 1
        elif b[i] in CLOSE:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Lost("unbalanced brackets")


def body_brace(b, i):
    """Index of the first `{` or `;` at bracket depth 0 from i on."""
    d = 0
    while i < len(b):
        c = b[i]
        if c in "([":
            d += 1
        elif c in ")]":
            d -= 1
        elif d == 0 and c in "{;":
            return i
        i += 1
    raise Lost("no body")


def strip_tests(src, b):
    """Blanks out test modules and statements."""
    for m in re.finditer(r"#\[cfg\((?:all\()?(?:test|kani|kompact_verif)[^\n]*\)\]", src):
        if b[m.start()] != "#":
            continue
        c = re.match(r"\s*\w+!\s*(?=\()", b[m.end():])
        if c:
            k = match_at(b, m.end() + c.end())
            k += len(re.match(r"\s*;?", b[k:]).group(0))
        else:
            j = body_brace(b, m.end())
            k = match_at(b, j) if b[j] == "{" else j + 1
        b = b[:m.start()] + re.sub(r"[^\n]", " ", b[m.start():k]) + b[k:]
    return b


def norm(s):
    s = re.sub(r"\s+", " ", s).strip()
    s = re.sub(r"\bunsafe ", "", s)
    return s.replace(" <", "<").replace("< ", "<").replace(" >", ">")


class File:
    def __init__(self, repo, rel):
        self.rel = rel
        try:
            self.src = open(os.path.join(repo, rel)).read()
        except OSError:
            raise Lost("%s is gone" % rel)
        self.b = strip_tests(self.src, blank(self.src))

    def text(self, a, z):
        """The text without comments and attributes."""
        t = "".join(s if (c != " " or s in " \n" or self.keep[i]) else " "
                    for i, (s, c) in enumerate(zip(self.src[a:z], self.b[a:z])))
        return t

    def clean(self, a, z):
        src, b = self.src[a:z], self.b[a:z]
        # Keep strings and characters, drop comments.
        out = []
        i = 0
        while i < len(src):
            if src.startswith("//", i) and b[i] == " ":
                j = src.find("\n", i)
                i = len(src) if j < 0 else j
            elif src.startswith("/*", i) and b[i] == " ":
                j = i
                d = 0
                while True:
                    if src.startswith("/*", j):
                        d, j = d + 1, j + 2
                    elif src.startswith("*/", j):
                        d, j = d - 1, j + 2
                        if d == 0:
                            break
                    else:
                        j += 1
                i = j
            elif src[i] == '"':
                j = i + 1
                while j < len(src) and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                out.append(src[i:j + 1])
                i = j + 1
            else:
                out.append(src[i])
                i += 1
        t = "".join(out)
        # attributes
        while True:
            bb = blank(t)
            m = re.search(r"#!?\[", bb)
            if not m:
                break
            e = match_at(bb, m.end() - 1)
            t = t[:m.start()] + t[e:]
        t = re.sub(r"\bpub(\s*\([a-z: ]+\))?\s+", "", t)
        return re.sub(r"\n\s*\n+", "\n", t)

    def item(self, kind, name):
        m = re.search(r"\b%s\s+%s\b" % (kind, re.escape(name)), self.b)
        if not m:
            raise Lost("%s %s not found in %s" % (kind, name, self.rel))
        if kind == "const":
            z = self.b.index(";", m.start()) + 1
            d = 0
            i = m.start()
            while not (self.b[i] == ";" and d == 0):
                d += (self.b[i] in OPEN) - (self.b[i] in CLOSE)
                i += 1
            z = i + 1
        else:
            i = body_brace(self.b, m.end())
            j = m.end()
            par = self.b.find("(", j)
            if 0 <= par < i and kind == "struct":
                z = self.b.index(";", match_at(self.b, par)) + 1
            else:
                z = match_at(self.b, i) if self.b[i] == "{" else i + 1
        return self.clean(m.start(), z)

    def spans(self, header):
        """Where the bodies of these impl or trait blocks are."""
        if header == "-":
            return [(0, len(self.b))]
        out = []
        for m in re.finditer(r"\b(?:impl|trait|mod)\b", self.b):
            try:
                i = body_brace(self.b, m.end())
            except Lost:        # `impl` in the type of an argument
                continue
            if self.b[i] == "{" and norm(self.b[m.start():i]) == norm(header):
                out.append((i + 1, match_at(self.b, i) - 1))
        return out

    def impl_const(self, header, name):
        for a, z in self.spans(header):
            for m in re.finditer(r"\bconst\s+%s\s*:" % re.escape(name), self.b[a:z]):
                s = a + m.start()
                if depth(self.b, a, s) == 0:
                    return self.clean(s, self.b.index(";", s) + 1)
        raise Lost("const %s not found under `%s` in %s" % (name, header, self.rel))

    def fn(self, header, name):
        for a, z in self.spans(header):
            for m in re.finditer(r"\bfn\s+%s\b" % re.escape(name), self.b[a:z]):
                s = a + m.start()
                if depth(self.b, a, s) != 0:
                    continue
                i = body_brace(self.b, s)
                if self.b[i] != "{":
                    continue
                e = match_at(self.b, i)
                return self.clean(s, i), self.clean(i, e), (s, e)
        raise Lost("fn %s not found under `%s` in %s" % (name, header, self.rel))


def depth(b, a, i):
    d = 0
    for c in b[a:i]:
        d += (c in OPEN) - (c in CLOSE)
    return d


def drop_macro(t, names, repl):
    """Replaces `name!( ... )` (and a following `;` if repl is empty)."""
    pos = 0
    while True:
        b = blank(t)
        m = re.compile(r"\b(%s)!\s*(?=[(\[{])" % "|".join(names)).search(b, pos)
        if not m:
            return t
        e = match_at(b, m.end())
        inner, binner = t[m.end() + 1:e - 1], b[m.end() + 1:e - 1]
        new = repl(m.group(1), inner, binner)
        if new == "":
            k = e
            while k < len(t) and t[k].isspace():
                k += 1
            if k < len(t) and t[k] == ";":
                e = k + 1
        t = t[:m.start()] + new + t[e:]
        pos = m.start() + len(new)


def first_arg(inner, binner):
    d = 0
    for i, c in enumerate(binner):
        d += (c in OPEN) - (c in CLOSE)
        if c == "," and d == 0:
            return inner[:i]
    return inner


def local_macros(f):
    """The single-arm macros of the file: name -> (parameters, body)."""
    out = {}
    for m in re.finditer(r"\bmacro_rules!\s*(\w+)\s*(?=\{)", f.b):
        e = match_at(f.b, m.end())
        i = f.b.index("(", m.end())
        j = match_at(f.b, i)
        a = re.match(r"\s*=>\s*", f.b[j:])
        if not a:
            continue
        k = j + a.end()
        z = match_at(f.b, k)
        params = re.findall(r"\$(\w+)\s*:\s*(?:ident|expr)", f.b[i:j])
        if f.b[z:e - 1].strip(" ;\n\t") or f.b[i + 1:j - 1].count("$") != len(params):
            continue
        out[m.group(1)] = (params, f.clean(k, z))
    return out


def expand(t, macros):
    """Invocations of local macros become their bodies."""
    for _ in range(20):
        b = blank(t)
        m = re.search(r"\b(%s)!\s*(?=\()" % "|".join(macros), b) if macros else None
        if not m:
            return t
        params, body = macros[m.group(1)]
        e = match_at(b, m.end())
        args, inner, bi = [], t[m.end() + 1:e - 1], b[m.end() + 1:e - 1]
        while inner.strip():
            a = first_arg(inner, bi)
            args.append(a.strip())
            inner, bi = inner[len(a) + 1:], bi[len(a) + 1:]
        if len(args) != len(params):
            raise Lost("macro %s with %d arguments" % (m.group(1), len(args)))
        for p, a in zip(params, args):
            body = re.sub(r"\$%s\b" % p, lambda _: a, body)
        t = t[:m.start()] + body + t[e:]
    raise Lost("macros do not end")


def split_args(t):
    b = blank(t)
    out = []
    while t.strip():
        a = first_arg(t, b)
        out.append(a.strip())
        t, b = t[len(a) + 1:], b[len(a) + 1:]
    return out


def inline(t, name, sig, body):
    """Calls `x.name(.., |a| e)` become the body of `name`, with e in place of the calls of its closure."""
    pos = 0
    while True:
        b = blank(t)
        m = re.compile(r"\.\s*%s\s*(?=\()" % name).search(b, pos)
        if not m:
            return t
        pos = m.end()
        e = match_at(b, m.end())
        args = split_args(t[m.end() + 1:e - 1])
        k = next((k for k, a in enumerate(args) if a.startswith("|")), len(args))
        args = args[:k] + ([", ".join(args[k:])] if k < len(args) else [])
        c = re.match(r"\|([^|]*)\|\s*(.*)$", args[-1] if args else "", re.S)
        bs = blank(sig)
        i = bs.index("(", body_params(bs))
        params = split_args(sig[i + 1:match_at(bs, i) - 1])
        if not c or len(params) != len(args) + 1:
            continue
        pats, what = split_args(c.group(1)), c.group(2)
        if re.search(r"\breturn\b|\?", blank(what)):
            raise Lost("closure of %s leaves early" % name)
        s = receiver(b, m.start())
        recv = t[s:m.start()].strip()
        if "{" not in recv:
            recv = re.sub(r"\s+", " ", re.sub(r"\s+(?!\w)|(?<!\w)\s+", "", recv))
        names = [re.match(r"(?:mut\s+)?(\w+)\s*:", p).group(1) for p in params[1:]]
        bound = set(names) | set(re.findall(r"\blet\s+(?:mut\s+)?(\w+)", body)) | set(re.findall(r"\blet\s+\w+\((\w+)\)", body))
        taken = set(IDENT.findall(blank(what))) | (set(IDENT.findall(recv)) if params[0].startswith("&") else set())
        new = body
        for x in sorted(bound & taken - {"Some"}):
            new = word_sub(new, x, x + "__")
        names = [x + "__" if x in bound & taken else x for x in names]
        new = word_sub(new, "self", recv if params[0].startswith("&") else "it__")
        f = names[-1]
        use = re.search(r"\b%s\s*(?=\()" % f, blank(new))
        if use and len(split_args(new[use.end() + 1:match_at(blank(new), use.end()) - 1])) != len(pats):
            continue
        while True:
            bn = blank(new)
            k = re.search(r"\b%s\s*(?=\()" % f, bn)
            if not k:
                break
            z = match_at(bn, k.end())
            given = split_args(new[k.end() + 1:z - 1])
            lets = "".join("let %s = %s; " % ((p[1:], g[1:]) if p[:1] == g[:1] == "&" else (p, g)) for p, g in zip(pats, given))
            new = new[:k.start()] + "{ " + lets + what + " }" + new[z:]
        new = re.sub(r"(\blet\s+(?:mut\s+)?\w+)\s*:[^=;]*\bSelf\b[^=;]*=", r"\1 =", new)
        lets = "".join("let %s = %s; " % (n, a) for n, a in zip(names[:-1], args))
        if not params[0].startswith("&"):
            lets = "let mut it__ = %s; " % recv + lets
        new = "{ " + lets + new.strip()[1:]
        if t[e:].lstrip().startswith("."):
            new = "(" + new + ")"
        t = t[:s] + new + t[e:]
        pos = s + 1


def body_params(bs):
    """Where the parameters of a function may begin: after its type parameters."""
    m = re.search(r"\bfn\s+\w+\s*", bs)
    i = m.end()
    if bs[i] == "<":
        d = 0
        while True:
            d += (bs[i] == "<") - (bs[i] == ">" and bs[i - 1] != "-")
            i += 1
            if d == 0:
                break
    return i


def or_assign(t):
    """`x |= e;` on a bool becomes `or_into(&mut x, e);`."""
    while True:
        b = blank(t)
        m = re.search(r"\b(\w+)\s*\|=\s*", b)
        if not m:
            return t
        i, d = m.end(), 0
        while not (b[i] == ";" and d == 0):
            d += (b[i] in OPEN) - (b[i] in CLOSE)
            i += 1
        t = t[:m.start()] + "or_into(&mut %s, %s)" % (m.group(1), t[m.end():i]) + t[i:]


def rewrite(t):
    t = drop_macro(t, ["trace", "debug", "info", "warn", "error", "crit", "eprintln", "println"], lambda n, i, b: "")
    t = re.sub(r"=>(\s*)([,}])", lambda m: "=> {}" + m.group(1) + m.group(2), t)
    t = drop_macro(t, ["assert", "debug_assert"], lambda n, i, b: "if !(%s) { panic!() }" % first_arg(i, b).strip())

    def eq(n, i, b):
        a = first_arg(i, b)
        rest = first_arg(i[len(a) + 1:], b[len(a) + 1:])
        op = "==" if "_eq" in n else "!="
        return "if !((%s) %s (%s)) { panic!() }" % (a.strip(), op, rest.strip())
    t = drop_macro(t, ["assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"], eq)
    t = drop_macro(t, ["panic", "unreachable", "unimplemented", "todo"], lambda n, i, b: "panic!()" if n != "panic" or i.strip() else "panic!( )")
    t = drop_macro(t, ["format"], lambda n, i, b: "format_message()")
    t = t.replace("panic!( )", "panic!()")
    # expect("...") -> expect("")
    t = re.sub(r'\.expect\(\s*"(?:[^"\\]|\\.)*"\s*,?\s*\)', '.expect("")', t)
    t = re.sub(r"\bunsafe\s*\{", "{", t)
    t = re.sub(r"(?<=[;{])(\s*)use\s+(?:[\w:]+(?:::\{[^;{}]*\})?|(?:\w+::)*[a-z]\w*::\*)\s*;", r"\1", t)
    t = re.sub(r"\|_\|", "|_e|", t)
    return let_chains(t)


def let_chains(t):
    """`if let P = E && C { A }` without else becomes `if let P = E { if C { A } }`."""
    pos = 0
    while True:
        b = blank(t)
        m = re.compile(r"\bif\b").search(b, pos)
        if not m:
            return t
        pos = m.end()
        guard = re.compile(r"[^{;]*?=>").match(b, pos)      # of an arm of a match
        if guard:
            pos = guard.end()
            continue
        i = body_brace(b, pos)
        if b[i] != "{":
            continue
        cond, bc = t[pos:i], b[pos:i]
        parts, d, last = [], 0, 0
        k = 0
        while k < len(bc):
            d += (bc[k] in OPEN) - (bc[k] in CLOSE)
            if d == 0 and bc.startswith("&&", k):
                parts.append(cond[last:k])
                last = k + 2
                k += 1
            k += 1
        parts.append(cond[last:])
        if len(parts) < 2 or not any(re.match(r"\s*let\b", x) for x in parts):
            continue
        e = match_at(b, i)
        if re.match(r"\s*else\b", b[e:]) or re.search(r"\belse\s*$", b[:m.start()]):
            continue
        groups = []
        for x in parts:
            if groups and not re.match(r"\s*let\b", x) and not re.match(r"\s*let\b", groups[-1]):
                groups[-1] += "&&" + x
            else:
                groups.append(x)
        new = "".join("if %s { " % x.strip() for x in groups[:-1]) + "if %s " % groups[-1].strip() + t[i:e] + " }" * (len(groups) - 1)
        t = t[:m.start()] + new + t[e:]


OPTION_TAIL = r"\.\s*(get|get_mut|as_ref|as_mut|take|pop|pop_front|pop_back|first|last|front|back|next|peek|remove|checked_add|checked_sub)\s*(\([^()]*\)|\(\s*&?\w+(\.\w+)*\([^()]*\)\s*\))\s*$"


def receiver(b, i):
    """Start of the postfix expression that ends before b[i] (the dot of a method call)."""
    k = i
    while True:
        j = k
        while j > 0 and b[j - 1].isspace():
            j -= 1
        if j == 0:
            return k
        c = b[j - 1]
        if c in ")]":
            d, n = 0, j - 1
            while n >= 0:
                d += (b[n] in CLOSE) - (b[n] in OPEN)
                if d == 0:
                    break
                n -= 1
            k = n
            fish = re.search(r"::\s*<[\w:\s,<>&']*>$", b[:k])
            if c == ")" and fish:
                k = fish.start()
            # a call or an index belongs to what is before it
            if k > 0 and (b[k - 1].isalnum() or b[k - 1] in "_>])?"):
                continue
            return k
        elif c == "?":
            k = j - 1
        elif c.isalnum() or c == "_":
            n = j
            while n > 0 and (b[n - 1].isalnum() or b[n - 1] == "_"):
                n -= 1
            k = n
            p = k
            while p > 0 and b[p - 1].isspace():
                p -= 1
            if p > 0 and b[p - 1] == ".":
                k = p - 1
            elif b[:p].endswith("::"):
                k = p - 2
            else:
                return k
        else:
            return k


def combinators(t):
    """Option and Result combinators with a plain closure become the match they stand for."""
    pos = 0
    while True:
        b = blank(t)
        m = re.compile(r"\.\s*(is_some_and|is_none_or|and_then|map_or|map_err|map|unwrap_or_else|ok_or_else)\s*\(").search(b, pos)
        if not m:
            return t
        pos = m.end()
        e = match_at(b, m.end() - 1)
        inner, bi = t[m.end():e - 1], b[m.end():e - 1]
        default = None
        if m.group(1) == "map_or":
            default = first_arg(inner, bi)
            inner, bi = inner[len(default) + 1:], bi[len(default) + 1:]
        c = re.match(r"\s*\|\s*((?:mut\s+)?\w*)\s*\|\s*(.*?),?\s*$", inner, re.S)
        path = re.match(r"\s*(\w+(?:::\w+)+)\s*$", inner)
        if not path and (not c or re.search(r"\breturn\b|\?", blank(c.group(2))) or c.group(2).startswith("->")):
            continue
        x, body = ("v__", path.group(1) + "(v__)") if path else (c.group(1), c.group(2))
        s = receiver(b, m.start())
        recv = t[s:m.start()]
        if not recv.strip():
            continue
        n = m.group(1)
        if n == "map" and not re.search(OPTION_TAIL, recv):
            continue
        new = {
            "is_some_and": "(match %s { Some(%s) => { %s } None => false })" % (recv, x, body),
            "is_none_or": "(match %s { Some(%s) => { %s } None => true })" % (recv, x, body),
            "and_then": "(match %s { Some(%s) => { %s } None => None })" % (recv, x, body),
            "map": "(match %s { Some(%s) => Some(%s), None => None })" % (recv, x, body),
            "map_or": "(match %s { Some(%s) => { %s } None => %s })" % (recv, x, body, default),
            "map_err": "(match %s { Ok(v__) => Ok(v__), Err(%s) => Err(%s) })" % (recv, x, body),
            "unwrap_or_else": "(match %s { Some(v__) => v__, None => { %s } })" % (recv, body),
            "ok_or_else": "(match %s { Some(v__) => Ok(v__), None => Err(%s) })" % (recv, body),
        }[n]
        t = t[:s] + new + t[e:]
        pos = s + 1


def word_sub(t, a, b):
    bl = blank(t)
    out, last = [], 0
    for m in re.finditer(r"\b%s\b" % a, bl):
        out.append(t[last:m.start()])
        out.append(b)
        last = m.end()
    return "".join(out) + t[last:]


def flex(text):
    """A regular expression matching the text with any white space."""
    toks = re.findall(r"[A-Za-z0-9_]+|[^\sA-Za-z0-9_]", text)
    return r"\s*".join(re.escape(x) for x in toks)


def loops(body):
    b = blank(body)
    res = []
    for m in re.finditer(r"\b(while|for|loop)\b", b):
        if m.group(1) == "for" and re.match(r"\s*<", b[m.end():]):
            continue
        i = body_brace(b, m.end())
        if b[i] == "{":
            res.append((m.start(), i))
    return res


def calls(body):
    b = blank(body)
    out = set()
    for m in re.finditer(r"([A-Za-z_][A-Za-z0-9_]*)\s*(?:::\s*<[^;{}()]*>\s*)?\(", b):
        if m.group(1) not in ("if", "while", "match", "for", "return", "in", "Some", "Ok", "Err", "None", "panic"):
            out.add(m.group(1))
    return sorted(out)


class Unit:
    def __init__(self, repo, verif, name):
        self.repo, self.verif, self.name = repo, verif, name
        def read(n):
            t = open(os.path.join(verif, "verus", n)).read()
            return re.sub(r"^//@ include (\S+)$", lambda m: read(m.group(1)), t, flags=re.M)
        self.tpl = read(name + ".vrs")
        self.files = {}
        self.fns = {}      # name -> dict(line range, info)
        self.lost = []

    def file(self, rel):
        if rel not in self.files:
            self.files[rel] = File(self.verif if rel.startswith("verus/") else self.repo, rel)
        return self.files[rel]

    def generate(self, assume=(), smoke=False):
        self.lost = []
        self.substs = []
        self.inlines = re.findall(r"^//@ inline (\w+) (.*)$", self.tpl, re.M)
        for m in re.finditer(r"^//@ subst (.*?) => (.*)$", self.tpl, re.M):
            self.substs.append((m.group(1).strip(), m.group(2).strip()))
        out = []
        last = 0
        self.fns = {}
        for m in re.finditer(r"/\*@ (\w+) (.*?)\*/", self.tpl, re.S):
            out.append(self.tpl[last:m.start()])
            last = m.end()
            line = sum(s.count("\n") for s in out) + 1
            kind = m.group(1)
            if kind in ("struct", "enum", "const"):
                if " :: " in m.group(2):
                    rel, impl, name = [x.strip() for x in m.group(2).split(" :: ")]
                    t = self.file(rel).impl_const(impl, name)
                else:
                    rel, name = m.group(2).split()
                    t = self.file(rel).item(kind, name)
                out.append(self.apply(t))
            elif kind == "fn":
                t, key, info = self.function(m.group(2), assume, smoke)
                out.append(t)
                info["lines"] = (line, line + t.count("\n"))
                self.fns[key] = info
            else:
                raise Lost("bad directive " + kind)
        out.append(self.tpl[last:])
        return "".join(out)

    def apply(self, t):
        for a, b in self.substs:
            t = re.sub(flex(a), lambda m: b, t)
        return t

    def function(self, text, assume, smoke):
        head, _, rest = text.partition("\n")
        rel, impl, name = [x.strip() for x in head.split(" :: ")]
        alias = None
        if " as " in name:
            name, alias = name.split(" as ")
        key = (re.sub(r"^(unsafe )?impl(<[^>]*>)? (.* for )?", "", impl) + "::" if impl != "-" else "") + name
        parts = re.split(r"^\s*@(loop|body|end|first|before|after|opt|must)\b", rest, flags=re.M)
        contract = parts[0]
        info = {"file": rel, "hints_lost": [], "name": key}
        try:
            sig, body, _ = self.file(rel).fn(impl, name)
            body = expand(body, local_macros(self.file(rel)))
            for n, where in self.inlines:
                r2, i2, n2 = [x.strip() for x in where.split(" :: ")]
                s2, b2, _ = self.file(r2).fn(i2, n2)
                body = inline(body, n, s2, b2)
            if re.search(r"\bfn or_into\b", self.tpl):
                body = or_assign(body)
        except Lost as e:
            self.lost.append(key)
            info["status"] = "lost: %s" % e
            return "", key, info
        info["source_loops"] = len(loops(body))
        info["calls"] = calls(body)
        sig, body = self.apply(rewrite(sig)), self.apply(rewrite(body))
        sig = re.sub(r"->\s*\(\s*\)\s*$", "", sig.rstrip())
        if alias:
            sig = re.sub(r"\bfn\s+%s\b" % name, "fn " + alias, sig)
        if re.search(r"\(\s*mut\s+self\b", sig):
            sig = re.sub(r"\(\s*mut\s+self\b", "(self", sig)
            body = "{ let mut this = self;" + word_sub(body[1:], "self", "this")
        m = re.search(r"->\s*(?!\s*\()(.*?)(\bwhere\b.*)?$", blank(sig), re.S)
        wh = re.search(r"\bwhere\b", blank(sig))
        am = next((x for x in re.finditer(r"->", blank(sig)) if depth(blank(sig), 0, x.start()) == 0 and not (wh and wh.start() < x.start())), None)
        if am:
            b = blank(sig)
            w = re.search(r"\bwhere\b", b[am.end():])
            end = am.end() + w.start() if w else len(sig)
            sig = sig[:am.end()] + " (r: " + sig[am.end():end].strip() + ") " + sig[end:]
        ins = []          # (position, text) into body
        ops = list(zip(parts[1::2], parts[2::2]))
        for op, arg in [o for o in ops if o[0] == "opt"] + [("plain", "")] + [o for o in ops if o[0] != "opt"]:
            if op == "plain":
                body = combinators(body)
            if op in ("loop", "body", "end"):
                k = re.match(r"\s*(\d+)", arg)
                ls = loops(body)
                if int(k.group(1)) >= len(ls):
                    info["hints_lost"].append("loop " + k.group(1))
                    continue
                at = ls[int(k.group(1))][1]
                at = match_at(blank(body), at) - 1 if op == "end" else at + (op == "body")
                ins.append((at, "\n" + arg[k.end():] + "\n"))
            elif op == "first":
                ins.append((1, "\n" + arg + "\n"))
            elif op in ("before", "after"):
                k = re.match(r"\s*`([^`]*)`", arg)
                f = re.search(flex(k.group(1)), body)
                if not f:
                    info["hints_lost"].append(k.group(1))
                    continue
                ins.append((f.start() if op == "before" else f.end(), "\n" + arg[k.end():] + "\n"))
            elif op == "opt":
                k = re.match(r"\s*`([^`]*)`\s*=>\s*`([^`]*)`", arg)
                nb = re.sub(flex(k.group(1)), lambda _: k.group(2), body)
                if nb == body:
                    info["hints_lost"].append(k.group(1))
                body = nb
        order = sorted(range(len(ins)), key=lambda i: (ins[i][0], i))
        res, last = [], 0
        for i in order:
            res.append(body[last:ins[i][0]])
            res.append(ins[i][1])
            last = ins[i][0]
        res.append(body[last:])
        body = "".join(res)
        if smoke:
            body = "{ assert(false); " + body[1:]
        pre = ""
        if key in assume:
            pre, body = "#[verifier::external_body]\n", "{ unimplemented!() }"
        return pre + sig.strip() + "\n" + contract.rstrip() + "\n" + body + "\n", key, info

    def where(self, line):
        for k, i in self.fns.items():
            if "lines" in i and i["lines"][0] <= line <= i["lines"][1]:
                return k
        return None


PROOF = re.compile(r"(postcondition not satisfied|precondition not satisfied|precondition not met|assertion failed|"
                   r"invariant not satisfied|possible arithmetic (under|over)flow|decreases not satisfied|"
                   r"possible division by zero|recommendation not met|cannot show|could not show|unreachable|"
                   r"constructed value may fail to meet|loop invariant|possible bit shift|"
                   r"unable to prove|failed this|might not be allowed|termination proof|"
                   r"split_|panic|array index)", re.I)
LIMIT = re.compile(r"(rlimit|resource limit|timed? ?out)", re.I)


def verus(path, timeout, extra=()):
    cmd = ["verus", path, "--edition", "2024", "--crate-type", "lib", "--output-json", "--time", "--multiple-errors", "4",
           "--error-format=json", "-A", "warnings"] + list(extra)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True, cwd=os.path.dirname(path))
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, [], "time out", cmd
    msgs = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                msgs.append(json.loads(l))
            except ValueError:
                pass
    try:
        js = json.loads(out)
    except ValueError:
        js = None
    return js, msgs, err, cmd


def run_unit(repo, verif, work, name, timeout, smoke=False):
    t0 = time.time()
    u = {"unit": name, "status": "undecided", "obligations": 0, "discharged": 0, "failed": [],
         "functions": [], "undecided": [], "drops": DROPS, "solver": "Z3 (via Verus)"}
    try:
        unit = Unit(repo, verif, name)
    except Exception as e:
        u["why"] = str(e)
        return u
    base = {}
    bp = os.path.join(verif, "verus", "shape.json")
    if os.path.exists(bp):
        base = json.load(open(bp)).get(name, {})
    assume, why = set(), {}
    path = os.path.join(work, name + ".rs")
    js = None
    for attempt in range(8):
        try:
            text = unit.generate(assume)
        except Lost as e:
            u["why"] = str(e)
            return u
        open(path, "w").write(text)
        left = timeout - (time.time() - t0)
        if left < 20:
            u["why"] = "time out"
            return u
        js, msgs, err, cmd = verus(path, left)
        u["cmd"] = " ".join(cmd[:1] + [os.path.basename(path)] + cmd[2:])
        errors = [m for m in msgs if m.get("level") == "error" and not m["message"].startswith("aborting")]
        if js is None and not errors:
            u["why"] = err[-400:]
            return u
        bad = {}
        for m in errors:
            if PROOF.search(m["message"]) and not m.get("code") or LIMIT.search(m["message"]):
                continue
            f = None
            for s in m.get("spans", []):
                f = f or unit.where(s["line_start"])
            bad.setdefault(f, m["message"])
        if not bad:
            break
        if None in bad and len(bad) == 1:
            # e.g. a contract that names something that is gone
            u["why"] = "not accepted: " + bad[None]
            u["text"] = ""
            return u
        for f, msg in bad.items():
            if f:
                why[f] = "not accepted: " + msg.splitlines()[0]
                assume.add(f)
    else:
        u["why"] = "not accepted"
        return u
    for k in unit.lost:
        why[k] = unit.fns[k]["status"]
    vr = (js or {}).get("verification-results", {})
    failed = {}
    for m in errors:
        spans = m.get("spans", [])
        f = None
        for s in sorted(spans, key=lambda s: not s.get("is_primary")):
            f = f or unit.where(s["line_start"])
        # The function whose obligation failed is the one whose body is shown.
        for s in spans:
            w = unit.where(s["line_start"])
            if w and re.search(r"at (the end of|this) |exit|call|body", s.get("label") or ""):
                f = w
        if LIMIT.search(m["message"]):
            why[f or "?"] = m["message"].splitlines()[0]
            continue
        failed.setdefault(f or "lemma", []).append(m)
    for f, ms in failed.items():
        info = unit.fns.get(f, {})
        shape = base.get(f)
        reason = None
        if info.get("hints_lost"):
            reason = "proof hints no longer apply: %s" % info["hints_lost"]
        elif shape is not None and info.get("source_loops") != shape["loops"]:
            reason = "the loops changed, their invariants are not known"
        elif shape is not None:
            new = set(info.get("calls", [])) - set(shape["calls"])
            known = {k.split("::")[-1] for k in unit.fns} | {c for k in unit.fns for c in base.get(k, {}).get("calls", [])}
            new = {n for n in new if n not in known}
            if new:
                reason = "calls functions without a contract: %s" % sorted(new)
        if reason:
            why[f] = reason
            continue
        for m in ms:
            u["failed"].append({"obligation": "%s: %s" % (name, f), "message": m["message"],
                                "output": m.get("rendered") or m["message"]})
    u["functions"] = sorted(k for k in unit.fns if k not in why and k not in failed)
    u["undecided"] = [{"function": k, "why": w} for k, w in sorted(why.items(), key=str)]
    u["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
    u["discharged"] = vr.get("verified", 0)
    try:
        u["solver_s"] = js["times-ms"]["smt"]["total"] / 1000
    except (KeyError, TypeError):
        pass
    u["assumed"] = sorted(set(re.findall(r"assume_specification[^;]*?\[\s*(.*?)\s*\]", text))) + \
        sorted(set(re.findall(r"external_body\)?\]\s*(?:pub )?(?:proof |unsafe )?fn (\w+)", text)))
    u["substitutions"] = ["%s => %s" % s for s in unit.substs]
    u["seconds"] = round(time.time() - t0, 1)
    if u["failed"]:
        u["status"] = "failed"
    elif why:
        u["status"] = "partly"
    else:
        u["status"] = "verified"
    u["_shape"] = {k: {"loops": i.get("source_loops"), "calls": i.get("calls")} for k, i in unit.fns.items()}
    return u


def smoke(repo, verif, work, name, timeout):
    """Functions whose precondition contradicts itself: `assert(false)` at their start is proved."""
    unit = Unit(repo, verif, name)
    path = os.path.join(work, name + "_smoke.rs")
    open(path, "w").write(unit.generate((), True))
    js, msgs, err, cmd = verus(path, timeout)
    hit = set()
    for m in msgs:
        for s in m.get("spans", []):
            if "assertion failed" in m["message"]:
                hit.add(unit.where(s["line_start"]))
    return sorted(k for k in unit.fns if k not in hit and "lines" in unit.fns[k])


def run_units(names, repo, verif, work, timeout):
    res = []
    for n in names:
        r = run_unit(repo, verif, work, n, timeout)
        r.pop("_shape", None)
        res.append(r)
    return {"units": res, "cmd": "; ".join(r.get("cmd", "") for r in res)}


def main():
    import sys
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("VERIF_REPO", "/repo")
    work = "/tmp/verus-work"
    os.makedirs(work, exist_ok=True)
    shapes = {}
    bp = os.path.join(verif, "verus", "shape.json")
    if os.path.exists(bp):
        shapes = json.load(open(bp))
    record = "--record" in sys.argv
    if "--raw" in sys.argv:
        n = [a for a in sys.argv[1:] if not a.startswith("-")][0]
        open(work + "/raw.rs", "w").write(Unit(repo, verif, n).generate())
        sys.exit(subprocess.call(["verus", work + "/raw.rs", "--edition", "2024", "--crate-type", "lib"]))
    for n in [a for a in sys.argv[1:] if not a.startswith("-")]:
        if "--smoke" in sys.argv:
            print(n, "vacuous:", smoke(repo, verif, work, n, 600))
        r = run_unit(repo, verif, work, n, 600)
        if record and r["status"] == "verified":
            shapes[n] = r["_shape"]
        for f in r["failed"]:
            print(f["output"])
        print(n, r["status"], r["discharged"], "/", r["obligations"], r.get("why", ""), r["undecided"], r.get("seconds"))
    if record:
        json.dump(shapes, open(bp, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    main()
