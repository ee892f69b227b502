"""Token-level reader for Rust source: enough to lift real functions out of /repo."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rs>b?r(?P<h>\#*)")
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<op>\.\.\.|\.\.=|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return "%s" % self.t


class RsError(Exception):
    pass


def tokenize(src):
    """Tokens without whitespace and comments."""
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise RsError("cannot tokenize at %r" % src[i:i + 30])
        k = m.lastgroup if m.lastgroup != "h" else "rs"
        if m.group("bc"):
            d, j = 1, m.end()
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        if m.group("rs"):
            endq = '"' + m.group("h")
            j = src.index(endq, m.end()) + len(endq)
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if k not in ("ws", "lc"):
            out.append(Tok(k, m.group(k), i, m.end()))
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(toks, i):
    """toks[i] is an opener; index of its closer."""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "op":
            if t.t in OPEN:
                d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise RsError("unbalanced")


def skip_generics(toks, i):
    """toks[i] is '<'; index after the matching '>'."""
    d = 0
    while i < len(toks):
        t = toks[i].t
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
        elif t == ">>=" or t == ">=":
            d -= 1
        elif t in OPEN and toks[i].k == "op":
            i = match_close(toks, i)
        if d == 0:
            return i + 1
        i += 1
    raise RsError("unbalanced generics")


class Fn:
    """A function: token ranges within its file."""

    def __init__(self, src, toks, owner, name, i_kw, i_body, i_end, sig_start):
        self.src, self.toks, self.owner, self.name = src, toks, owner, name
        self.i_kw, self.i_body, self.i_end, self.sig_start = i_kw, i_body, i_end, sig_start


def last_seg(ts):
    """Type name: last path segment before generics."""
    name = None
    d = 0
    for t in ts:
        if t.t == "<":
            d += 1
        elif t.t == ">":
            d -= 1
        elif d == 0 and t.k == "id" and t.t not in ("dyn", "mut", "where"):
            name = t.t
        if t.t == "where":
            break
    return name


class File:
    def __init__(self, path):
        self.path = path
        self.src = open(path, encoding="utf-8").read()
        self.toks = tokenize(self.src)
        self.fns = []      # Fn
        self.items = []    # (kind, name, tok_start, tok_end_exclusive)
        self._scan(0, len(self.toks), None)

    def _scan(self, i, end, owner):
        toks = self.toks
        item_start = i
        cfg_test = False
        while i < end:
            t = toks[i]
            if t.t == "#" and t.k == "op":
                j = i + 1
                if toks[j].t == "!":
                    j += 1
                c = match_close(toks, j)
                txt = "".join(x.t for x in toks[j:c + 1])
                if "cfg(test)" in txt or txt.startswith("[cfg(cernan_"):
                    cfg_test = True
                i = c + 1
                continue
            if t.k == "id" and t.t in ("mod", "impl", "trait", "fn", "struct", "enum", "union"):
                kw = t.t
                if kw == "mod":
                    if toks[i + 2].t == "{":
                        c = match_close(toks, i + 2)
                        if not cfg_test:
                            self._scan(i + 3, c, None)
                        i = c + 1
                    else:
                        i += 3
                elif kw in ("impl", "trait"):
                    j = i + 1
                    if toks[j].t == "<":
                        j = skip_generics(toks, j)
                    h0 = j
                    while toks[j].t != "{" and toks[j].t != ";":
                        if toks[j].t in ("(", "["):
                            j = match_close(toks, j)
                        j += 1
                    head = toks[h0:j]
                    tr = None
                    ty = head
                    d = 0
                    for k, x in enumerate(head):
                        if x.t == "<":
                            d += 1
                        elif x.t == ">":
                            d -= 1
                        elif x.t == "where":
                            break
                        elif x.t == "for" and d == 0:
                            tr = last_seg(head[:k])
                            targs = "".join(y.t for y in head[:k])
                            ty = head[k + 1:]
                            break
                    if kw == "trait":
                        own = ("trait", head[0].t, None)
                    else:
                        own = ("impl", last_seg(ty), tr)
                        if tr is not None:
                            own = ("impl", last_seg(ty), targs)
                    if toks[j].t == "{":
                        c = match_close(toks, j)
                        if not cfg_test:
                            self._scan(j + 1, c, own)
                        i = c + 1
                    else:
                        i = j + 1
                elif kw == "fn":
                    name = toks[i + 1].t
                    j = i + 2
                    if toks[j].t == "<":
                        j = skip_generics(toks, j)
                    while toks[j].t not in ("{", ";"):
                        if toks[j].t in ("(", "["):
                            j = match_close(toks, j)
                        j += 1
                    if toks[j].t == "{":
                        c = match_close(toks, j)
                        if not cfg_test:
                            self.fns.append(Fn(self.src, toks, owner, name, i, j, c, item_start))
                        i = c + 1
                    else:
                        i = j + 1
                else:  # struct, enum, union
                    name = toks[i + 1].t
                    j = i + 2
                    while toks[j].t not in ("{", ";"):
                        if toks[j].t == "(":
                            j = match_close(toks, j)
                        j += 1
                    c = match_close(toks, j) if toks[j].t == "{" else j
                    if not cfg_test:
                        self.items.append((kw, name, i, c + 1))
                    i = c + 1
                cfg_test = False
                item_start = i
                continue
            if t.t in ("use", "type", "static", "const", "extern") and t.k == "id" and toks[i + 1].t != "fn" and not (t.t == "extern" and toks[i + 2].t == "fn"):
                while toks[i].t != ";":
                    if toks[i].t in OPEN:
                        i = match_close(toks, i)
                    i += 1
                i += 1
                cfg_test = False
                item_start = i
                continue
            if t.k == "id" and i + 1 < end and toks[i + 1].t == "!":
                j = i + 2
                if toks[j].k == "id":
                    j += 1
                i = match_close(toks, j) + 1
                cfg_test = False
                item_start = i
                continue
            if t.t in OPEN and t.k == "op":
                i = match_close(toks, i) + 1
                continue
            i += 1

    def find_fn(self, sel):
        """sel: 'name', 'Type.name', 'Trait@Type.name', 'trait Trait.name'."""
        owner = None
        trait = None
        is_tr = sel.startswith("trait ")
        s = sel[6:] if is_tr else sel
        if "@" in s:
            trait, s = s.split("@")
        if "." in s:
            owner, s = s.split(".")
        res = []
        for f in self.fns:
            if f.name != s:
                continue
            if owner is None:
                if f.owner is None:
                    res.append(f)
                continue
            if f.owner is None:
                continue
            kind, ty, tr = f.owner
            if is_tr != (kind == "trait") or ty != owner:
                continue
            if trait is not None:
                if tr is None:
                    continue
                base = tr.split("<")[0].split("::")[-1] + tr[len(tr.split("<")[0]):]
                if trait != base and trait != base.split("<")[0]:
                    continue
            res.append(f)
        if len(res) != 1:
            raise RsError("%s: %d functions match %r" % (self.path, len(res), sel))
        return res[0]

    def find_item(self, kind, name):
        r = [x for x in self.items if x[0] == kind and x[1] == name]
        if len(r) != 1:
            raise RsError("%s: %d items match %s %s" % (self.path, len(r), kind, name))
        _, _, a, b = r[0]
        return self.toks[a:b]


# ---------------------------------------------------------------- rewriting

def pat_tokens(p):
    """Pattern: Rust tokens plus $x (one token tree), $*x (balanced run)."""
    out = []
    p = re.sub(r'\$\*(\w+)', r' __RUN_\1 ', p)
    p = re.sub(r'\$(\w+)', r' __ONE_\1 ', p)
    for t in tokenize(p):
        if t.k == "id" and t.t.startswith("__RUN_"):
            out.append(("run", t.t[6:]))
        elif t.k == "id" and t.t.startswith("__ONE_"):
            out.append(("one", t.t[6:]))
        else:
            out.append(("tok", t.t))
    return out


def match_at(toks, i, pat, pi=0, binds=None):
    """Match pat at toks[i]; returns (end, binds) or None."""
    binds = dict(binds or {})
    n = len(toks)
    while pi < len(pat):
        k, v = pat[pi]
        if k == "tok":
            if i < n and toks[i].t == v:
                i += 1
                pi += 1
                continue
            return None
        if k == "one":
            if i >= n or (toks[i].k == "op" and toks[i].t in CLOSE):
                return None
            e = i + 1
            if toks[i].k == "op" and toks[i].t in OPEN:
                e = match_close(toks, i) + 1
            if v in binds:
                a, b = binds[v]
                if [x.t for x in toks[a:b]] != [x.t for x in toks[i:e]]:
                    return None
            binds[v] = (i, e)
            i = e
            pi += 1
            continue
        # run: shortest balanced run such that the rest matches
        j = i
        while True:
            b2 = dict(binds)
            b2[v] = (i, j)
            r = match_at(toks, j, pat, pi + 1, b2)
            if r is not None:
                return r
            if j >= n:
                return None
            t = toks[j]
            if t.k == "op" and t.t in CLOSE:
                return None
            if t.k == "op" and t.t in OPEN:
                j = match_close(toks, j) + 1
            else:
                j += 1
            if j < n + 1 and j > 0 and toks[j - 1].t == ";" and v.startswith("e"):
                return None
    return i, binds


def find_all(toks, pat, lo=0, hi=None):
    hi = len(toks) if hi is None else hi
    i = lo
    while i < hi:
        r = match_at(toks[:hi], i, pat)
        if r is not None and r[0] > i:
            yield i, r[0], r[1]
            i = r[0]
        else:
            i += 1


def rewrite(src, pattern, repl):
    """Apply one rewrite rule everywhere; returns (new_src, count)."""
    toks = tokenize(src)
    pat = pat_tokens(pattern)
    out, last, cnt = [], 0, 0
    for a, b, binds in find_all(toks, pat):
        def sub(m):
            s, e = binds[m.group(1)]
            if e > s and e < len(toks) and toks[e - 1].t == "," and toks[e].t == ")":
                e -= 1      # a call's trailing comma
            return src[toks[s].s:toks[e - 1].e] if e > s else ""
        new = re.sub(r'\$\*?(\w+)', sub, repl)
        old = src[toks[a].s:toks[b - 1].e]
        new += "\n" * max(0, old.count("\n") - new.count("\n"))
        out.append(src[last:toks[a].s])
        out.append(new)
        last = toks[b - 1].e
        cnt += 1
    out.append(src[last:])
    return "".join(out), cnt
