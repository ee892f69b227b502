"""Builds the Verus input of one property from a proof file and /repo's current source.

A proof file is Verus text (shims, spec functions, lemmas) in which /*@ fn FILE SELECTOR ... @*/
blocks stand for real functions: the block's place is taken by the text of that function as it is
in /repo now, with the contract and loop invariants of the block attached and the rewrites of the
block applied.  Nothing else of the executable text is hand-written.
"""
import os
import re
import rs

DEFAULT_RW = [
    # logging never influences a result
    ("trace!($*a);", ""), ("debug!($*a);", ""), ("info!($*a);", ""),
    ("warn!($*a);", ""), ("error!($*a);", ""),
]


class Lost(Exception):
    """An anchor of the proof file is no longer there: undecided, never an alarm."""


INC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "proofs")


def expand(text):
    """//@include FILE lines (relative to proofs/). With `contracts-only` behind it, the functions of
    FILE are there by their contracts alone: another proof that includes FILE discharges them."""
    while True:
        m = re.search(r'^//@include (\S+)( contracts-only)?$', text, re.M)
        if not m:
            return text
        inc = open(os.path.join(INC, m.group(1))).read()
        if m.group(2):
            inc = expand(inc).replace("/*@ fn ", "/*@ contract ")
        text = text[:m.start()] + inc + text[m.end():]


def parse_block(txt):
    lines = txt.split("\n")
    head = lines[0].split(None, 2)
    b = {"head": head, "spec": "", "loops": {}, "ats": [], "rws": [], "ret": None,
         "as": None, "sig": None, "attr": "", "lifts": [], "inline": []}
    cur = None
    for ln in lines[1:]:
        if not ln.strip() or ln.strip().startswith("//"):
            if cur is not None:
                cur.append(ln)
            continue
        if ln[0] not in " \t":
            m = re.match(r'(rw[!]?|gw[!]?)\s+`(.*?)`\s*=>\s*`(.*?)`\s*$', ln)
            if m:
                b["rws"].append((m.group(2), m.group(3), m.group(1).endswith("!")))
                cur = None
                continue
            m = re.match(r'(ret|as|attr|inline):\s*(.*)$', ln)
            if m:
                if m.group(1) == "inline":
                    b["inline"].append(m.group(2).strip())
                else:
                    b[m.group(1)] = m.group(2).strip()
                cur = None
                continue
            if re.match(r'spec:', ln):
                cur = []
                b["spec"] = cur
                continue
            if re.match(r'sig:', ln):
                cur = []
                b["sig"] = cur
                continue
            m = re.match(r'loop (\d+)(?:\s+(for|while|loop))?(?:\s+iter (\w+))?:', ln)
            if m:
                cur = []
                b["loops"][int(m.group(1))] = {"kind": m.group(2), "iter": m.group(3), "inv": cur}
                continue
            m = re.match(r'at (fn-start|fn-end|loop (\d+) (start|end|before|after)|(before|after|replace) `(.*)`(?: #(\d+))?):', ln)
            if m:
                cur = []
                if m.group(1) in ("fn-start", "fn-end"):
                    b["ats"].append((m.group(1), None, None, cur))
                elif m.group(2):
                    b["ats"].append(("loop-" + m.group(3), int(m.group(2)), None, cur))
                else:
                    b["ats"].append((m.group(4), m.group(5), int(m.group(6) or 1), cur))
                continue
            raise Exception("bad directive line: %r" % ln)
        else:
            if cur is None:
                raise Exception("stray line: %r" % ln)
            cur.append(ln)
    for k in ("spec", "sig"):
        if isinstance(b[k], list):
            b[k] = "\n".join(b[k])
    return b


def loops_in(toks):
    """(kind, i_kw, i_body_open, i_body_close) in source order."""
    res = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in ("for", "while", "loop"):
            if t.t == "for" and toks[i + 1].t == "<":
                continue
            j = i + 1
            while toks[j].t != "{" or toks[j - 1].t in ("=", "in", "&&", "||", "=="):
                if toks[j].t in ("(", "[", "{"):
                    j = rs.match_close(toks, j)
                if toks[j].t == "match":
                    # while match X { .. } { .. }
                    j += 1
                    while toks[j].t != "{":
                        if toks[j].t in ("(", "["):
                            j = rs.match_close(toks, j)
                        j += 1
                    j = rs.match_close(toks, j)
                j += 1
            res.append((t.t, i, j, rs.match_close(toks, j)))
    return res


def decontinue(text):
    """Verus has no `continue` in a `for` loop: `if C { S; continue; } REST` at the top of a for body
    becomes `if C { S; } else { REST }`, which is the same program."""
    n = 0
    while True:
        toks = rs.tokenize(text)
        hit = None
        for kind, ik, io, ic in loops_in(toks):
            if kind != "for":
                continue
            i = io + 1
            start = True
            while i < ic:
                t = toks[i].t
                if start and t == "if":
                    j = i + 1
                    while toks[j].t != "{":
                        if toks[j].t in ("(", "["):
                            j = rs.match_close(toks, j)
                        j += 1
                    e = rs.match_close(toks, j)
                    if toks[e - 1].t == ";" and toks[e - 2].t == "continue" and toks[e + 1].t != "else":
                        hit = (toks[e - 2].s, toks[e - 1].e, toks[e].e, toks[ic].s)
                        break
                start = False
                if t in ("(", "[", "{"):
                    i = rs.match_close(toks, i)
                    t = toks[i].t
                if t in (";", "}"):
                    start = True
                i += 1
            if hit:
                break
        if not hit:
            return text, n
        a, b, c, d = hit
        text = text[:a] + text[b:c] + " else { " + text[c:d] + " } " + text[d:]
        n += 1


class Gen:
    def __init__(self, repo, vacuity=False):
        self.repo = repo
        self.files = {}
        self.vac = vacuity
        self.regions = []      # (first_line, last_line, "file selector")
        self.applied = []      # rewrites that changed something
        self.functions = []
        self.vac_marks = 0

    def file(self, p):
        if p not in self.files:
            try:
                self.files[p] = rs.File(self.repo + "/" + p)
            except (OSError, rs.RsError) as e:
                raise Lost("cannot read %s: %s" % (p, e))
        return self.files[p]

    def rewrite_all(self, text, rws, where):
        for pat, repl, must in rws:
            if pat == "@bytes":
                # byte strings as texts, and ranges in patterns as this edition writes them
                toks = [t for t in rs.tokenize(text) if t.t.startswith('b"') or t.t == "..."]
                for t in reversed(toks):
                    text = text[:t.s] + ("..=" if t.t == "..." else t.t[1:]) + text[t.e:]
                if toks:
                    self.applied.append(where + ": byte strings as texts, `...` as `..=` (%d)" % len(toks))
                continue
            text2, n = rs.rewrite(text, pat, repl)
            if n == 0 and must:
                raise Lost("%s: no place for rewrite `%s`" % (where, pat))
            if n:
                self.applied.append("%s: `%s` => `%s` (%d)" % (where, pat, repl, n))
            text = text2
        return text

    def fn_block(self, b, file_rws):
        fpath, sel = b["head"][1], b["head"][2].strip()
        part = None
        if b["head"][0] == "part":
            sel, part = sel.split(" ", 1)
            part = part.strip().strip("`")
        f = self.file(fpath)
        try:
            fn = f.find_fn(sel)
        except rs.RsError as e:
            raise Lost(str(e))
        where = fpath + " " + sel
        text = f.src[f.toks[fn.i_kw].s:f.toks[fn.i_end].e]
        if part:
            # a part of the function, as a function of its own: what `b` stands for in the pattern
            pt = rs.tokenize(text)
            hits = list(rs.find_all(pt, rs.pat_tokens(part), 0))
            if len(hits) != 1:
                raise Lost("%s: %d places for the part `%s`" % (where, len(hits), part))
            binds = {k: text[pt[x].s:pt[y - 1].e] if y > x else "" for k, (x, y) in hits[0][2].items()}
            where += " `" + part + "`"
            text = "fn part() { " + binds["b"] + " }"
            def named(x):
                if isinstance(x, str):
                    for k, v in binds.items():
                        x = x if k == "b" else re.sub(r"\$%s\b" % k, lambda _: v, x)
                    return x
                if isinstance(x, dict):
                    return {k: named(v) for k, v in x.items()}
                return type(x)(named(v) for v in x) if isinstance(x, (list, tuple)) else x
            b = dict(b, sig=named(b["sig"]), spec=named(b["spec"]), loops=named(b["loops"]), ats=named(b["ats"]))
        if b["head"][0] == "contract":
            # its body is another proof's business
            tk = rs.tokenize(text)
            j = 2
            while tk[j].t != "{":
                j = rs.match_close(tk, j) + 1 if tk[j].t in ("(", "[") else j + 1
            text = text[:tk[j].s] + "{ unimplemented!() }"
            b = dict(b, loops={}, ats=[], attr=(b["attr"] + "\n#[verifier::external_body]").strip())
        text = self.rewrite_all(text, [(a, r, False) for a, r in DEFAULT_RW] + file_rws + b["rws"], where)
        text, n = decontinue(text)
        if n:
            self.applied.append(where + ": `if C { continue; } REST` in a for loop read as `if C {} else { REST }` (%d)" % n)
        toks = rs.tokenize(text)
        mutself = False
        for q in range(len(toks) - 2):
            if toks[q].t == "(" and toks[q + 1].t == "mut" and toks[q + 2].t == "self":
                mutself = True
                break
            if toks[q].t == "{":
                break
        if mutself:
            # Verus has no `mut self` parameter: bind it in the first statement instead
            ob = next(q for q in range(len(toks)) if toks[q].t == "{")
            out, last = [], 0
            for q, t in enumerate(toks):
                if t.k == "id" and t.t == "self" and q > ob:
                    out.append(text[last:t.s]); out.append("self_"); last = t.e
                elif t.k == "id" and t.t == "mut" and toks[q + 1].t == "self" and q < ob:
                    out.append(text[last:t.s]); last = toks[q + 1].s
                elif q == ob:
                    out.append(text[last:t.e]); out.append(" let mut self_ = self;"); last = t.e
            out.append(text[last:])
            text = "".join(out)
            toks = rs.tokenize(text)
            self.applied.append(where + ": `mut self` bound by a first statement `let mut self_ = self;`")
        # signature / body split
        j = 2
        if toks[j].t == "<":
            j = rs.skip_generics(toks, j)
        arrow = None
        while toks[j].t != "{":
            if toks[j].t in ("(", "["):
                j = rs.match_close(toks, j)
            if toks[j].t == "->":
                arrow = j
            j += 1
        ib = j
        sig = text[:toks[ib].s].rstrip()
        if b["ret"] and arrow is not None:
            k = arrow + 1
            wh = None
            for q in range(k, ib):
                if toks[q].t == "where":
                    wh = q
                    break
            a = toks[k].s
            z = toks[(wh if wh else ib) - 1].e
            sig = text[:a] + "(" + b["ret"] + ": " + text[a:z] + ")" + (" " + text[toks[wh].s:toks[ib].s].rstrip() if wh else "")
        if b["sig"]:
            sig = b["sig"].strip()
        elif b["as"]:
            sig = re.sub(r'^fn\s+\w+', "fn " + b["as"], sig)
        # edits on the body, as (pos, text) insertions
        ins = []
        lps = loops_in(toks)
        lps = [l for l in lps if l[1] > ib]
        want = b["loops"]
        if want and len(lps) != len(want):
            raise Lost("%s: %d loops, contract has %d" % (where, len(lps), len(want)))
        if not want and lps:
            raise Lost("%s: %d loops without a contract" % (where, len(lps)))
        for n, l in want.items():
            kind, ik, io, ic = lps[n - 1]
            if l["kind"] and l["kind"] != kind:
                raise Lost("%s: loop %d is a `%s`, contract is for `%s`" % (where, n, kind, l["kind"]))
            if l["iter"]:
                # for PAT in EXPR  ->  for PAT in it: EXPR
                d = 0
                for q in range(ik, io):
                    if toks[q].t in ("(", "["):
                        d += 1
                    elif toks[q].t in (")", "]"):
                        d -= 1
                    elif toks[q].t == "in" and d == 0:
                        ins.append((toks[q].e, " " + l["iter"] + ":"))
                        break
            ins.append((toks[io].s, "\n" + "\n".join(l["inv"]) + "\n"))
            if self.vac:
                ins.append((toks[io].e, " assert(false); "))
                self.vac_marks += 1
        for kind, a, k, body in b["ats"]:
            body = "\n".join(body)
            if kind == "fn-start":
                at = toks[ib].e
                if mutself:
                    at = next(toks[q].e for q in range(ib, len(toks)) if toks[q].t == ";")
                ins.append((at, "\n" + body + "\n"))
            elif kind == "fn-end":
                # behind the last statement of a function that returns nothing
                semi = "" if toks[-2].t in (";", "{") else ";"
                ins.append((toks[-1].s, semi + "\n" + body + "\n"))
            elif kind.startswith("loop-"):
                if a > len(lps):
                    raise Lost("%s: no loop %d" % (where, a))
                _, ik, io, ic = lps[a - 1]
                if kind == "loop-start":
                    ins.append((toks[io].e, "\n" + body + "\n"))
                elif kind == "loop-end":
                    semi = "" if toks[ic - 1].t in (";", "}", "{") else ";"
                    ins.append((toks[ic].s, semi + "\n" + body + "\n"))
                elif kind == "loop-before":
                    q = ik
                    if toks[ik - 1].t == ":" and toks[ik - 2].k == "life":
                        q = ik - 2
                    if toks[q - 1].t == "=>":
                        # a loop that is a match arm gets a block around it
                        ins.append((toks[q].s, "{\n" + body + "\n"))
                        ins.append((toks[ic].e, "\n}"))
                    else:
                        ins.append((toks[q].s, "\n" + body + "\n"))
                else:
                    ins.append((toks[ic].e, "\n" + body + "\n"))
            else:
                pat = rs.pat_tokens(a)
                hits = list(rs.find_all(toks, pat, ib))
                if len(hits) < k:
                    raise Lost("%s: no `%s` (#%d)" % (where, a, k))
                x, y, _ = hits[k - 1]
                if kind == "before":
                    ins.append((toks[x].s, "\n" + body + "\n"))
                elif kind == "after":
                    ins.append((toks[y - 1].e, "\n" + body + "\n"))
        # without loop isolation a false assertion up front would hide the one in the loop
        if self.vac and "external_body" not in b["attr"] and "loop_isolation(false)" not in b["attr"]:
            ins.append((toks[ib].e, " assert(false); "))
            self.vac_marks += 1
        body = text[toks[ib].s:]
        base = toks[ib].s
        out, last = [], base
        order = sorted(range(len(ins)), key=lambda z: (ins[z][0], z))
        for z in order:
            p, s = ins[z]
            out.append(text[last:p])
            out.append(s)
            last = p
        out.append(text[last:])
        res = (b["attr"] + "\n" if b["attr"] else "") + sig + "\n" + b["spec"] + "\n" + "".join(out)
        if "external_body" not in b["attr"]:
            self.functions.append(where)
        return where, res

    def item_block(self, head, rws):
        # item FILE kind Name [pub]
        fpath, kind, name = head[1].strip(), *head[2].split()
        f = self.file(fpath)
        if kind == "const":
            # a const of an impl (Type.NAME) becomes a const of its own (Type_NAME)
            nm = name.split(".")[-1]
            for i in range(len(f.toks) - 2):
                if f.toks[i].t == "const" and f.toks[i + 1].t == nm:
                    j = i
                    while f.toks[j].t != ";":
                        if f.toks[j].t in ("(", "[", "{"):
                            j = rs.match_close(f.toks, j)
                        j += 1
                    text = "pub const %s%s" % (name.replace(".", "_"), f.src[f.toks[i + 1].e:f.toks[j].e])
                    return self.rewrite_all(text, rws, fpath + " const " + name)
            raise Lost("%s: no const %s" % (fpath, name))
        if kind == "macro":
            # the body of a macro of one rule, its parameters named p0, p1, ... in order:
            # a use of the macro with values is a call of a function with this body
            for i in range(len(f.toks) - 3):
                if f.toks[i].t == "macro_rules" and f.toks[i + 2].t == name:
                    tk = f.toks
                    end = rs.match_close(tk, i + 3)
                    pe = rs.match_close(tk, i + 4)
                    if [t.t for t in tk[pe + 1:pe + 2]] != ["=>"] or tk[pe + 2].t != "{":
                        raise Lost("%s: macro %s is of another form" % (fpath, name))
                    be = rs.match_close(tk, pe + 2)
                    if [t.t for t in tk[be + 1:end]] not in ([], [";"]):
                        raise Lost("%s: macro %s has several rules" % (fpath, name))
                    ps = [tk[k + 1].t for k in range(i + 5, pe) if tk[k].t == "$"]
                    text = f.src[tk[pe + 2].s:tk[be].e]
                    for n, q in enumerate(ps):
                        text = re.sub(r"\$%s\b" % re.escape(q), "p%d" % n, text)
                    return self.rewrite_all(text, rws, fpath + " macro " + name)
            raise Lost("%s: no macro %s" % (fpath, name))
        try:
            toks = f.find_item(kind, name)
        except rs.RsError as e:
            raise Lost(str(e))
        text = f.src[toks[0].s:toks[-1].e]
        # attributes and doc comments on fields carry no semantics here
        text = re.sub(r'///[^\n]*', '', text)
        text = re.sub(r'#\[[^\]]*\]', '', text)
        text = self.rewrite_all(text, rws, fpath + " " + kind + " " + name)
        if kind == "struct":
            # visibility is widened so that contracts may name the fields
            tk = rs.tokenize(text)
            ob = next((i for i, t in enumerate(tk) if t.t == "{"), None)
            if ob is not None:
                cb = rs.match_close(tk, ob)
                out, last, d = [], 0, 0
                start = True
                i = ob + 1
                while i < cb:
                    t = tk[i].t
                    if start and t != "pub":
                        out.append(text[last:tk[i].s]); out.append("pub "); last = tk[i].s
                    start = False
                    if t in ("(", "[", "{"):
                        i = rs.match_close(tk, i)
                    elif t == "<":
                        i = rs.skip_generics(tk, i) - 1
                    elif t == ",":
                        start = True
                    i += 1
                out.append(text[last:])
                text = "".join(out)
        return "pub " + text

    def build(self, proof_text):
        proof_text = expand(proof_text)
        file_rws = []
        out = []
        line = 1
        pos = 0
        for m in re.finditer(r'/\*@\s(.*?)@\*/', proof_text, re.S):
            pre = proof_text[pos:m.start()]
            out.append(pre)
            line += pre.count("\n")
            pos = m.end()
            blk = m.group(1).strip("\n")
            kw = blk.split(None, 1)[0]
            if kw in ("fn", "contract", "part"):
                where, res = self.fn_block(parse_block(blk), file_rws)
                n = res.count("\n")
                self.regions.append((line, line + n, where))
            elif kw == "item":
                b = parse_block(blk)
                res = (b["attr"] + "\n" if b["attr"] else "") + self.item_block(b["head"], file_rws + b["rws"])
                if " const " in b["head"] or " macro " in b["head"]:
                    self.regions.append((line, line + res.count("\n"), b["head"].split(None, 1)[1]))
            elif kw == "rewrites":
                for ln in blk.split("\n")[1:]:
                    ln = ln.strip()
                    if not ln or ln.startswith("//"):
                        continue
                    mm = re.match(r'rw\s+`(.*?)`\s*=>\s*`(.*?)`\s*$', ln)
                    if not mm:
                        raise Exception("bad rewrite: " + ln)
                    file_rws.append((mm.group(1), mm.group(2), False))
                res = ""
            else:
                raise Exception("bad block " + kw)
            out.append(res)
            line += res.count("\n")
        out.append(proof_text[pos:])
        return "".join(out)

    def region_of(self, line):
        for a, b, w in self.regions:
            if a <= line <= b:
                return w
        return None


if __name__ == "__main__":
    import sys
    g = Gen(sys.argv[2] if len(sys.argv) > 2 else "/repo", vacuity=len(sys.argv) > 3)
    sys.stdout.write(g.build(open(sys.argv[1]).read()))
