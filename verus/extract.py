#!/usr/bin/env python3
"""Mechanical extraction of the real functions of /repo into a Verus file.

A unit (`*.unit`) is a Verus file with directives, each on its own line(s):

  //@struct FILE NAME            the struct's text: attributes, derives and doc
                                 comments dropped, fields made `pub`
  //@enum FILE NAME              the enum's text, likewise
  //@const FILE NAME             the constant's text
  //@impl FILE HEAD-REGEX FN     opens the function FN of the first impl block
  //@fn FILE FN                  (or the free function FN) whose contract is the
     <lines>                     following lines up to
  //@end
  //@impl FILE HEAD-REGEX FN:LET  the initializer of `let LET` of that function,
                                 as the body `{ Ok(INIT) }` of the function with
                                 the signature `//@sig ...` (`?` and `return`
                                 leave it as they leave FN, whose own body has
                                 the call `//@cutlet LET => CALL` in its place)
  //@include FILE                the lines of another file of this directory
     In between: `//@ret NAME` names the result; `//@loop N [ITER]` starts the
     invariants of the N-th loop (source order; ITER names its ghost iterator); `//@before|body|last|after N`
     starts ghost code put before it, at the start or end of its body or after it; `//@start` starts ghost code
     put at the start of the body; `//@sub REGEX => TEXT` rewrites the body or
     signature (each one is an assumption and is reported); `//@rename NAME`;
     `//@nopub` leaves the function as it is (in the impl of a trait).

The body of the function is otherwise the text of /repo, byte for byte.
Everything dropped or rewritten is listed in the report of the extraction.
Raises Lost when an anchor is not found.
"""
import os, re, sys

REPO = os.environ.get("VP_REPO", "/repo")

class Lost(Exception):
    pass

def read(f):
    try:
        return open(os.path.join(REPO, f)).read()
    except OSError as e:
        raise Lost(str(e))

def mask(s):
    """The text with comments and string/char literals blanked (same length)."""
    out = list(s); i = 0; n = len(s)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n": out[k] = " "
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i); j = n if j < 0 else j
            blank(i, j); i = j
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2); j = n if j < 0 else j + 2
            blank(i, j); i = j
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            blank(i + 1, j); i = j + 1
        elif s[i] == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
            if m: blank(i + 1, i + m.end() - 1); i += m.end()
            else: i += 1
        else:
            i += 1
    return "".join(out)

def match(m, i, o="{", c="}"):
    d = 0
    for k in range(i, len(m)):
        if m[k] == o: d += 1
        elif m[k] == c:
            d -= 1
            if d == 0: return k
    raise Lost("unbalanced " + o)

def strip_tests(s):
    m = mask(s)
    k = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", m)
    while k:
        e = match(m, k.end() - 1)
        s = s[:k.start()] + s[e + 1:]
        m = mask(s)
        k = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", m)
    return s

def strip_attrs(t):
    t = re.sub(r"(?m)^\s*///.*\n", "", t)
    t = re.sub(r"(?m)^\s*#\[[^\]]*\]\s*\n", "", t)
    return t

def find_item(f, kw, name):
    s = strip_tests(read(f)); m = mask(s)
    k = re.search(r"(?m)^\s*(pub(\([^)]*\))?\s+)?" + kw + r"\s+" + name + r"\b", m)
    if not k: raise Lost(f"{kw} {name} not found in {f}")
    if kw == "const":
        e = m.index(";", k.end())
        return s[k.start():e + 1].strip()
    b = min(x for x in (m.find("{", k.end()), m.find("(", k.end())) if x >= 0)
    e = match(m, b, m[b], {"{": "}", "(": ")"}[m[b]])
    t = strip_attrs(s[k.start():e + 1]).strip()
    if m[b] == "(": t += ";"
    if kw == "struct" and m[b] == "{":
        o = t.index("{")
        t = t[:o] + re.sub(r"(?m)^(\s+)(?!pub\b|//)(\w+\s*:)", r"\1pub \2", t[o:])
    if not t.startswith("pub"): t = "pub " + t
    return t

def find_fn(f, head, name):
    s = strip_tests(read(f)); m = mask(s)
    if head:
        lo = hi = None
        for k in re.finditer(r"(?m)^(?:impl|pub trait|mod)\b[^{;]*\{", m):
            h = " ".join(m[k.start():k.end() - 1].split())
            if re.search(head, h):
                e = match(m, k.end() - 1)
                if re.search(r"\bfn\s+" + name + r"\b", m[k.end():e]):
                    lo, hi = k.end(), e; break
        if lo is None: raise Lost(f"impl /{head}/ with fn {name} not found in {f}")
    else:
        lo, hi = 0, len(m)
    for k in re.finditer(r"(?m)^[ \t]*((?:pub(?:\([^)]*\))?\s+)?(?:unsafe\s+|const\s+)*fn\s+" + name + r"\b)", m[lo:hi]):
        a = lo + k.start(1)
        if not head:
            # top level only
            if m[:a].count("{") != m[:a].count("}"): continue
        p = m.index("(", a)
        # skip generics
        pe = match(m, p, "(", ")")
        b = m.index("{", pe)
        e = match(m, b)
        return s[a:b].strip(), s[b:e + 1]
    raise Lost(f"fn {name} not found in {f}")

def loops(body):
    """Offsets of the `{` of each loop body, in source order."""
    m = mask(body); out = []
    for k in re.finditer(r"\b(while|for|loop)\b", m):
        i = k.end(); d = 0
        while i < len(m):
            if m[i] in "([": d += 1
            elif m[i] in ")]": d -= 1
            elif m[i] == "{" and d == 0: break
            i += 1
        else:
            raise Lost("loop body")
        out.append(i)
    return out

def find_let(body, name):
    """The initializer of `let NAME = ...;` in a function body (start, end)."""
    m = mask(body)
    k = re.search(r"\blet\s+" + name + r"\s*(?::[^=;]*)?=", m)
    if not k: raise Lost(f"let {name} not found")
    i = k.end(); d = 0
    while i < len(m) and not (m[i] == ";" and d == 0):
        if m[i] in "([{": d += 1
        elif m[i] in ")]}": d -= 1
        i += 1
    return k.end(), i

def emit_fn(f, head, name, spec, rep, vac):
    cut = None
    if ":" in name:
        # FN:LET: the initializer of that `let`, as a function of its own
        name, cut = name.split(":")
    sig, body = find_fn(f, head, name)
    sig = re.sub(r"^pub\([^)]*\)", "pub", sig)
    if cut:
        a, b = find_let(body, cut)
        sig = next(l.strip()[7:] for l in spec if l.strip().startswith("//@sig "))
        body = "{ Ok(" + body[a:b].strip() + ") }"
        rep["rewrites"].append(f"{f}::{name}: the initializer of `let {cut}` is verified as a function of its own")
    for l in spec:
        if l.strip().startswith("//@cutlet "):
            n, call = l.strip()[10:].split(" => ", 1); a, b = find_let(body, n)
            body = body[:a] + " " + call + body[b:]
    spec = [l for l in spec if not re.match(r"\s*//@(sig|cutlet) ", l)]
    ret = "r"; ctr = []; inv = {}; start = []; subs = []; rename = None; ghost = {}; iters = {}; cur = ctr; attrs = []
    for l in spec:
        t = l.strip()
        if t.startswith("//@ret "): ret = t.split()[1]
        elif t.startswith("//@rename "): rename = t.split()[1]
        elif t.startswith("//@attr "): attrs.append(t[8:])
        elif t == "//@nopub": pass
        elif t.startswith("//@loop "):
            cur = inv.setdefault(int(t.split()[1]), [])
            if len(t.split()) > 2: iters[int(t.split()[1])] = t.split()[2]
        elif t == "//@start": cur = start
        elif re.match(r"//@(before|body|last|after) \d+$", t):
            cur = ghost.setdefault((t.split()[0][3:], int(t.split()[1])), [])
        elif t.startswith("//@sub? "):
            a, b = t[8:].split(" => ", 1) if " => " in t else (t[8:].removesuffix(" =>"), "")
            subs.append((a, b, True))
        elif t.startswith("//@sub "):
            a, b = t[7:].split(" => ", 1) if " => " in t else (t[7:].removesuffix(" =>"), "")
            subs.append((a, b, False))
        else: cur.append(l)
    for a, b, opt in subs:
        sig, n1 = re.subn(a, b, sig); body, n2 = re.subn(a, b, body)
        if n1 + n2 == 0 and not opt: raise Lost(f"{name}: nothing matches {a}")
        if n1 + n2: rep["rewrites"].append(f"{f}::{name}: /{a}/ => {b} ({n1+n2}x)")
    if rename: sig = re.sub(r"\bfn\s+" + name + r"\b", "fn " + rename, sig, count=1)
    k = sig.rfind("->")
    pe = match(mask(sig), sig.index("("), "(", ")")
    if k > pe:
        ty = sig[k + 2:].strip(); w = ""
        if " where" in ty or "\nwhere" in ty:
            ty, w = re.split(r"\bwhere\b", ty, 1); w = "\nwhere " + w.strip()
        sig = sig[:k] + f"-> ({ret}: {ty.strip()})" + w
    if not sig.startswith("pub") and "//@nopub" not in [l.strip() for l in spec]: sig = "pub " + sig
    ls = loops(body)
    top = max(list(inv) + [n for _, n in ghost] + [-1])
    if top >= len(ls): raise Lost(f"{name}: loop {top} not found")
    # ghost code and invariants, inserted from the end of the body backwards
    ins = []; m = mask(body)
    for n, o in enumerate(ls):
        h = [k for k in re.finditer(r"\b(for|while|loop)\b", m[:o])][-1].start()
        g = lambda w: "\n" + "\n".join(ghost[(w, n)]) + "\n" if (w, n) in ghost else ""
        e = match(m, o)
        ins += [(h, g("before")), (o + 1, g("body")), (e, g("last")), (e + 1, g("after"))]
        if n in inv: ins.append((o, "\n" + "\n".join(inv[n]) + "\n"))
        if n in iters:
            # name the ghost iterator of a `for` loop
            k = re.compile(r"\bfor\s+\w+\s+in\b").match(m, h)
            if not k: raise Lost(f"{name}: loop {n} is no `for` loop")
            ins.append((k.end(), f" {iters[n]}:"))
    for o, t in sorted(ins, key=lambda x: -x[0]): body = body[:o] + t + body[o:]
    if start:
        body = "{\n" + "\n".join(start) + "\n" + body[1:]
    c = "\n".join(ctr)
    if vac:
        c = c.rstrip() + ("" if c.rstrip()[-1:] in ("", ",") else ",") + ("" if re.search(r"\bensures\b", c) else "\n ensures ") + "\n  false,\n"
    # $1, $2, ... in the contract are the function's parameters by position
    ps = mask(sig)[sig.index("(") + 1:match(mask(sig), sig.index("("), "(", ")")]
    names = []; d = 0; cur_ = ""
    for ch in ps + ",":
        if ch in "([<{": d += 1
        elif ch in ")]>}": d -= 1
        if ch == "," and d == 0:
            nm = re.match(r"\s*(?:mut\s+)?(\w+)\s*:", cur_)
            if nm: names.append(nm.group(1))
            cur_ = ""
        else: cur_ += ch
    def pos(x):
        def g(k):
            if int(k.group(1)) > len(names): raise Lost(f"{name}: no parameter {k.group(0)}")
            return names[int(k.group(1)) - 1]
        return re.sub(r"\$(\d)", g, x)
    c = pos(c); body = body if "$" not in body else pos(body)
    rep["functions"].append(f"{f}::{name}")
    return "".join(a + "\n" for a in attrs) + sig + "\n" + c + "\n" + body

def build(unit, vac=False):
    """vac: True or a set of function numbers, whose contracts get `ensures false`."""
    rep = dict(functions=[], rewrites=[], assumed=[], ranges=[])
    out = []; lines = []; i = 0
    for l in open(unit).read().split("\n"):
        # //@include FILE: the lines of another file of this directory
        if l.startswith("//@include "): lines += open(os.path.join(os.path.dirname(unit), l.split()[1])).read().split("\n")
        else: lines.append(l)
    while i < len(lines):
        l = lines[i]; t = l.strip().split()
        if t[:1] in (["//@struct"], ["//@enum"], ["//@const"]):
            out.append(find_item(t[1], t[0][3:], t[2]))
        elif t[:1] in (["//@impl"], ["//@fn"]):
            j = i + 1
            while lines[j].strip() != "//@end": j += 1
            n = len(rep["functions"]); v = vac is True or (vac is not False and n in vac)
            if t[0] == "//@impl": e = emit_fn(t[1], t[2].replace("~", " "), t[3], lines[i + 1:j], rep, v)
            else: e = emit_fn(t[1], None, t[2], lines[i + 1:j], rep, v)
            a = sum(x.count("\n") + 1 for x in out) + 1
            rep["ranges"].append((a, a + e.count("\n"))); out.append(e)
            i = j
        else:
            out.append(l)
        i += 1
    text = "\n".join(out)
    for k in re.finditer(r"external_body|assume_specification|\bassume\(|admit\(|\baxiom\b|uninterp", text):
        ln = text[:k.start()].count("\n")
        nxt = " ".join(x.strip() for x in text.split("\n")[ln:ln + 2])
        rep["assumed"].append(nxt[:160])
    return text, rep

if __name__ == "__main__":
    t, r = build(sys.argv[1], "--vac" in sys.argv)
    sys.stdout.write(t)
    import json; sys.stderr.write(json.dumps(r, indent=1) + "\n")
