"""Assemble the Verus input from /repo's current source and the contracts in spec/*.vs.

A spec file is Verus text with directive blocks:

  //@props C01 C02            properties the following blocks belong to
  //@type KEY                 the type definition as extracted
  //@fn KEY [as NAME]         the function as extracted, with its contract
  //@attr ATTR                attribute line(s)
  //@ret NAME                 name of the result
  //@impl HEAD                emit inside of this impl instead of the extracted one ("none": free)
  //@sig TEXT                 signature to emit (checked: parameter names must be those extracted)
  //@sub `a` => `b`           token-level substitution (a lost anchor makes the function undecided)
  //@spec                     requires / ensures
  //@loop N                   invariants of the N-th loop
  //@at start | end | loopstart N | loopend N | before `x` | after `x`      proof hints
  //@end
"""
import glob, hashlib, json, os, re, subprocess

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")


class Lost(Exception):
    pass


def tok_re(anchor):
    """regex matching the anchor with any white space between its tokens"""
    parts = re.findall(r"[A-Za-z0-9_]+|\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.)'|\S", anchor)
    return re.compile(r"\s*".join(re.escape(p) for p in parts))


def match_brace(s, i):
    """position of the brace closing the block that contains position i (scanning forward)"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'":
            m = re.match(r"'(?:[^'\\]|\\.[^']*)'", s[i:])
            if m:
                i += m.end() - 1
        elif c == "{":
            d += 1
        elif c == "}":
            if d == 0:
                return i
            d -= 1
        i += 1
    raise Lost("unbalanced")


class Blk:
    def __init__(self, kind, key, line, file):
        self.kind, self.key, self.file, self.line = kind, key, file, line
        self.name = None
        self.attr, self.ret, self.spec, self.impl, self.sig = [], None, "", None, None
        self.loops, self.at, self.subs, self.props, self.outline = {}, [], [], [], []
        self.unfinished = None


def parse_spec(path):
    """-> list of ("text", str) | ("blk", Blk)"""
    out, cur, sect, props = [], None, None, []
    buf = []
    for no, l in enumerate(open(path), 1):
        m = re.match(r"\s*//@(\w+)\s?(.*)$", l)
        if not m:
            if cur is None:
                buf.append(l)
            elif sect is None:
                if l.strip():
                    raise SystemExit("%s:%d: text outside of a section" % (path, no))
            else:
                sect(l)
            continue
        d, rest = m.group(1), m.group(2).strip()
        if d == "props":
            if cur is None:
                props = rest.split()
            else:
                cur.props = rest.split()
            continue
        if d in ("fn", "type", "part"):
            if buf:
                out.append(("text", "".join(buf), (os.path.basename(path), list(props))))
                buf = []
            nm = None
            if " as " in rest:
                rest, nm = rest.rsplit(" as ", 1)
            cur = Blk(d, rest, no, os.path.basename(path))
            cur.name, cur.props = nm, list(props)
            sect = None
        elif d == "end":
            out.append(("blk", cur))
            cur = sect = None
        elif d == "attr":
            cur.attr.append(rest)
        elif d == "ret":
            cur.ret = rest
        elif d == "impl":
            cur.impl = rest
        elif d == "sig":
            cur.sig = rest
        elif d == "sub":
            a, b = re.match(r"`(.*)`\s*=>\s*`(.*)`$", rest).groups()
            cur.subs.append((a, b))
        elif d == "unfinished":
            cur.unfinished = re.match(r"`(.*)`$", rest).group(1)
        elif d == "outline":
            cur.outline.append(re.match(r"(\w+)\s+`(.*)`\s*=>\s*`(.*)`$", rest).groups())
        elif d == "spec":
            def sect(x, c=cur):
                c.spec += x
        elif d == "loop":
            n = int(rest)
            cur.loops[n] = ""
            def sect(x, c=cur, n=n):
                c.loops[n] += x
        elif d == "at":
            h = [rest, ""]
            cur.at.append(h)
            def sect(x, h=h):
                h[1] += x
        else:
            raise SystemExit("%s:%d: unknown directive %s" % (path, no, d))
    if buf:
        out.append(("text", "".join(buf), (os.path.basename(path), list(props))))
    return out


def canon(x):
    return re.sub(r"\s+", " ", x).strip()


PRED = re.compile(r"__vx_pred\s*!\s*\(")


def expand_preds(s):
    """__vx_pred!(p, BODY) -> closure with its meaning as postcondition"""
    while True:
        m = PRED.search(s)
        if not m:
            return s
        i, d = m.end(), 0
        while True:
            c = s[i]
            if c == "'":
                q = re.match(r"'(?:[^'\\]|\\.[^']*)'", s[i:])
                if q:
                    i += q.end()
                    continue
            if c == '"':
                i += 1
                while s[i] != '"':
                    i += 2 if s[i] == "\\" else 1
            if c in "([{":
                d += 1
            elif c in ")]}":
                if d == 0:
                    break
                d -= 1
            i += 1
        p, body = s[m.end():i].split(",", 1)
        p, body = p.strip(), body.strip()
        rep = "|%s: char| -> (__b: bool) ensures __b == (%s) { %s }" % (p, body, body)
        if re.search(r"\bmakefile_take_until_unquote\s*\([^()]*(\([^()]*\)[^()]*)*$", s[:m.start()]):
            rep += ", Ghost(|%s: char| %s)" % (p, body)  # the meaning of the closure, for the contract
        s = s[:m.start()] + rep + s[i + 1:]


def semi(s):
    """a hint follows: end the last expression statement"""
    t = s.rstrip()
    return s if t[-1:] in ";{}" or t.endswith("*/") else s + ";"


def region(body, anchor, whole=False):
    """the expression after an anchor ending in `=` (up to the `;`), or the block an anchor ending in `{` opens"""
    m = tok_re(anchor).search(body)
    if not m:
        raise Lost("outline anchor `%s`" % anchor)
    if anchor.rstrip().endswith("{"):
        a, e = m.end() - 1, match_brace(body, m.end()) + 1
        x = body[a + 1:e - 1].rstrip()
        if x.endswith("?"):  # the error is passed on by the caller
            a, e = a + 1, a + len(x)
    else:
        a = e = m.end()
        d = 0
        while True:
            c = body[e]
            if c == '"':
                e += 1
                while body[e] != '"':
                    e += 2 if body[e] == "\\" else 1
            elif c == "'":
                q = re.match(r"'(?:[^'\\]|\\.[^']*)'", body[e:])
                if q:
                    e += q.end() - 1
            elif c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
            elif c == ";" and d == 0:
                break
            e += 1
        if body[a:e].rstrip().endswith("?"):
            e = a + len(body[a:e].rstrip()) - 1
    x = body[a:e]
    if not whole and re.search(r"\breturn\b|\?", re.sub(r"\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.[^']*)'", "", x)):
        raise Lost("outline `%s` leaves its function" % anchor)
    return a, e


def source(b, it, part=None):
    """the body after substitutions, its outlined parts replaced by calls; or one of these parts"""
    body = it["body"]
    if b.sig and "(this:" in b.sig:  # a method as a free function
        body = re.sub(r"\bself\b", "this", body)
    # a "not implemented" stop is a panic like any other, except where the contract says for what it stands
    body = re.sub(r"\bvdiverge\s*\(\s*\)", "vpanic()" if b.unfinished is None else "{ proof { assert(%s); } vdiverge() }" % b.unfinished, body)
    for a, c in b.subs:
        r = tok_re(a)
        if not r.search(body):
            raise Lost("substitution anchor `%s` not found in %s" % (a, b.key))
        body = r.sub(lambda m: c, body)
    got = None
    for name, anchor, call in b.outline:
        i, j = region(body, anchor, bool(re.search(r"\breturn\b", call)))  # `return part(..)`: the part's returns are the function's
        if name == part:
            got = "{ " + body[i:j].strip() + " }"
        body = body[:i] + (" { " + call + " }" if anchor.rstrip().endswith("{") else " " + call) + body[j:]
    if part is not None and got is None:
        raise Lost("no outlined part %s in %s" % (part, b.key))
    return body if part is None else got


def common_subs(s):
    """rewrites that hold everywhere: the slice iterator and str::Chars have contracts under these names"""
    s = re.sub(r"\.\s*expect\s*\(\s*lit\s*\(\s*\"[^\"]*\"\s*\)\s*\)", ".unwrap()", s)
    s = re.sub(r"\.\s*iter\s*\(\s*\)", ".viter()", s)
    return re.sub(r"\bstr\s*::\s*Chars\b", "StrChars", s)


def fn_text(b, it, stub, probe=False):
    """the text of one function under its contract. -> (lines, lost hints)"""
    lost = []
    name = b.name or it["name"]
    sig = it["sig"]
    if b.kind == "part":
        head = b.sig
    elif b.sig is not None:
        ids = lambda t: re.findall(r"(\w+)\s*:(?!:)", re.sub(r"->.*", "", t[t.index("("):]))
        a = [re.match(r"(?:mut\s+)?(\w+)", p.replace("& mut ", "").replace("&", "").replace("'a ", "")).group(1) for p in it["params"] if not re.search(r"\bself\b", p)]
        c = [x for x in ids(b.sig) if x != "this"]
        if a != c:
            raise Lost("parameters of %s are %s, contract written for %s" % (b.key, a, c))
        head = b.sig
    else:
        head = re.sub(r"^fn\s+\w+", "fn " + name, sig)
        ret = it["ret"]
        if ret:
            head += " -> (%s: %s)" % (b.ret or "r", ret)
        if it["where"]:
            head += " " + it["where"].rstrip().rstrip(",")
    body = it["body"]
    if not stub:
        body = common_subs(expand_preds(source(b, it)))
        here = {int(x) for x in re.findall(r"__vx_loop_(\d+)\s*!", body)}
        if set(b.loops) != here:
            raise Lost("%s has loops %s, invariants written for %s" % (b.key, sorted(here), sorted(b.loops)))
        # hints
        for where, text in b.at:
            w = where.split(None, 1)
            try:
                if w[0] == "start":
                    body = body.replace("{", "{\n/*hint*/ " + text + "/*end*/", 1)
                elif w[0] == "end":
                    k = body.rstrip().rfind("}")
                    body = semi(body[:k]) + "/*hint*/ " + text + "/*end*/" + body[k:]
                elif w[0] in ("loopstart", "loopend"):
                    m = re.search(r"__vx_loop_%s\s*!\s*\(\s*\)\s*;" % w[1].strip(), body)
                    if not m:
                        raise Lost("loop %s" % w[1])
                    if w[0] == "loopstart":
                        body = body[:m.end()] + "\n/*hint*/ " + text + "/*end*/" + body[m.end():]
                    else:
                        k = match_brace(body, m.end())
                        body = semi(body[:k]) + "/*hint*/ " + text + "/*end*/" + body[k:]
                else:
                    idx = 0
                    a = re.match(r"`(.*)`\s*(-?\d*)$", w[1])
                    ms = list(tok_re(a.group(1)).finditer(body))
                    idx = int(a.group(2) or 0)
                    if not -len(ms) <= idx < len(ms):
                        raise Lost("anchor `%s`" % a.group(1))
                    p = ms[idx].start() if w[0] == "before" else ms[idx].end()
                    body = body[:p] + "\n/*hint*/ " + text + "/*end*/\n" + body[p:]
            except Lost as e:
                lost.append("%s: hint %s" % (b.key, e))
        # loop invariants
        for n, inv in b.loops.items():
            m = re.search(r"\{\s*__vx_loop_%d\s*!\s*\(\s*\)\s*;" % n, body)
            if not m:
                raise Lost("loop %d of %s" % (n, b.key))
            body = body[:m.start()] + "\n" + inv + "{" + body[m.end():]
        if probe:
            m = re.match(r"\s*\{(\s*/\*hint\*/(\s*hide\([^)]*\);)*)?", body)
            body = body[:m.end()] + " assert(false); " + body[m.end():]
    # termination is not claimed: recursion and loops need no measure (where one is given it is checked)
    attrs = [a for a in b.attr if "no_decreases" not in a] + ["#[verifier::exec_allows_no_decreases_clause]", "#[verifier::spinoff_prover]"]
    if stub:
        attrs = ["#[verifier::external_body]"] + [a for a in attrs if "loop_isolation" not in a and "no_decreases" not in a and "rlimit" not in a and "spinoff" not in a]
        body = "{ unimplemented!() }"
    txt = "\n".join(attrs) + "\npub " + head + "\n" + b.spec + body + "\n"
    imp = b.impl if b.impl is not None else it["impl"]
    if imp and imp != "none":
        txt = imp + " {\n" + txt + "}\n"
    return txt, lost


def body_hash(it):
    return hashlib.sha256(canon(it["body"] + it.get("sig", "") + it.get("ret", "")).encode()).hexdigest()[:16]


class Unit:
    """one assembled Verus file"""
    def __init__(self, specs, items, stubs=(), verify=None, probe=False):
        """stubs: keys to emit as assumed contracts; verify: keys to verify (others stubbed), None for all"""
        self.ranges, self.lost, self.missing, self.stubbed, self.hints_lost = [], {}, {}, set(), {}
        self.blocks = {}
        parts = ["use vstd::prelude::*;\nuse std::sync::Arc;\n"]
        line = parts[0].count("\n") + 1
        idx = {}
        for it in items:
            idx.setdefault(it["key"], []).append(it)
        for f in specs:
            for e in parse_spec(os.path.join(SPEC, f)):
                if e[0] == "text":
                    t, key = e[1], "spec text " + e[2][0]
                else:
                    b = e[1]
                    key = b.key
                    its = idx.get(b.key)
                    if b.kind == "part":
                        # a piece of another function, verified under a contract of its own
                        ok, part = b.key.split()
                        key = b.key = ok + "#" + part
                        b.name = None
                        try:
                            ob, oit = self.blocks[ok]
                            if oit.get("missing"):
                                raise Lost("%s not found in the source" % ok)
                            its = [dict(oit, key=key, name=part, body=source(ob, oit, part), params=[], ret="", where="")]
                            if b.impl is None:
                                b.impl = oit["impl"]
                        except (KeyError, Lost) as ex:
                            self.lost[key] = str(ex)
                            its = None
                    if not its:
                        self.missing[key] = "not found in the source"
                        if b.kind == "type" or b.sig is None:
                            self.lost[key] = "%s not found in the source" % key
                            continue
                        it = {"key": key, "name": b.name or key.split("::")[-1], "sig": "", "params": [], "ret": "", "where": "", "body": "", "loops": [], "impl": b.impl or "", "missing": True}
                    else:
                        it = its[0]
                    if b.kind == "type":
                        t = "\n".join(b.attr) + "\n" + common_subs(it["body"]) + "\n"
                        for a, c in b.subs:
                            t = tok_re(a).sub(lambda m: c, t)
                    else:
                        if b.name:
                            key = b.key + " as " + b.name
                        self.blocks[key] = (b, it)
                        stub = key in stubs or (verify is not None and key not in verify) or it.get("missing")
                        try:
                            t, lh = fn_text(b, it, stub, probe)
                            if lh:
                                self.hints_lost[key] = lh
                        except Lost as ex:
                            self.lost[key] = str(ex)
                            stub = True
                            try:
                                t, _ = fn_text(b, it, True)
                            except Lost:
                                b2sig, b.sig = b.sig, None
                                t, _ = fn_text(b, it, True)
                                b.sig = b2sig
                        if stub:
                            self.stubbed.add(key)
                n = t.count("\n")
                self.ranges.append((line, line + n, key, e[0]))
                parts.append(t if t.endswith("\n") else t + "\n")
                line += parts[-1].count("\n")
        self.text = "".join(parts)

    def where(self, line):
        for a, b, k, kind in self.ranges:
            if a <= line < b or (a == b == line):
                return k, kind
        return None, None
