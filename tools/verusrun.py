"""Build a Verus file from a unit template + /repo's current source, run Verus, classify the outcome."""
import json, os, re, subprocess, sys, time
from rustx import (File, Lost, T, lex, clean, text, find_loops, find_closures, match_close, norm, syn, skip_attrs, unfold_continue)

REPO = os.environ.get("NAKAMOTO_REPO", "/repo")
VERUS = "/usr/local/bin/verus"
HERE = os.path.dirname(os.path.abspath(__file__))
VDIR = os.path.dirname(HERE)
GEN = os.path.join(VDIR, ".build", "verus")


def parse_unit(path, seen=None):
    """-> list of ('raw', text) | ('fn', file, item, {directives}) | ('struct', ...)"""
    parts, raw = [], []
    lines = open(path).read().split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith("//@@ include "):
            parts.append(("raw", "\n".join(raw))); raw = []
            parts += parse_unit(os.path.join(os.path.dirname(path), ln.split()[2]))
            i += 1
            continue
        m = re.match(r"\s*//@@ (fn|struct|enum|const) (\S+) \| (.*)$", ln)
        if not m:
            raw.append(ln)
            i += 1
            continue
        parts.append(("raw", "\n".join(raw))); raw = []
        kind, f, item = m.group(1), m.group(2), m.group(3).strip()
        d = []
        i += 1
        cur = None
        while not re.match(r"\s*//@@ end", lines[i]):
            mm = re.match(r"\s*//@ ([^:]*):(.*)$", lines[i])
            if mm:
                cur = [mm.group(1).strip(), mm.group(2).strip()]
                d.append(cur)
                if cur[0].count("`") % 2:
                    raise RuntimeError("colon inside an anchor: " + lines[i])
            elif cur is not None:
                cur[1] += "\n" + lines[i]
            i += 1
            if i >= len(lines):
                raise RuntimeError("unterminated //@@ in " + path)
        i += 1
        parts.append((kind, f, item, d))
    parts.append(("raw", "\n".join(raw)))
    return parts


def subst_tokens(toks, pat, rep, allm=True):
    p = [t.s for t in lex(pat)]
    out, i, hit = [], 0, 0
    while i < len(toks):
        if [t.s for t in toks[i:i + len(p)]] == p:
            out += lex(rep) if rep.strip() else []
            i += len(p)
            hit += 1
        else:
            out.append(toks[i])
            i += 1
    return out, hit


def unchain(b, name, fobj, item):
    """`let x = e.or_else(|| f).map(|y| g);` on options, with the closures unfolded into matches"""
    n = len(b)
    for i in range(n - 2):
        if b[i].s == "let" and b[i + 1].s == name and b[i + 2].s == "=":
            break
    else:
        raise Lost("%s: no `let %s =` in %s" % (fobj.rel, name, item))
    depth, j, cuts = 0, i + 3, []
    while not (depth == 0 and b[j].s == ";"):
        if b[j].s in ("(", "[", "{"):
            depth += 1
        elif b[j].s in (")", "]", "}"):
            depth -= 1
        elif depth == 0 and b[j].s == "." and b[j + 1].s in ("or_else", "map") and b[j + 2].s == "(":
            cuts.append(j)
        j += 1
    if not cuts:
        raise Lost("%s: nothing to unfold in `let %s` of %s" % (fobj.rel, name, item))
    out = [syn("let c__0 =")] + b[i + 3:cuts[0]] + [syn(";")]
    for k, c in enumerate(cuts):
        e = (cuts[k + 1] if k + 1 < len(cuts) else j) - 1
        arg = b[c + 3:e]
        last = k + 1 == len(cuts)
        out.append(syn("let %s = match c__%d {" % (name if last else "c__%d" % (k + 1), k)))
        if b[c + 1].s == "or_else":
            if arg[0].s == "||":
                arg = arg[1:]
            elif arg[0].s == "|" and arg[1].s == "|":
                arg = arg[2:]
            else:
                raise Lost("%s: or_else without a closure in %s" % (fobj.rel, item))
            out += [syn("Some(v__) => Some(v__), None => {")] + arg + [syn("} };")]
        else:
            if not (arg[0].s == "|" and arg[2].s == "|"):
                raise Lost("%s: map without a closure in %s" % (fobj.rel, item))
            out += [syn("Some("), arg[1], syn(") => Some({")] + arg[3:] + [syn("}), None => None };")]
    return b[:i] + out + b[j + 1:]


def cut_block(b, anchor, repl, fobj, item):
    p = [t.s for t in lex(anchor)]
    pos = [i for i in range(len(b)) if [t.s for t in b[i:i + len(p)]] == p]
    if len(pos) != 1:
        raise Lost("%s: block `%s` in %s occurs %d times" % (fobj.rel, anchor, item, len(pos)))
    j = pos[0] + len(p)
    if b[j].s != "{":
        raise Lost("%s: `%s` in %s is not followed by a block" % (fobj.rel, anchor, item))
    depth = 0
    while True:
        depth += {"{": 1, "}": -1}.get(b[j].s, 0)
        if depth == 0:
            break
        j += 1
    return b[:pos[0]] + lex(repl) + b[j + 1:]


class Fn:
    pass


def called_names(toks):
    s = set()
    for i, t in enumerate(toks):
        if t.k == "id" and i + 1 < len(toks):
            nx = toks[i + 1].s
            if nx == "(" or (nx == "::" and i + 2 < len(toks) and toks[i + 2].s == "<"):
                s.add(t.s)
            elif nx == "!":
                s.add(t.s + "!")
    return s


def fingerprint(body):
    return {
        "loops": [norm(body[a:b]) for a, b, _ in find_loops(body)],
        "closures": len(find_closures(body)),
        "calls": sorted(called_names(body)),
    }


def emit_fn(fobj, item, directives, probe=False, stub=False):
    if stub:
        # keep only the contract: everything that needs the body is dropped
        directives = [(k, v) for k, v in directives if k in ("spec", "sig", "ret", "attr", "sigsubst", "props")]
    it = fobj.find(item)
    kw, name, st, sig_end, body, e = it
    if not body:
        raise Lost("%s: %s has no body" % (fobj.rel, item))
    toks = fobj.toks
    sig = clean(toks[st:sig_end])
    btoks = clean(toks[body[0]:body[1] + 1])
    fp = fingerprint(btoks)
    btoks = unfold_continue(btoks)
    d = {}
    substs = []
    for k, v in directives:
        if k == "subst" or k == "sigsubst":
            a, b = v.split("=>>")
            substs.append((k, a.strip(), b.strip()))
        else:
            d.setdefault(k, []).append(v)
    used = []
    for k, a, b in substs:
        if k == "sigsubst":
            sig, h = subst_tokens(sig, a, b)
        else:
            btoks, h = subst_tokens(btoks, a, b)
        if h:
            used.append("%s: `%s` -> `%s`" % (item, a, b))
    btoks = unfold_continue(btoks)
    for v in d.get("unchain", []):
        btoks = unchain(btoks, v.strip(), fobj, item)
    for v in d.get("cut", []):
        a, b = v.split("=>>")
        btoks = cut_block(btoks, a.strip(), b.strip(), fobj, item)
        used.append("%s: the block `%s {..}` -> `%s`" % (item, a.strip(), b.strip()))
    # signature: name the result
    j = None
    depth = 0
    for i, t in enumerate(sig):
        if t.s in ("(", "["):
            depth += 1
        elif t.s in (")", "]"):
            depth -= 1
        elif t.s == "->" and depth == 0:
            j = i
            break
    where = None
    for i, t in enumerate(sig):
        if t.s == "where":
            where = i
    if "sig" in d:
        sigtext = d["sig"][-1]
    else:
        ret = d.get("ret", ["r"])[-1]
        end = where if where is not None else len(sig)
        wtext = (" " + text(sig[where:])) if where is not None else ""
        if j is not None:
            sigtext = text(sig[:j]) + " -> (" + ret + ": " + text(sig[j + 1:end]) + ")" + wtext
        else:
            sigtext = text(sig[:end]) + wtext
    spec = "\n".join(d.get("spec", []))
    # loops and closures: insertion edits on btoks (by index)
    ins = {}

    def add(i, s):
        ins.setdefault(i, []).append(s)
    loops = find_loops(btoks)
    closures = find_closures(btoks)
    closure_repl = {}
    for k, vs in d.items():
        m = re.match(r"(loop|loop_start|loop_end|loop_before|loop_after|closure) (\d+)(?: it=(\w+))?$", k)
        if not m:
            continue
        what, n, itn = m.group(1), int(m.group(2)), m.group(3)
        v = "\n".join(vs)
        if what == "closure":
            if n >= len(closures):
                raise Lost("%s: closure %d of %s is gone" % (fobj.rel, n, item))
            closure_repl[closures[n][0]] = (closures[n], v)
            continue
        if n >= len(loops):
            raise Lost("%s: loop %d of %s is gone" % (fobj.rel, n, item))
        a, b, c = loops[n]
        if what == "loop":
            add(b, "\n" + v + "\n")
            if itn:
                # after `in` keyword of the for header
                for q in range(a, b):
                    if btoks[q].s == "in" and btoks[q].k == "id":
                        add(q + 1, itn + ":")
                        break
        elif what == "loop_start":
            add(b + 1, "\n" + v + "\n")
        elif what == "loop_end":
            add(c, "\n" + v + "\n")
        elif what == "loop_before":
            add(a, "\n" + v + "\n")
        elif what == "loop_after":
            add(c + 1, "\n" + v + "\n")
    if stub:
        btoks = lex("{ unimplemented ! ( ) }")
        d.setdefault("attr", []).append("#[verifier::external_body]")
        probe = False
    if "entry" in d:
        add(1, "\n" + "\n".join(d["entry"]) + "\n")
    if probe:
        add(1, "\n proof { assert(false); /*probe*/ }\n")
    if "exit" in d:
        add(1, "\n let ret__ = {\n")
        add(len(btoks) - 1, "\n};\n" + "\n".join(d["exit"]) + "\n ret__\n")
    for k, vs in d.items():
        m = re.match(r"(before|after) `(.*)`$", k)
        if m:
            p = [t.s for t in lex(m.group(2))]
            pos = [i for i in range(len(btoks)) if [t.s for t in btoks[i:i + len(p)]] == p]
            if len(pos) != 1:
                raise Lost("%s: anchor `%s` in %s occurs %d times" % (fobj.rel, m.group(2), item, len(pos)))
            at = pos[0] if m.group(1) == "before" else pos[0] + len(p)
            add(at, "\n" + "\n".join(vs) + "\n")
    out = []
    i = 0
    close_at = {}
    while i < len(btoks):
        for s in ins.get(i, []):
            out.append(syn(s))
        if i in close_at:
            for _ in range(close_at.pop(i)):
                out.append(syn("}"))
        if i in closure_repl:
            (a, e2, b2, z), v = closure_repl[i]
            hd, _, pre = v.partition(";;")
            out.append(syn(hd))
            if btoks[b2].s != "{" or pre.strip():
                out.append(syn("{ " + pre))
                close_at[z] = close_at.get(z, 0) + 1
            i = b2
            continue
        out.append(btoks[i])
        i += 1
    tx = "".join(v + "\n" for v in d.get("attr", [])) + sigtext + "\n" + spec + "\n" + text(out) + "\n"
    nens = len(re.findall(r",\s*(?:\n|$)", spec))
    line = fobj.src.count("\n", 0, toks[st].a) + 1
    return tx, fp, used, line


def emit_item(fobj, kind, item, directives):
    it = fobj.find(item)
    kw, name, st, sig_end, body, e = it
    toks = clean(fobj.toks[st:e])
    # make fields pub
    out = []
    if kind == "struct" and body:
        d = 0
        prev = None
        for i, t in enumerate(toks):
            if t.s == "pub":
                continue
            if t.k == "p" and t.s in OPENS:
                d += 1
            elif t.k == "p" and t.s in CLOSES:
                d -= 1
            if d == 1 and t.k == "id" and toks[i + 1].s == ":" and prev in ("{", ","):
                out.append(syn("pub"))
            if t.k != "syn":
                prev = t.s
            out.append(t)
    else:
        out = [t for t in toks if t.s != "pub"]
    used = []
    for k, v in directives:
        if k == "subst":
            a, b = v.split("=>>")
            out, h = subst_tokens(out, a.strip(), b.strip())
            if h:
                used.append("%s: `%s` -> `%s`" % (item, a.strip(), b.strip()))
    attr = "\n".join(v for k, v in directives if k == "attr")
    spec = "\n".join(v for k, v in directives if k == "spec")
    if kind == "const" and spec:      # const X: T = e;  ->  exec const X: T <spec> { e }
        eq = next(i for i, t in enumerate(out) if t.s == "=")
        semi = max(i for i, t in enumerate(out) if t.s == ";")
        return attr + "\npub exec " + text(out[:eq]) + " " + spec + " { " + text(out[eq + 1:semi]) + " }\n", used
    return attr + "\npub " + text(out) + "\n", used


OPENS = {"(", "[", "{"}
CLOSES = {")", "]", "}"}


def build(unit, probe=False, stubs=()):
    path = os.path.join(VDIR, "verus", unit + ".rs")
    parts = parse_unit(path)
    files = {}
    out = []
    fns = []
    substs = []
    nl = 0

    def push(s):
        nonlocal nl
        out.append(s + "\n")
        nl += s.count("\n") + 1
    for p in parts:
        if p[0] == "raw":
            push(p[1])
            continue
        kind, f, item, d = p
        if f not in files:
            fp_ = os.path.join(REPO, f)
            if not os.path.exists(fp_):
                raise Lost("no file " + f)
            files[f] = File(fp_, f)
        if kind == "fn":
            try:
                tx, fp, used, line = emit_fn(files[f], item, d, probe, f + " | " + item in stubs)
            except Lost as ex:
                ex.fn = f + " | " + item
                raise
            a = nl + 1
            push(tx)
            fns.append({"file": f, "item": item, "line": line, "gen": [a, nl], "fp": fp, "key": f + " | " + item, "stub": f + " | " + item in stubs,
                        "props": next((v.split() for k, v in d if k == "props"), None),
                        "contract": "\n".join(v for k, v in d if k == "spec").strip()})
            substs += used
        else:
            tx, used = emit_item(files[f], kind, item, d)
            push(tx)
            substs += used
    return "".join(out), fns, substs


ASSUME = re.compile(r"external_body|assume_specification|\bassume\s*\(|\badmit\s*\(|\baxiom\b|external_type_specification|uninterp")


def scan_assumptions(src):
    """every trusted marker in the generated file, with the item it sits on"""
    res = []
    lines = src.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        m = ASSUME.search(l)
        if m:
            ctx = s
            j = i + 1
            while (ctx.startswith("#[") and not re.search(r"\b(fn|struct|spec)\b", ctx)) and j < len(lines):
                ctx = lines[j].strip()
                j += 1
            res.append("%s: %s" % (m.group(0).strip("( "), ctx[:160]))
    return res


def run_verus(src, name, timeout=600, extra=()):
    os.makedirs(GEN, exist_ok=True)
    path = os.path.join(GEN, name + ".rs")
    open(path, "w").write(src)
    t0 = time.time()
    try:
        p = subprocess.run([VERUS, path, "--output-json", "--time-expanded", "--num-threads", "8", "--no-report-long-running", "--triggers-mode", "silent", "--rlimit", "40"]
                           + list(extra), capture_output=True, text=True, timeout=timeout, cwd=GEN)
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "wall": time.time() - t0, "out": "", "failures": [], "verified": 0, "errors": 0, "path": path}
    wall = time.time() - t0
    js = {}
    try:
        js = json.loads(p.stdout[p.stdout.index("{"):])
    except Exception:
        pass
    vr = js.get("verification-results", {})
    smt = 0
    try:
        smt = js["times-ms"]["smt"]["total"]
    except Exception:
        pass
    fails = []
    blocks = re.split(r"\n(?=error)", "\n" + p.stderr)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        msg = b.split("\n")[0]
        if "aborting due to" in msg:
            continue
        lines = [int(x) for x in re.findall(r"^\s*--> [^\n:]*:(\d+):\d+", b, re.M)]
        lines += [int(x) for x in re.findall(r"^\s*(\d+) \|", b, re.M)]
        fails.append({"msg": msg, "lines": lines, "text": b})
    st = "ok"
    hard = [f for f in fails if is_compile(f["msg"])]
    if "panicked at" in p.stderr or vr.get("encountered-vir-error") or hard or "verified" not in vr:
        st = "compile"
    elif any("rlimit" in f["msg"].lower() or "resource limit" in f["msg"].lower() for f in fails):
        st = "rlimit"
    elif not vr.get("success"):
        st = "failed"
    return {"status": st, "wall": wall, "smt_ms": smt, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0),
            "failures": fails, "out": p.stderr, "path": path, "json": js, "cmd": "verus " + os.path.relpath(path, VDIR)}


OBLIG = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
         "possible arithmetic", "loop invariant", "recommendation not met", "decreases not satisfied", "unreachable",
         "possible division by zero", "cannot show", "may not", "possible bit shift", "constructed value may fail",
         "unable to prove", "resource limit", "rlimit", "split", "call to non-ghost", "possible", "could not prove", "not satisfied", "panic")


def is_compile(msg):
    m = msg.lower()
    if re.match(r"error\[e\d+\]", m):
        return True
    return not any(o in m for o in OBLIG)


def fn_of(fns, lines):
    for l in lines:
        for f in fns:
            if f["gen"][0] <= l <= f["gen"][1]:
                return f
    return None


if __name__ == "__main__":
    unit = sys.argv[1]
    src, fns, substs = build(unit, probe="--probe" in sys.argv)
    r = run_verus(src, unit, extra=[a for a in sys.argv[2:] if a != "--probe"])
    print(r["out"])
    print({k: v for k, v in r.items() if k not in ("out", "json", "failures")})
    print("fns", len(fns), "substs", substs)
    print("assumptions", len(scan_assumptions(src)))
