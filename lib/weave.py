"""Weaves contracts into functions taken, on every run, from /repo's current source.

A unit (contracts/<unit>.vx) names source files, the items and functions to take from
them, and the contract text of each.  The text of a function is the text in /repo; the
only edits are the ones in the list REWRITES below (each is reported in the evidence).
"""
import json, os, re, subprocess, hashlib

REWRITES = {
    "drop-log": "logging and printing macros (debug!/info!/warn!/error!/trace!/println!/eprintln!) used as statements are removed",
    "drop-attrs": "attributes, doc comments and `pub` are removed from the item",
    "ret-binder": "the return type T becomes (ret: T) so that the contract can name it",
    "for-binder": "a `for` loop over E gets a ghost iterator name (`for p in it: E`)",
    "cast-f64": "`E as f64` and `f64::from(E)` become the trusted call v_as_f64(E), `E as f32` becomes v_as_f32(E)",
    "cast-from-float": "`E as <int>` on a float becomes the trusted call named in the unit",
    "tail-continue": "`continue` as the last statement of a loop body is removed",
    "float-opassign": "`a op= b` on floats becomes `a = a op (b)`",
    "float-neg": "`-E` on a float becomes v_neg(E)",
    "for-collect": "`for x in <adapter chain>` iterates over the collected items of the chain",
    "pat-let": "a closure or `for` pattern that is not a name becomes a name, with the pattern bound by a `let` at the start of the body (`&p` binds p to the dereferenced name)",
    "continue-to-else": "`if c { A; continue; } B` in a loop body becomes `if c { A; } else { B }`",
    "for-wrap": "the expression of a `for` loop is wrapped in a trusted conversion to the sequence of its items",
    "bincode-path": "the absolute path `::bincode::` becomes `bincode::` (the stand-in module of the unit)",
    "vec-macro": "`vec![x; n]` becomes the trusted call v_vec(x, n)",
    "shim": "an iterator adapter or library call Verus has no specification for becomes a trusted wrapper that calls it",
    "closure-contract": "a closure gets parameter/return types and a contract; its body is unchanged",
    "assert-to-refusal": "where a panic becomes v_refuse(), assert!(C, ..) becomes `if !(C) { v_refuse(); }`",
    "borrow-lifetime": "the lifetime parameter of BorrowDecode and BorrowDecoder is left out",
    "panic-to-unreachable": "todo!()/panic!() becomes v_panic(), whose precondition is false, or v_refuse(), which does not return",
    "derived-default": "the code that `derive(Default)` generates for an enum (the variant marked #[default]) or a struct (the default of each field)",
    "ghost-world": "a function that touches files gets a ghost parameter (`Tracked<&mut Fs>`, the contents of all files), and so do its calls of such functions; it is erased and nothing is added to the executed code",
    "for-each": "`E.for_each(|p| body)` becomes `for p in E { body }`",
    "eq-call": "`a == b` on references to a type of the crate becomes a.eq(b), the function of its PartialEq",
    "opt-eq": "`a == Some(&b)` becomes the trusted call v_opt_eq(a, Some(&b)), the comparison of the values in there",
    "own-alias": "a type that the file knows by a name of its own (its alias `Result<T>`, an imported `Error`) gets a name of its own in the unit",
    "dyn-error": "`Box<dyn Error>` becomes the stand-in AnyError, of which nothing is known",
    "bytes-eq": "`a == b\"..\"` on byte slices becomes the trusted call v_beq(a, b)",
    "byte-string": "b\"...\" becomes a reference to the array of its bytes",
}

class Unfit(Exception):
    """The contracts do not fit the current shape of the source (not a verdict)."""


def index(vx, files):
    out = subprocess.run([vx] + files, capture_output=True, text=True, timeout=120)
    if out.returncode != 0:
        raise Unfit("vx failed: " + out.stderr[:400])
    d = json.loads(out.stdout)
    for f in d.values():
        for it in f.get("items", []):
            for k in ("path", "trait"):
                if it.get(k) and "BorrowDecode" in it[k]:
                    it[k] = re.sub(r"(?:::)?(?:bincode::)?BorrowDecode<'\w+>", "BorrowDecode", it[k])
    return d


LOG = {"println", "print", "eprintln", "eprint", "debug", "info", "warn", "error", "trace", "log::debug", "log::info", "log::warn", "log::error", "log::trace"}


def parse_unit(path, repo="/repo"):
    """-> list of sections: (directive, args, text)"""
    secs = []
    cur = None
    for line in open(path, encoding="utf-8"):
        if line.startswith("#!"):      # comment
            continue
        m = re.match(r"^#([a-z]+)\b[ \t]*(.*)$", line)
        if m and not line.startswith("#["):
            cur = [m.group(1), m.group(2).strip(), ""]
            secs.append(cur)
        elif cur is None:
            if line.strip():
                raise ValueError("text before first directive in " + path)
        else:
            cur[2] += line
    out = []
    for d, a, t in secs:
        if d == "include":
            out += parse_unit(os.path.join(os.path.dirname(path), a), repo)
        else:
            out.append((d, a, t))
    return out


def pat_let(pat, var):
    """(`let` statements that bind `pat` from variable `var`, or None when `pat` is a name)"""
    pat = pat.strip()
    if re.match(r"^(mut\s+)?[a-z_][A-Za-z0-9_]*$", pat) and pat != "_":
        return None
    src = var
    while pat.startswith("&"):
        pat = pat[1:].strip()
        src = "*" + src
    post = ""
    for m in list(re.finditer(r"(&+)\s*([a-z_][A-Za-z0-9_]*)", pat)):
        post += " let %s = %s%s__r;" % (m.group(2), "*" * len(m.group(1)), m.group(2))
    pat = re.sub(r"(&+)\s*([a-z_][A-Za-z0-9_]*)", r"\2__r", pat)
    if "&" in pat:
        raise Unfit("pattern outside the reach of pat-let: " + pat)
    return " let %s = %s;%s" % (pat, src, post)


def split_args(s):
    """the arguments of a macro call (strings and brackets respected)"""
    out, depth, cur, q = [], 0, "", None
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == "\\":
                i += 1
                cur += s[i]
            elif c == q:
                q = None
        elif c == '"':
            q = c
            cur += c
        elif c == "," and depth == 0:
            out.append(cur.strip()); cur = ""
        else:
            depth += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(c, 0)
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def in_tail(b, nodes, lo, hi, t0, t1):
    """nothing is left to do in [lo, hi) after the expression at [t0, t1)"""
    only = lambda x: re.fullmatch(r"[\s;},]*", re.sub(r"//[^\n]*|/\*.*?\*/", "", x.decode(), flags=re.S))
    if only(b[t1:hi]):
        return True
    for n in sorted((n for n in nodes if n["k"] in ("match", "if") and lo <= n["span"][0] < t0 and t1 <= n["span"][1] <= hi), key=lambda n: n["span"][0]):
        if not only(b[n["span"][1]:hi]):
            continue
        if n["k"] == "match":
            for a in n["arms"]:
                if a["body"][0] <= t0 and t1 <= a["body"][1]:
                    return in_tail(b, nodes, a["body"][0], a["body"][1], t0, t1)
        elif n["then"]["open"] < t0 and t1 <= n["then"]["close"]:
            return in_tail(b, nodes, n["then"]["open"], n["then"]["close"], t0, t1)
        elif t0 > n["then"]["close"]:
            return in_tail(b, nodes, n["then"]["close"] + 1, n["span"][1], t0, t1)
    return False


class Edits:
    def __init__(self, text, base, end):
        self.t, self.b, self.e = text, base, end
        self.ops = []   # (start, end, order, replacement)
        self.n = 0

    def ins(self, at, s, order=None):
        self.n += 1
        self.ops.append((at, at, self.n if order is None else order, s))

    def rep(self, a, b, s):
        self.n += 1
        self.ops.append((a, b, self.n, s))

    def apply(self):
        # drop operations nested in a replaced range
        reps = [(a, b) for a, b, _, _ in self.ops if b > a]
        ops = []
        for o in self.ops:
            a, b = o[0], o[1]
            if not (a == b and o[2] == -10**6) and any((ra < a or (ra == a and rb > b)) and b <= rb and (ra, rb) != (a, b) and a < rb for ra, rb in reps if rb - ra > b - a):
                continue
            ops.append(o)
        ops.sort(key=lambda o: (o[0], 0 if o[0] == o[1] else 1, o[2]))
        out, pos = [], self.b
        for a, b, _, s in ops:
            if a < pos:
                raise Unfit("overlapping edits")
            out.append(self.t[pos:a]); out.append(s.encode()); pos = b
        out.append(self.t[pos:self.e])
        return b"".join(out).decode()


class Unit:
    def __init__(self, path, vx, repo="/repo"):
        self.path, self.repo = path, repo
        self.name = os.path.basename(path).rsplit(".", 1)[0]
        self.secs = parse_unit(path)
        self.vx = vx
        self.used = {}
        self.unfit = []        # reasons for which contracts did not fit
        self.funcs = []        # functions under contract
        self.trusted = []      # functions whose contract is assumed
        self.clauses = 0
        self.dropped = []

    def rw(self, k, what):
        self.used.setdefault(k, []).append(what)

    def build(self, degrade=None, canary=False):
        """degrade: names of functions whose body is not given to the verifier (their contract is
        then assumed, and reported as not discharged); canary: each function under contract is
        emitted a second time with `ensures false`."""
        self.degrade = degrade or {}
        self.degraded = {}
        self.canary = canary
        self.canary_names = []
        files = []
        for d, a, t in self.secs:
            if d == "file":
                files.append(os.path.join(self.repo, a))
        self.idx = index(self.vx, sorted(set(files)))
        for f in files:
            if f not in self.idx or "error" in self.idx[f]:
                raise Unfit("cannot read or parse %s: %s" % (f, self.idx.get(f, {}).get("error")))
        out = []
        cur_file = None
        i = 0
        secs = self.secs
        regions = []

        def emit(s, tag):
            regions.append((tag, s))
        emit("#![allow(unused_imports, unused_variables, dead_code, unused_mut, non_snake_case, unused_parens, unused_braces)]\nuse vstd::prelude::*;\n", ("head", ""))
        uses = [t for d, a, t in secs if d == "use"]
        emit("".join(uses) + "verus! {\n", ("head", ""))
        while i < len(secs):
            d, a, t = secs[i]
            if d == "file":
                cur_file = os.path.join(self.repo, a)
            elif d in ("prelude", "lemma", "postlude"):
                emit(t, ("spec", d + " " + a))
            elif d == "item":
                emit(self.item(cur_file, a, t), ("item", a))
            elif d == "default":
                emit(self.default(cur_file, a, t), ("item", a))
            elif d in ("fn", "trusted", "canary"):
                sub = []
                j = i + 1
                while j < len(secs) and secs[j][0] in ("spec", "loop", "body", "bodyend", "start", "pretail", "after", "before", "closure", "shim", "opt", "attr", "ret", "asfn", "end", "gen", "repl", "implspec", "each", "eachbody"):
                    sub.append(secs[j]); j += 1
                if d == "trusted":
                    src = [w[5:] for x in sub if x[0] == "opt" for w in x[1].split() if w.startswith("from=")]
                    if src:
                        sub = [("opt", w, "") for x in sub if x[0] == "opt" for w in x[1].split() if w.startswith("alias=")] + [x for x in sub if x[0] != "opt"] + self.contract_of(src[0], a)
                if d == "fn" and a in self.degrade:
                    self.degraded[a] = self.degrade[a]
                    emit(self.func(cur_file, a, t, sub, "trusted"), ("fn", a))
                else:
                    try:
                        emit(self.func(cur_file, a, t, sub, d), ("fn", a))
                        if canary and d == "fn":
                            nm = "canary_%d" % len(self.canary_names)
                            self.canary_names.append(nm)
                            emit(self.func(cur_file, a, t, sub, d, nm), ("fn", a))
                    except Unfit as ex:
                        if d != "fn":
                            raise
                        self.degraded[a] = str(ex)
                        emit(self.func(cur_file, a, t, sub, "trusted"), ("fn", a))
                i = j
                continue
            elif d == "use":
                pass
            else:
                raise ValueError("unknown directive #%s in %s" % (d, self.path))
            i += 1
        # Verus takes one module-level `broadcast use`: the ones of the unit and of its includes are joined
        groups = []
        for k, (tag, s) in enumerate(regions):
            if tag[0] == "spec":
                groups += re.findall(r"^broadcast use ([^;{}]+);[ \t]*$", s, flags=re.M)
                regions[k] = (tag, re.sub(r"^broadcast use [^;{}]+;[ \t]*$", "", s, flags=re.M))
        if groups:
            emit("broadcast use {%s};\n" % ", ".join(groups), ("head", ""))
        emit("\n} // verus!\nfn main() {}\n", ("head", ""))
        text, spans, line = "", [], 1
        for tag, s in regions:
            if not s.endswith("\n"):
                s += "\n"
            n = s.count("\n")
            spans.append((line, line + n - 1, tag))
            line += n
            text += s
        self.spans = spans
        return text

    def contract_of(self, unit, name):
        """the contract that unit `unit` proves for function `name`"""
        secs = parse_unit(os.path.join(os.path.dirname(self.path), unit + ".vx"))
        for i, (d, a, t) in enumerate(secs):
            if d == "fn" and a == name:
                sub = []
                for x in secs[i + 1:]:
                    if x[0] in ("file", "prelude", "lemma", "postlude", "item", "fn", "trusted", "use", "default"):
                        break
                    sub.append(x)
                opts = " ".join(x[1] for x in sub if x[0] == "opt").split()
                if any(o.startswith("rename=") for o in opts):
                    continue
                keep = [o for o in opts if o.startswith(("world", "ret=", "inherent", "free"))]
                return [("opt", " ".join(keep), "")] + [x for x in sub if x[0] in ("spec", "implspec")]
        raise ValueError("%s has no contract for %s" % (unit, name))

    def find(self, f, name, kinds):
        """name may be 'A|B': alternatives.  Returns the item."""
        for nm in name.split("|"):
            nm = nm.strip()
            c = [it for it in self.idx[f]["items"] if it["kind"] in kinds and it["path"] == nm]
            if len(c) == 1:
                return c[0]
            if len(c) > 1:
                raise Unfit("%s is defined more than once in %s" % (nm, f))
        raise Unfit("anchor lost: no %s named %s in %s" % ("/".join(kinds), name, f))

    def src(self, f):
        return open(f, "rb").read()

    def item(self, f, a, t):
        kind, name = a.split()[:2]
        it = self.find(f, name, (kind,))
        b = self.src(f)
        s = b[it["start"]:it["span"][1]].decode()
        s = re.sub(r"^\s*//[/!].*$", "", s, flags=re.M)
        s = re.sub(r"^\s*#\[[^\]]*\]\s*$", "", s, flags=re.M)
        s = re.sub(r"\bpub(\s*\([a-z]+\))?\s+", "", s)
        if kind in ("const", "static"):
            s = re.sub(r"&\s*'static\s", "&", s)
            if kind == "static":
                s = re.sub(r"^\s*static", "const", s)
            s = "\n" + s
        self.rw("drop-attrs", name)
        return t.rstrip("\n") + ("\n" if t.strip() else "") + ("pub " if a.split()[2:] == ["pub"] else "") + s.strip() + "\n"

    def default(self, f, name, spec):
        """the `Default` implementation that `derive(Default)` generates"""
        it = self.find(f, name, ("enum", "struct"))
        s = self.src(f)[it["start"]:it["span"][1]].decode()
        head = self.src(f)[it["span"][0]:it["start"]].decode()
        m = re.search(r"#\[default\]\s*(?://[^\n]*\n\s*)*([A-Za-z0-9_]+)", s)
        if not re.search(r"derive\([^)]*\bDefault\b", head):
            raise Unfit("%s does not derive Default" % name)
        if re.search(r"\bstruct\b", s):
            s = re.sub(r"//[^\n]*", "", s)
            fields = re.findall(r"(?:pub(?:\s*\([a-z]+\))?\s+)?(\w+)\s*:\s*([^,{}]+(?:<[^{}]*?>)?)\s*(?:,|\}|$)", s[s.index("{") + 1:])
            def dflt(t):
                t = t.strip()
                if re.fullmatch(r"[iu](8|16|32|64|128|size)", t): return "0"
                if t == "bool": return "false"
                if t == "String": return "String::new()"
                if t.startswith("Vec<"): return "Vec::new()"
                if t.startswith("Option<"): return "None"
                if re.fullmatch(r"\w+", t): return t + "::default()"
                raise Unfit("%s: default of %s" % (name, t))
            body = ", ".join("%s: %s" % (n, dflt(t)) for n, t in fields)
            self.rw("derived-default", "%s: %s" % (name, body))
            return "impl %s { fn default() -> (r: %s)\n%s{ %s { %s } } }\n" % (name, name, spec, name, body)
        if not m:
            raise Unfit("%s does not derive Default" % name)
        self.rw("derived-default", "%s: %s" % (name, m.group(1)))
        return "impl %s { fn default() -> (r: %s) ensures r == %s::%s { %s::%s } }\n" % ((name, name) + (name, m.group(1)) * 2)

    def func(self, f, a, t, sub, how, canary=None):
        words = a.split()
        name = words[0] if not a.startswith("<") else a
        it = self.find(f, name, ("fn",))
        b = self.src(f)
        opts = {}
        spec, closures, shims = "", {}, []
        ann = {}
        attr = ""
        repls = []
        implspec = ""
        each = {}
        for d, x, tx in sub:
            if d == "spec":
                spec += tx
            elif d == "opt":
                for w in x.split():
                    k, _, v = w.partition("=")
                    opts[k] = v or True
            elif d == "attr":
                attr += x + tx + "\n"
            elif d in ("loop", "body", "bodyend", "after", "before"):
                k = x.split()
                ann.setdefault((d, int(k[0])), []).append((k[1:], tx))
            elif d in ("start", "pretail"):
                ann.setdefault((d, 0), []).append(([], tx))
            elif d == "each":
                each[int(x.split()[0])] = [x.split()[1:], tx, ""]
            elif d == "eachbody":
                each[int(x.split()[0])][2] += tx
            elif d == "closure":
                closures[int(x.split()[0])] = (x, tx)
            elif d == "repl":
                repls.append((x, tx))
            elif d == "implspec":
                implspec = tx
        ed = Edits(b, it["start"], it["span"][1])
        # item-level edits
        ann = {k: [(x, self.params(tx, it)) for x, tx in v] for k, v in ann.items()}
        vis = it["vis"]
        if vis:
            s0 = it["start"]
            m = re.match(rb"(\s|//[^\n]*\n)*pub(\s*\([a-z ]+\))?\s*", b[s0:])
            if m:
                ed.rep(s0, s0 + m.end(), "\n")
        loops = {n["id"]: n for n in it["nodes"] if n["k"] == "loop"}
        for k in [int(x) for x in str(opts.get("forcollect", "")).split(",") if x]:
            if how == "trusted":
                break
            if k not in loops or loops[k]["lk"] != "for":
                raise Unfit("%s: loop %d is not a for loop any more" % (name, k))
            ed.ins(loops[k]["expr"][1], ".collect::<Vec<_>>()", order=10**8)
            self.rw("for-collect", name)
        if how != "trusted":
            for kv in [x for x in str(opts.get("forwrap", "")).split(",") if x]:
                k, _, fnm = kv.partition(":")
                k = int(k)
                if k not in loops or loops[k]["lk"] != "for":
                    raise Unfit("%s: loop %d is not a for loop any more" % (name, k))
                ed.ins(loops[k]["expr"][0], fnm + "(", order=-10**5)
                ed.ins(loops[k]["expr"][1], ")", order=10**8 + 1)
                self.rw("for-wrap", name)
            for k, L in loops.items():
                if L["lk"] == "for":
                    ptx = b[L["pat"][0]:L["pat"][1]].decode()
                    if "&" in ptx:
                        ed.rep(L["pat"][0], L["pat"][1], "vq%d" % k)
                        ed.ins(L["body"]["open"] + 1, pat_let(ptx, "vq%d" % k), order=-10**8)
                        self.rw("pat-let", name)
        if opts.get("world"):
            ps = it["params"]
            if ps:
                at = max(p["span"][1] for p in ps)
                ed.ins(at, ", Tracked(fs): Tracked<&mut Fs>")
            else:
                m = re.compile(rb"\(\s*\)").search(b, it["sig"][0])
                ed.ins(m.start() + 1, "Tracked(fs): Tracked<&mut Fs>")
            self.rw("ghost-world", name)
        if it["ret"]:
            r0, r1 = it["ret"]
            ed.ins(r0, "(%s: " % opts.get("ret", "ret"), order=-10**6)
            ed.ins(r1, ")")
        bopen = it["block"]["open"]
        if canary:
            spec = self.add_false(spec)
        if spec.strip() and how != "trusted":
            ed.ins(bopen, "\n" + self.indent(spec, it) + "\n")
        self.clauses += self.count_clauses(spec)
        if how == "trusted":
            self.trusted.append(a)
            ed.rep(it["block"]["open"], it["block"]["close"] + 1, ("\n" + self.indent(spec, it) + "\n" if spec.strip() else "") + "{ unimplemented!() }")
            attr += "#[verifier::external_body]\n"
        else:
            self.funcs.append(a)
            if opts.get("foreach") or each:
                closures = dict(closures)
                self.for_each(ed, b, it, each)
            self.rewrite_body(ed, b, it, opts, closures)
            # check that the annotated loops are the loops of the function
            want = {}
            for (d, k), v in ann.items():
                if d == "loop":
                    want[k] = v[0][0][0] if v[0][0] else None
            nl = int(opts.get("loops", len(want)))
            if how == "fn" and len(loops) != nl:
                raise Unfit("%s: %d loops, the contracts are for %d" % (name, len(loops), nl))
            for (d, k), lst in sorted(ann.items()):
                for args, tx in lst:
                    if d == "loop":
                        if k not in loops or (args and args[0] != loops[k]["lk"]):
                            raise Unfit("%s: loop %d is not a %s loop any more" % (name, k, args[0] if args else "?"))
                        L = loops[k]
                        tx = self.subst(tx, b, L, it)
                        if L["lk"] == "for" and len(args) > 1:
                            ed.ins(L["expr"][0], args[1] + ": ", order=-10**6)
                        ed.ins(L["body"]["open"], "\n" + tx.rstrip() + "\n")
                        self.clauses += self.count_clauses(tx)
                    elif d == "body":
                        if k not in loops: raise Unfit("%s: loop %d gone" % (name, k))
                        ed.ins(loops[k]["body"]["open"] + 1, "\n" + self.subst(tx, b, loops[k], it))
                    elif d == "bodyend":
                        if k not in loops: raise Unfit("%s: loop %d gone" % (name, k))
                        ed.ins(loops[k]["body"]["close"], "\n" + self.subst(tx, b, loops[k], it))
                    elif d == "after":
                        if k not in loops: raise Unfit("%s: loop %d gone" % (name, k))
                        ed.ins(loops[k]["span"][1], "\n" + tx)
                    elif d == "before":
                        if k not in loops: raise Unfit("%s: loop %d gone" % (name, k))
                        ed.ins(loops[k]["span"][0], "\n" + tx)
                    elif d == "start":
                        ed.ins(bopen + 1, "\n" + tx)
                    elif d == "pretail":
                        tl = it["block"]["tail"]
                        if tl and not it["ret"]:
                            # the tail of a function without a result has the value ()
                            ed.ins(tl[1], ";", order=10**9)
                            tl = None
                        ed.ins(tl[0] if tl else it["block"]["close"], "\n" + tx, order=-10**7)
            for x, tx in repls:
                # "#repl <rule> <exact source text>": replaces that text (must occur once in the function)
                rule, _, pat = x.partition(" ")
                body = b[it["span"][0]:it["span"][1]].decode()
                if body.count(pat) != 1:
                    raise Unfit("%s: source text %r no longer occurs once" % (name, pat))
                p = it["span"][0] + len(body[:body.index(pat)].encode())
                ed.rep(p, p + len(pat.encode()), tx.strip())
                self.rw(rule, "%s: %s -> %s" % (name, pat, tx.strip()))
        self.rw("drop-attrs", name)
        s = ed.apply()
        if re.search(r'\bb"[^"\\\n]*"', s):
            s = re.sub(r'\bb"([^"\\\n]*)"', lambda m: "&[" + ", ".join("%du8" % ord(c) for c in m.group(1)) + "]", s)
            self.rw("byte-string", name)
        if "::bincode::" in s:
            s = re.sub(r"(?<![A-Za-z0-9_])::bincode::", "bincode::", s)
            self.rw("bincode-path", name)
        for kv in [x for x in str(opts.get("alias", "")).split(",") if x]:
            k, _, v = kv.partition(":")
            s = re.sub(r"(?<![A-Za-z0-9_:])%s(?![A-Za-z0-9_(:])" % re.escape(k), v, s)
            self.rw("own-alias", name)
        if it["trait"] and "BorrowDecode" in it["trait"]:
            s = re.sub(r"(?:\bbincode::)?BorrowDecode::", "BorrowDecode::", re.sub(r"BorrowDecoder\s*<\s*'\w+\s*>", "BorrowDecoder", s))
            it = dict(it, trait="BorrowDecode")
            self.rw("borrow-lifetime", name)
        if re.search(r"\bBox\s*<\s*dyn\s+(std::error::)?Error\s*>", s):
            s = re.sub(r"\bBox\s*<\s*dyn\s+(std::error::)?Error\s*>", "AnyError", s)
            self.rw("dyn-error", name)
        if canary:
            s = re.sub(r"\bfn\s+%s\b" % re.escape(it["name"]), "fn " + canary, s, count=1)
            opts = dict(opts, inherent=True)
        elif opts.get("rename"):
            s = re.sub(r"\bfn\s+%s\b" % re.escape(it["name"]), "fn " + opts["rename"], s, count=1)
        s = attr + s + "\n"
        if it["owner"] and not opts.get("free"):
            tr = it["trait"]
            s = ("impl %s for %s {\n%s" % (tr, it["owner"], implspec) if tr and not opts.get("inherent") else "impl %s {\n" % it["owner"]) + s + "}\n"
        return s

    def add_false(self, spec):
        if re.search(r"\bensures\b", spec):
            return re.sub(r"\bensures\b", "ensures false, ", spec, count=1)
        m = re.search(r"\bdecreases\b", spec)
        if m:
            return spec[:m.start()] + "ensures false,\n" + spec[m.start():]
        return spec.rstrip() + "\n    ensures false,\n"

    def subst(self, tx, b, L, it):
        if "$" not in tx:
            return tx
        def pat(m):
            return b[L["pat"][0]:L["pat"][1]].decode()
        if L["lk"] == "for":
            tx = re.sub(r"\$pat\b", pat, tx)
            names = re.findall(r"[a-z_][a-zA-Z0-9_]*", b[L["pat"][0]:L["pat"][1]].decode())
            for i, n in enumerate(names):
                tx = tx.replace("$p%d" % i, n)
        return tx

    def count_clauses(self, s):
        s = re.sub(r"//.*", "", s)
        n = 0
        for m in re.finditer(r"\b(requires|ensures|invariant|invariant_except_break|decreases)\b(.*?)(?=\b(?:requires|ensures|invariant|invariant_except_break|decreases)\b|$)", s, flags=re.S):
            depth, cnt, tok = 0, 0, ""
            for ch in m.group(2):
                if ch in "([{": depth += 1
                if ch in ")]}": depth -= 1
                if ch == "," and depth == 0:
                    if tok.strip(): cnt += 1
                    tok = ""
                else:
                    tok += ch
            if tok.strip(): cnt += 1
            n += cnt
        return n

    def indent(self, s, it):
        return self.params(s, it).rstrip()

    def params(self, s, it):
        # names of parameters may be referred to by position: $1, $2 (self excluded)
        ps = [p for p in it["params"] if not p["self"]]
        for i, p in enumerate(ps):
            s = re.sub(r"\$%d\b" % (i + 1), p["pat"].replace("mut ", "").strip(), s)
        return s

    def for_each(self, ed, b, it, each):
        calls = [n for n in it["nodes"] if n["k"] == "mcall" and n["method"] == "for_each"]
        if len(calls) != len(each):
            raise Unfit("%s: %d calls of for_each, the contracts are for %d" % (it["path"], len(calls), len(each)))
        for k, n in enumerate(calls):
            cl = [c for c in it["nodes"] if c["k"] == "closure" and n["args"] and c["span"] == n["args"][0]]
            body = b[cl[0]["body"][0]:cl[0]["body"][1]].decode() if cl else ""
            if not cl or len(cl[0]["inputs"]) != 1 or re.search(r"\breturn\b", body):
                raise Unfit("%s: a for_each outside the reach of for-each" % it["path"])
            c = cl[0]
            pat = b[c["inputs"][0][0]:c["inputs"][0][1]].decode().split(":")[0].strip()
            pl = pat_let(pat, "ve%d" % k) or ""
            args, tx, bodytx = each[k]
            tx = self.params(tx, it).replace("$pat", pat)
            ed.ins(n["span"][0], "for %s in %s" % ("ve%d" % k if pl else pat, args[0] + ": " if args else ""), order=-10**8)
            ed.rep(n["recv"][1], c["body"][0] + (1 if c["isblock"] else 0), "\n" + tx.rstrip() + "\n{" + pl + self.params(bodytx, it).replace("$pat", pat))
            ed.rep(c["body"][1] - (1 if c["isblock"] else 0), n["span"][1], "}")
            self.clauses += self.count_clauses(tx)
            self.rw("for-each", it["path"])

    def rewrite_body(self, ed, b, it, opts, closures):
        name = it["path"]
        shimset = {}
        for kv in (opts.get("shim") or "").split(","):
            if kv:
                k, v = (re.split(r"(?<!:):(?!:)", kv, maxsplit=1) + [""])[:2]
                shimset[k] = v or ("v_" + k)
        fcast = {}
        for kv in (opts.get("fcast") or "").split(","):
            if kv:
                k, _, v = kv.partition(":")
                fcast[k] = v
        ncl = 0
        world = [] if opts.get("world") in (None, True) else opts["world"].split(",")
        for n in it["nodes"]:
            k = n["k"]
            if (k == "mcall" and n["method"] in world) or (k == "call" and n["func"] in world):
                if n["args"]:
                    ed.ins(n["args"][-1][1], ", Tracked(&mut *fs)", order=10**9)
                else:
                    ed.ins(n["span"][1] - 1, "Tracked(&mut *fs)", order=10**9)
            if k == "binary" and opts.get("beq") and n["op"] in ("==", "!=") and (b[n["left"][0]:n["left"][1]].startswith(b'b"') or b[n["right"][0]:n["right"][1]].startswith(b'b"')):
                ed.ins(n["span"][0], ("" if n["op"] == "==" else "!") + "v_beq(", order=-10**5)
                ed.rep(n["opspan"][0], n["opspan"][1], ",")
                ed.ins(n["span"][1], ")", order=10**8)
                self.rw("bytes-eq", name)
            if k == "binary" and opts.get("eqcall") and n["op"] in ("==", "!=") and b[n["left"][0]:n["left"][1]].decode() in opts["eqcall"].split(","):
                # `a == b` on references is what PartialEq::eq gives
                if n["op"] == "!=":
                    ed.ins(n["span"][0], "!", order=-10**5)
                ed.rep(n["opspan"][0], n["opspan"][1], ".eq(")
                ed.ins(n["span"][1], ")", order=10**8)
                self.rw("eq-call", name)
            if k == "binary" and opts.get("opteq") and n["op"] in ("==", "!=") and any(re.match(rb"Some\s*\(\s*&", b[n[q][0]:n[q][1]]) for q in ("left", "right")):
                ed.ins(n["span"][0], ("" if n["op"] == "==" else "!") + "v_opt_eq(", order=-10**5)
                ed.rep(n["opspan"][0], n["opspan"][1], ",")
                ed.ins(n["span"][1], ")", order=10**8)
                self.rw("opt-eq", name)
            if k == "macro":
                if n["name"] in LOG:
                    if n["stmt"]:
                        ed.rep(n["span"][0], n["span"][1], "")
                    else:
                        ed.rep(n["span"][0], n["span"][1], "()")
                    self.rw("drop-log", name)
                elif n["name"] in ("todo", "panic", "unimplemented", "unreachable"):
                    ed.rep(n["span"][0], n["span"][1], opts.get("panic", "v_panic") + "()" + (";" if n["stmt"] and b[n["span"][1]-1:n["span"][1]] == b";" else ""))
                    self.rw("panic-to-unreachable", name)
                elif n["name"] == "assert" and opts.get("panic") and "assert" not in (opts.get("macro") or "").split(","):
                    tx = b[n["span"][0]:n["span"][1]].decode()
                    inner = tx[re.search(r"[\[({]", tx).end():].rstrip().rstrip(";").rstrip()[:-1]
                    ed.rep(n["span"][0], n["span"][1], "if !(%s) { %s(); }" % (split_args(inner)[0], opts["panic"]))
                    self.rw("assert-to-refusal", name)
                elif n["name"] in (opts.get("macro") or "").split(","):
                    # name!(...) -> v_name(...); vec![x; n] -> v_vec(x, n)
                    tx = b[n["span"][0]:n["span"][1]].decode()
                    inner = tx[re.search(r"[\[({]", tx).end():].rstrip().rstrip(";").rstrip()[:-1]
                    if n["name"] == "vec":
                        parts = inner.split(";")
                        if len(parts) != 2:
                            continue
                        inner = parts[0] + ", " + parts[1]
                        if opts.get("castf"):
                            inner = re.sub(r"([A-Za-z_][\w.]*) as (f64|f32)\b", r"v_as_\2(\1)", inner)
                    for sk, sv in shimset.items():
                        inner = re.sub(r"\.%s\(" % re.escape(sk), ".%s(" % sv, inner) if "::" not in sk else inner
                    for wname in world:
                        m = re.search(r"(?<![A-Za-z0-9_:])%s\(" % re.escape(wname), inner)
                        if m:
                            depth, q = 1, m.end()
                            while depth and q < len(inner):
                                depth += {"(": 1, ")": -1}.get(inner[q], 0)
                                q += 1
                            inner = inner[:q - 1] + (", " if inner[m.end():q - 1].strip() else "") + "Tracked(&mut *fs)" + inner[q - 1:]
                    if n["name"] in ("writeln", "write"):
                        # the arity goes into the name, the writer is passed by reference, and the ghost world along
                        parts = split_args(inner)
                        parts[0] = parts[0] if parts[0].startswith("&") else "&mut " + parts[0]
                        ed.rep(n["span"][0], n["span"][1], "v_%s%d(%s%s)%s" % (n["name"], len(parts) - 2, ", ".join(parts), ", Tracked(&mut *fs)" if opts.get("world") else "", ";" if n["stmt"] and tx.rstrip().endswith(";") else ""))
                        self.rw("shim", "%s: %s!" % (name, n["name"]))
                        continue
                    ed.rep(n["span"][0], n["span"][1], "v_%s(%s)%s" % (n["name"], inner, ";" if n["stmt"] and tx.rstrip().endswith(";") else ""))
                    self.rw("vec-macro" if n["name"] == "vec" else "shim", "%s: %s!" % (name, n["name"]))
            elif k == "continue" and n["loop"] is not None and n["cdepth"] == 0:
                L = [l for l in it["nodes"] if l["k"] == "loop" and l["id"] == n["loop"]][0]
                last = L["body"]["stmts"][-1]
                if last[0] < n["span"][0] and in_tail(b, it["nodes"], last[0], L["body"]["close"], *n["span"]):
                    ed.rep(n["span"][0], n["span"][1], "()")
                    self.rw("tail-continue", name)
                elif last[0] == n["span"][0]:      # `continue` as the last statement of the loop does nothing
                    ed.rep(last[0], last[1], "")
                    self.rw("tail-continue", name)
                else:
                    for q in it["nodes"]:
                        if q["k"] == "if" and q["then"]["stmts"] and q["then"]["stmts"][-1][0] == n["span"][0] and q["span"][1] == q["then"]["close"] + 1 \
                                and any(st[0] == q["span"][0] for st in L["body"]["stmts"]):
                            st = q["then"]["stmts"][-1]
                            ed.rep(st[0], st[1], "")
                            ed.ins(q["span"][1], " else {", order=10**9)
                            ed.ins(L["body"]["close"], "}", order=-10**8)
                            self.rw("continue-to-else", name)
            elif k == "cast" and n["ty"] in ("f64", "f32") and opts.get("castf"):
                ed.ins(n["span"][0], "v_as_%s(" % n["ty"], order=-10**5 - n["span"][1])
                ed.rep(n["expr"][1], n["span"][1], ")")
                self.rw("cast-f64", name)
            elif k == "cast" and n["ty"] in fcast and b[n["expr"][0]:n["expr"][1]].decode() not in (opts.get("nofcast") or "").split(","):
                ed.ins(n["span"][0], fcast[n["ty"]] + "(", order=-10**5 - n["span"][1])
                ed.rep(n["expr"][1], n["span"][1], ")")
                self.rw("cast-from-float", name)
            elif k == "binary" and opts.get("fops") and n["op"] in ("+=", "-=", "*=", "/="):
                left = b[n["left"][0]:n["left"][1]].decode()
                names = opts["fops"]
                if names is True or left in names.split(","):
                    ed.rep(n["opspan"][0], n["opspan"][1], "= %s %s (" % (left, n["op"][0]))
                    ed.ins(n["right"][1], ")")
                    self.rw("float-opassign", name)
            elif k == "unary" and n["op"] == "-" and opts.get("fneg"):
                ed.rep(n["span"][0], n["expr"][0], "v_neg(")
                ed.ins(n["span"][1], ")")
                self.rw("float-neg", name)
            elif k == "mcall" and n["method"] in shimset:
                ed.rep(n["mspan"][0], n["mspan"][1], shimset[n["method"]])
                self.rw("shim", "%s: .%s()" % (name, n["method"]))
            elif k == "call" and n["func"] in ("f64::from", "f32::from") and opts.get("castf"):
                ed.rep(n["fspan"][0], n["fspan"][1], "v_as_" + n["func"][:3])
                self.rw("cast-f64", name)
            elif k == "call" and n["func"] in shimset:
                ed.rep(n["fspan"][0], n["fspan"][1], shimset[n["func"]])
                self.rw("shim", "%s: %s()" % (name, n["func"]))
            elif k == "closure":
                if ncl in closures:
                    hdr, tx = closures[ncl]
                    # "#closure N |typed params| -> (r: T)" then contract text
                    m = re.match(r"\d+\s*(\|.*\|)\s*(->.*)?$", hdr)
                    if not m:
                        raise ValueError("bad closure header " + hdr)
                    ins = [b[x[0]:x[1]].decode() for x in n["inputs"]]
                    lets = ""
                    for q in range(len(ins)):
                        nm = ins[q].split(":")[0].strip() if not ins[q].strip().startswith("(") else ins[q]
                        pl = pat_let(nm, "vp%d_%d" % (ncl, q))
                        if pl:
                            lets += pl
                            ins[q] = "vp%d_%d" % (ncl, q)
                            self.rw("pat-let", name)
                        else:
                            ins[q] = re.sub(r"^mut\s+", "", nm)
                    params = m.group(1)
                    tx = self.params(tx, it)
                    self.clauses += self.count_clauses(tx)
                    for q, nm in enumerate(ins):
                        params = params.replace("$c%d" % (q + 1), nm)
                        tx = re.sub(r"\$c%d\b" % (q + 1), lambda _m: re.sub(r"^&+", "", nm.split(":")[0].strip()), tx)
                    ed.rep(n["span"][0], n["or2"] + 1, params + " " + (m.group(2) or "") + "\n" + tx.rstrip() + "\n")
                    if not n["isblock"]:
                        ed.ins(n["body"][0], "{ " + lets, order=-10**7)
                        ed.ins(n["body"][1], " }", order=10**7)
                    elif lets:
                        ed.ins(n["body"][0] + 1, lets, order=-10**7)
                    self.rw("closure-contract", name)
                ncl += 1


# ------------------------------------------------------------------ Kani
def kani_file(path, vx, repo="/repo"):
    """A Kani file: `#file F`, `#item kind NAME`, `#fn NAME [opts]` (taken from the source as it is),
    `#prelude` (text) and `#harness NAME [bounded: text]`.
    -> (text, {harness: bound or None}, {"functions": [...], "notes": [...]})"""
    secs = parse_unit(path)
    u = Unit.__new__(Unit)
    u.path, u.repo, u.vx, u.used = path, repo, vx, {}
    files = sorted({os.path.join(repo, a) for d, a, t in secs if d == "file"})
    u.idx = index(vx, files)
    for f in files:
        if f not in u.idx or "error" in u.idx[f]:
            raise Unfit("cannot read or parse %s" % f)
    out, harn, fns, cur = ["#![allow(dead_code, unused)]\n"], {}, [], None
    for d, a, t in secs:
        if d == "file":
            cur = os.path.join(repo, a)
        elif d == "prelude":
            out.append(t)
        elif d == "item":
            out.append(u.item(cur, a, t))
        elif d == "fn":
            w = a.split()
            it = u.find(cur, w[0], ("fn",))
            b = u.src(cur)
            ed = Edits(b, it["start"], it["span"][1])
            for n in it["nodes"]:
                if n["k"] == "macro" and n["name"] in LOG:
                    ed.rep(n["span"][0], n["span"][1], "" if n["stmt"] else "()")
            s = ed.apply()
            s = re.sub(r"^(\s|//[^\n]*\n)*pub(\s*\([a-z]+\))?\s+", "", s)
            if it["owner"] and "free" not in w:
                s = "impl %s {\n%s\n}" % (it["owner"], s)
            out.append(t + s + "\n")
            fns.append(w[0])
        elif d == "harness":
            w = a.split(None, 1)
            m = re.match(r"bounded:\s*(.*)", w[1]) if len(w) > 1 else None
            harn[w[0]] = m.group(1) if m else None
            out.append("#[kani::proof]\n" + t)
        else:
            raise ValueError("unknown directive #%s in %s" % (d, path))
    return "\n".join(out), harn, {"functions": fns, "notes": sorted(u.used)}
