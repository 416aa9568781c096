#!/usr/bin/env python3
"""Mutation campaign: all mutants of /repo's library in one binary, switched by the variable XMUT.

  mutants.py gen DIR     copies /repo and /verif's machinery to DIR and puts the mutants in
  mutants.py tests DIR   runs the repository's tests on every mutant
  mutants.py checks DIR [ID...]  runs the checks on the mutants that survive them

Used while developing the checks; no check reads it or its output."""
import json, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

TOK = re.compile(r"""//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|'\w+|\w+|=>|==|!=|<=|>=|&&|\|\||->|::|\+=|-=|\.\.|\s+|.""", re.S)


def tokens(src):
    return [(m.group(0), m.start(), m.end()) for m in TOK.finditer(src) if not (m.group(0).isspace() or m.group(0).startswith("//") or m.group(0).startswith("/*"))]


class P:
    """Finds the regions of a file that can be replaced: (kind, start, end)."""

    def __init__(self, src):
        self.s, self.t, self.i, self.out = src, tokens(src), 0, []
        self.fn = "?"

    def peek(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else ""

    def skip_group(self):
        """self.i at an opening bracket; skip past its end."""
        d = 0
        while True:
            x = self.peek()
            if x in "([{" and x:
                d += 1
            elif x in ")]}" and x:
                d -= 1
            self.i += 1
            if d == 0:
                return

    def until(self, stops):
        """Index of the next token among stops at depth 0 (brackets skipped, except `{` if it is a stop)."""
        while self.i < len(self.t):
            x = self.peek()
            if x in stops:
                return
            if x and x in "([{":
                self.skip_group()
            else:
                self.i += 1

    def region(self, kind, a, b):
        if b > a:
            self.out.append((kind, self.t[a][1], self.t[b - 1][2], self.fn))

    def file(self):
        while self.i < len(self.t):
            if self.peek() == "fn":
                self.fn = self.peek(1)
                self.until(["{", ";"])
                if self.peek() == "{":
                    self.block()
            else:
                self.i += 1
        return self.out

    def block(self):
        assert self.peek() == "{"
        self.i += 1
        while self.peek() != "}":
            self.statement()
        self.i += 1

    def statement(self):
        x = self.peek()
        if x == ";":
            self.i += 1
            return
        if x.startswith("'") and self.peek(1) == ":":
            self.i += 2
            x = self.peek()
        if x == "#":
            self.i += 1
            self.skip_group()
            return
        if x in ("if", "while", "for", "match", "loop", "unsafe", "{"):
            self.control()
            return
        a = self.i
        if x == "fn":
            self.until(["{"])
            self.block()
            return
        if x == "let":
            self.until(["=", ";", "}"])
            if self.peek() == "=":
                self.i += 1
                b = self.i
                # let x = match/unsafe/if: mutate the whole
                self.expr_end()
                self.region("let", b, self.i)
                # also look inside of match and blocks
                e = self.i
                self.inside(b, e)
                self.i = e
            self.i += 1
            return
        self.expr_end()
        if self.peek() == ";":
            self.region("stmt", a, self.i)
            e = self.i
            self.inside(a, e)
            self.i = e + 1
        else:
            self.region("tail", a, self.i)
            e = self.i
            self.inside(a, e)
            self.i = e

    def inside(self, a, b):
        """Closures with blocks and `unsafe {` inside of an expression: their statements, too."""
        self.i = a
        while self.i < b:
            if self.peek() in ("match",):
                self.control()
            elif self.peek() == "{" and self.t[self.i - 1][0] in ("|", "unsafe", "else") and self.i > 0:
                n = len(self.out)
                self.block()
            else:
                self.i += 1
        # nested regions would overlap: drop the inner ones
        sa, sb = self.t[a][1], self.t[b - 1][2]

    def expr_end(self):
        while self.i < len(self.t):
            x = self.peek()
            if x in (";", "}"):
                return
            if x and x in "([{":
                self.skip_group()
            else:
                self.i += 1

    def control(self):
        x = self.peek()
        if x == "{":
            self.block()
            return
        self.i += 1
        if x == "unsafe" or x == "loop":
            self.block()
        elif x in ("if", "while"):
            kind = "cond"
            if self.peek() == "let":
                self.until(["="])
                self.i += 1
                kind = "value"
            a = self.i
            self.until(["{"])
            self.region(kind, a, self.i)
            self.block()
            if self.peek() == "else":
                self.i += 1
                self.control() if self.peek() == "if" else self.block()
        elif x == "for":
            self.until(["in"])
            self.i += 1
            a = self.i
            self.until(["{"])
            self.region("value", a, self.i)
            self.block()
        elif x == "match":
            a = self.i
            self.until(["{"])
            self.region("value", a, self.i)
            self.i += 1
            while self.peek() != "}":
                self.until(["=>"])
                self.i += 1
                if self.peek() == "{":
                    self.block()
                else:
                    a = self.i
                    self.until([",", "}"])
                    self.region("tail", a, self.i)
                if self.peek() == ",":
                    self.i += 1
            self.i += 1


PAIRS = [("comp_a", "comp_b"), ("type_a", "type_b"), ("index_a", "index_b"), ("iter_a", "iter_b"), ("iter_b", "iter_c"), ("iter_c", "iter_d"), ("iter_d", "iter_e"), ("len_a", "len_b"),
         ("has_a", "has_b"), ("storage_a", "storage_b"), ("sparse_set_a", "sparse_set_b"), ("entity_a", "entity_b"), ("start_id", "end_id"), ("start_index", "end_index"), ("a", "b"), ("type_id_a", "type_id_b"),
         ("ptr_a", "ptr_b"), ("borrow_a", "borrow_b"), ("start", "end"), ("min", "max"), ("last", "first"), ("entities", "indices"), ("is_some", "is_none"), ("write", "read"), ("raw_storage_write", "raw_storage_read"), ("lower", "upper"),
         ("swap_remove", "remove"), ("exist", "has"), ("last_id", "new_id"), ("A", "B"), ("type_a", "type_id"), ("the_last_one_id", "entity_id"), ("entity_id_", "index")]
ONE = {"<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "true": ["false"], "false": ["true"],
       "+=": ["-="], "-=": ["+="], "0": ["1"], "1": ["0", "2"], "+": ["-"], "-": ["+"], "..": ["..="], "!": [""], "is_empty": [], "Some": []}


def variants(kind, e):
    toks = [(m.group(0), m.start(), m.end()) for m in TOK.finditer(e)]
    # positions in comments and strings are left alone (they are single tokens)
    out = []

    def rep(a, b, x, what):
        out.append((e[:a] + x + e[b:], what))

    for n, (x, a, b) in enumerate(toks):
        for p, q in PAIRS:
            if x == p:
                rep(a, b, q, f"{p}->{q}")
            elif x == q:
                rep(a, b, p, f"{q}->{p}")
        if x in ONE:
            # generics and references: only spaced operators
            if x in "<>" and not (n > 0 and toks[n - 1][0].isspace()):
                continue
            if x == "!" and n + 1 < len(toks) and toks[n + 1][0] in "([{" and n > 0 and re.match(r"\w+", toks[n - 1][0]):
                continue  # a macro
            for y in ONE[x]:
                rep(a, b, y, f"{x}->{y}")
        if x in ("index", "length") and n > 1 and toks[n - 1][0] == "." and toks[n - 2][0] == "self" and kind != "stmt":
            rep(a, b, x + " + 1", f"{x}+1")
            rep(a, b, x + ".saturating_sub(1)", f"{x}-1")
    if kind == "cond":
        out += [("true", "if true"), ("false", "if false"), (f"!({e})", "negate")]
    if kind == "stmt":
        out.append(("", "delete"))
    if kind in ("tail", "let"):
        if e.startswith("Some(") or ".get(" in e:
            out.append(("None", "None"))
        if e.startswith("("):
            pass
        m = re.fullmatch(r"vec!\[.+\]", e)
        if m:
            out.append(("vec![]", "empty"))
    seen, res = set(), []
    for v, w in out:
        if v != e and v not in seen:
            seen.add(v)
            res.append((v, w))
    return res


HELPER = '''
#[doc(hidden)]
pub(crate) fn mm(k : u32) -> bool {
    static M : std::sync::OnceLock<u32> = std::sync::OnceLock::new();
    *M.get_or_init(||std::env::var("XMUT").ok().and_then(|s|s.parse().ok()).unwrap_or(0)) == k
}
'''


def build_source(src, path, ids, dead, catalogue):
    """The source with all living mutants; line numbers of errors map back through markers."""
    cut = src.find("#[cfg(test)]")
    body, rest = (src, "") if cut < 0 else (src[:cut], src[cut:])
    regs = P(body).file()
    # innermost regions first: drop a region that contains another one when it is a plain wrapper
    regs.sort(key=lambda r: (r[1], -r[2]))
    # no overlaps: keep the outer one for let/stmt/tail without blocks, the inner ones otherwise
    keep = []
    for r in regs:
        inner = [q for q in regs if q is not r and r[1] <= q[1] and q[2] <= r[2]]
        if not inner:
            keep.append(r)
    out, pos = [], 0
    for kind, a, b, fn in keep:
        e = body[a:b]
        alts = []
        for v, what in variants(kind, e):
            key = (path, a, what, v)
            k = ids.setdefault(key, len(ids) + 1)
            catalogue[k] = {"file": path, "fn": fn, "line": body.count("\n", 0, a) + 1, "kind": kind, "what": what, "old": e, "new": v}
            if k not in dead:
                alts.append((k, v))
        out.append(body[pos:a])
        if alts:
            semi = kind == "stmt"
            # one line per alternative
            s = ""
            for k, v in alts:
                v1 = re.sub(r"//[^\n]*", "", v).replace("\n", " ")
                s += f"\nif crate::mm({k}) {{ {v1}{';' if semi and v1 else ''} }} else /*M{k}*/ "
            e1 = e + (";" if semi else "")
            s += "\n{ " + e1 + "\n}"
            out.append(s if semi else f"({s})" if kind in ("cond", "value") else s)
        else:
            out.append(e)
        pos = b
    out.append(body[pos:])
    return "".join(out) + rest


def files(repo):
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                yield os.path.relpath(os.path.join(d, f), repo)


def gen(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/verif")
    repo = d + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["rm", "-rf", os.path.abspath(repo) + "/target"], check=True)
    for x in ("harness", "shim", "known-findings.txt", "check.sh"):
        subprocess.run(["cp", "-a", "/verif/" + x, d + "/verif/"], check=True)
    for f in ("harness/Cargo.toml", "check.sh"):
        p = f"{d}/verif/{f}"
        open(p + ".n", "w").write(open(p).read().replace("/repo", repo))
        os.replace(p + ".n", p)
    os.chmod(f"{d}/verif/check.sh", 0o755)
    ids, dead, cat = {}, set(), {}
    orig = {f: open(os.path.join("/repo", f)).read() for f in files("/repo")}
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/chk")
    for rnd in range(60):
        for f, s in orig.items():
            t = build_source(s, f, ids, dead, cat)
            if f == "src/lib.rs":
                t += HELPER
            open(os.path.join(repo, f), "w").write(t)
        r = subprocess.run(["cargo", "check", "--offline", "--lib", "--message-format=json"], cwd=repo, env=env, capture_output=True, text=True)
        new = set()
        other = []
        for l in r.stdout.splitlines():
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            hit = set()
            for sp in m["message"]["spans"]:
                if not sp["file_name"].startswith("src"):
                    continue
                lines = open(os.path.join(repo, sp["file_name"])).read().splitlines()
                for ln in range(sp["line_start"], min(sp["line_end"], sp["line_start"] + 3) + 1):
                    mm = re.search(r"crate::mm\((\d+)\)", lines[ln - 1])
                    if mm:
                        hit.add(int(mm.group(1)))
            if hit:
                new |= hit
            else:
                other.append(m["message"]["rendered"])
        print(f"round {rnd}: {len(ids) - len(dead)} alive, {len(new)} do not compile, {len(other)} other errors", flush=True)
        if not new:
            if other:
                print("\n".join(other[:5]))
            break
        dead |= new
    json.dump({k: v for k, v in cat.items() if k not in dead}, open(d + "/mutants.json", "w"), indent=1)
    print(len(ids) - len(dead), "mutants", r.returncode)


def tests(d):
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/tst")
    r = subprocess.run(["cargo", "test", "--offline", "--lib", "--no-run", "--message-format=json"], cwd=d + "/repo", env=env, capture_output=True, text=True)
    exe = [json.loads(l)["executable"] for l in r.stdout.splitlines() if '"executable":"' in l][0]
    muts = json.load(open(d + "/mutants.json"))

    def one(k):
        try:
            r = subprocess.run([exe, "--test-threads", "2"], env=dict(os.environ, XMUT=k), capture_output=True, timeout=20)
            return k, r.returncode == 0
        except subprocess.TimeoutExpired:
            return k, False

    assert one("0")[1]
    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(one, muts))
    alive = [k for k in muts if res[k]]
    json.dump(alive, open(d + "/alive.json", "w"))
    print(f"{len(alive)} of {len(muts)} survive the tests")


def checks(d, ids):
    muts = json.load(open(d + "/mutants.json"))
    alive = json.load(open(d + "/alive.json"))
    resf = d + "/results.json"
    res = json.load(open(resf)) if os.path.exists(resf) else {}
    subprocess.run([d + "/verif/check.sh", "build"], check=True)
    os.makedirs(d + "/verif/evidence", exist_ok=True)
    mc = d + "/verif/target/release/mc"
    step = int(os.environ.get("MUT_STEP", "1"))
    for n, k in enumerate(alive):
        if n % step and k not in res:
            continue
        mine = res.setdefault(k, {})
        if any(v == 1 for v in mine.values()):
            continue
        f = muts[k]["file"]
        own = [("full_owning", "C10"), ("partial_owning", "C11"), ("non_owning", "C12"), ("sparse_set", "C03"), ("entity", "C02"), ("component", "C18"), ("without", "C08")]
        first = [c for w, c in own if w in f and c in ids]
        mids = ids
        if f in ("src/world.rs", "src/entity.rs"):
            mids = ids + ["C01", "C03", "C15", "C16", "C25", "C17"]
        if muts[k]["fn"] in ("swap_by_entity", "clear", "is_empty", "in_order"):
            continue
        for c in first + [c for c in mids if c not in first]:
            if f.startswith("src/group/") and any(c == o and w in ("full_owning", "partial_owning", "non_owning") and w not in f for w, o in own):
                continue
            if c in mine:
                continue
            env = dict(os.environ, XMUT=k, MC_ROOT=d + "/verif", VERIF_TIER="quick", VERIF_SEED="1")
            try:
                r = subprocess.run([mc, "check", c], env=env, capture_output=True, text=True, timeout=900)
                mine[c] = r.returncode
            except subprocess.TimeoutExpired:
                mine[c] = 99
            if mine[c] == 1:
                break
        json.dump(res, open(resf, "w"))
        if not any(v == 1 for v in mine.values()):
            m = muts[k]
            print(f"[{n}/{len(alive)}] {k} {m['file']}:{m['line']} {m['fn']} {m['what']}: {m['old'][:100]!r}", {c: v for c, v in mine.items() if v}, flush=True)


if __name__ == "__main__":
    cmd, d = sys.argv[1], sys.argv[2]
    {"gen": lambda: gen(d), "tests": lambda: tests(d), "checks": lambda: checks(d, sys.argv[3:])}[cmd]()
