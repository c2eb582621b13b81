"""Generates the Verus crate: /repo's code (mechanically extracted) + the contracts of /verif/spec."""
import difflib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
FILES = [
    ("protocol/src/lib.rs", ""),
    ("protocol/src/fschacha20poly1305.rs", "fschacha20poly1305"),
    ("protocol/src/handshake.rs", "handshake"),
    ("protocol/src/io.rs", "io"),
    ("protocol/src/futures.rs", "futures"),
    ("traffic/src/lib.rs", "traffic"),
    ("traffic/src/io.rs", "traffic::io"),
    ("traffic/src/futures.rs", "traffic::futures"),
]


class Fn:
    def __init__(self, key, kind, params):
        self.key, self.kind, self.params = key, kind, params
        self.tags, self.spec, self.entry = [], [], []
        self.loops, self.loopends, self.loopstarts, self.breaktypes = {}, {}, {}, {}
        self.exit = []
        self.afters, self.befores = {}, {}
        self.flags = set()


class Specs:
    """The contract files: sections introduced by lines starting with '@'."""

    def __init__(self):
        self.fns, self.extra, self.impls, self.omit, self.noinline = {}, {}, {}, [], []
        for f in sorted(os.listdir(os.path.join(SPEC, "contracts"))):
            if f.endswith(".vc"):
                self.load(os.path.join(SPEC, "contracts", f), f)
        self.protect()

    def load(self, path, name):
        cur, sink = None, None
        for no, line in enumerate(open(path), 1):
            line = line.rstrip("\n")
            if line.startswith("# ") or line == "#":
                continue
            m = re.match(r"@(\w+)\s*(.*)$", line)
            if not m:
                if sink is not None:
                    sink.append(line)
                elif line.strip():
                    raise SystemExit(f"{name}:{no}: text outside a section")
                continue
            kw, rest = m.group(1), m.group(2).strip()
            if kw in ("contract", "aux", "external"):
                # the parameter list is the last parenthesised part
                i = rest.rfind(" (")
                key, params = rest[:i].strip(), rest[i + 2:-1]
                cur = Fn(key, kw, params)
                if key in self.fns:
                    raise SystemExit(f"{name}:{no}: {key} twice")
                self.fns[key] = cur
                sink = cur.spec
            elif kw == "tags":
                cur.tags = [t.strip() for t in rest.split(",") if t.strip()]
            elif kw == "entry":
                sink = cur.entry
            elif kw == "loop":
                sink = cur.loops.setdefault(int(rest), [])
            elif kw == "after":
                sink = cur.afters.setdefault(rest, [])
            elif kw == "before":
                sink = cur.befores.setdefault(rest, [])
            elif kw == "exit":
                sink = cur.exit
            elif kw == "loopstart":
                sink = cur.loopstarts.setdefault(int(rest), [])
            elif kw == "loopend":
                sink = cur.loopends.setdefault(int(rest), [])
            elif kw == "breaktype":
                n, t = rest.split("=", 1)
                cur.breaktypes[int(n)] = t.strip()
            elif kw in ("cancellable", "sequential"):
                cur.flags.add(kw)
            elif kw == "extra":
                sink = self.extra.setdefault(rest, [])
            elif kw == "impl":
                sink = self.impls.setdefault(rest, [])
            elif kw == "omit":
                self.omit.append(rest)
                sink = None
            elif kw == "noinline":
                self.noinline.append(rest)
                sink = None
            else:
                raise SystemExit(f"{name}:{no}: unknown section {kw}")

    def protect(self):
        """Ghost names of the hints get names no program local has."""
        for f in self.fns.values():
            ls = [f.entry, f.exit] + [v for d in (f.loops, f.loopstarts, f.loopends, f.afters, f.befores) for v in d.values()]
            names = {m for l in ls for m in re.findall(r"let ghost (?:mut )?(\w+)", "\n".join(l))}
            if not names:
                continue
            rx = re.compile(r"(?<![\w.])(%s)\b(?!\()" % "|".join(sorted(names)))
            for l in ls:
                l[:] = [rx.sub(r"g__\1", x) for x in l]

    def config(self, repo, inline_all=False, only=None, external=()):
        out = [f"file {os.path.join(repo, p)} {m}" for p, m in FILES if only is None or m in only]
        for f in self.fns.values():
            p = f.params
            if "sequential" in f.flags:
                p = "&mut self" + (", " + p if p else "")
            if f.key.startswith("derived-"):
                continue
            kind = "external" if f.key in external else f.kind
            out.append(f"{kind} {f.key} ({p})")
            if f.exit:
                out.append(f"exit {f.key}")
            for c in f.afters:
                out.append(f"after {f.key} {c}")
            for c in f.befores:
                out.append(f"before {f.key} {c}")
            for n, t in f.breaktypes.items():
                out.append(f"breaktype {f.key}#{n} = {t}")
            if "cancellable" in f.flags:
                out.append(f"cancellable {f.key}")
        out += [f"external {k} ()" for k in external if k not in self.fns]
        out += [f"omit {k}" for k in self.omit]
        out += [f"noinline {k}" for k in self.noinline]
        if inline_all:
            out.append("inline-all")
        return "\n".join(out) + "\n"


def angle_end(s, i):
    """Index after the '>' that closes the '<' at s[i]."""
    d = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError("unbalanced <>")


def substitute(text, specs, inline_all=False, nohints=()):
    # named results
    while True:
        i = text.find("__VRET")
        if i < 0:
            break
        j = text.index("<", i)
        k = angle_end(text, j)
        text = text[:i] + "(r: " + text[j + 1:k - 1].strip() + ")" + text[k:]

    def block(lines):
        return "\n" + "\n".join(lines) + "\n" if lines else ""

    def fnof(key):
        f = specs.fns.get(key)
        if f is not None and inline_all and f.kind == "aux":
            return None
        return f

    def contract(m):
        f = fnof(m.group(1))
        if f is None:
            return "\n/*@fn " + m.group(1) + "*/{"
        return "\n/*@fn " + f.key + "*/" + block(f.spec) + "{" + (block(f.entry) if f.key not in nohints else "")

    text = re.sub(r'\{\s*__vcontract!\(\s*"([^"]*)"\s*\);', contract, text)

    def decl(m):
        f = fnof(m.group(1))
        return (block(f.spec) if f else "") + ";"

    text = re.sub(r'\{\s*__vdecl!\(\s*"([^"]*)"\s*\);\s*\}', decl, text)

    def loop(m):
        key, n = m.group(1).rsplit("#", 1)
        f = fnof(key)
        if not f or key in nohints:
            return "{"
        return block(f.loops.get(int(n), [])) + "{" + block(f.loopstarts.get(int(n), []))

    text = re.sub(r'\{\s*__vloop!\(\s*"([^"]*)"\s*\);', loop, text)

    def loopend(m):
        key, n = m.group(1).rsplit("#", 1)
        f = fnof(key)
        return block(f.loopends.get(int(n), [])) if f and key not in nohints else ""

    text = re.sub(r'__vloopend!\(\s*"([^"]*)"\s*\);', loopend, text)
    def fexit(m):
        f = fnof(m.group(1))
        return "proof {" + block(f.exit) + "}" if f and f.exit and f.key not in nohints else ""

    text = re.sub(r'__vexit!\(\s*"([^"]*)"\s*\);', fexit, text)
    def after(m):
        key, callee = m.group(1).rsplit("#", 1)
        f = fnof(key)
        return block(f.afters.get(callee, [])).replace("$", m.group(2)) if f and key not in nohints else ""

    text = re.sub(r'__vafter!\(\s*"([^"]*)",\s*(\w+)\s*\);', after, text)
    def before(m):
        key, callee = m.group(1).rsplit("#", 1)
        f = fnof(key)
        return "proof {" + block(f.befores.get(callee, [])) + "}" if f and key not in nohints else ""

    text = re.sub(r'__vbefore!\(\s*"([^"]*)"\s*\);', before, text)
    text = re.sub(r'__vspawn!\(\(', 'let ghost __VSP = (', text).replace("__VSPAWNED", "Ghost(__VSP)")
    text = re.sub(r'(let ghost __VSP = \([^;]*\))\);', r'\1;', text)
    text = re.sub(r'__viter\(', 'it: (', text)
    text = re.sub(r'__vimpl!\(\s*"([^"]*)"\s*\);', lambda m: block(specs.impls.get(m.group(1), [])), text)
    text = re.sub(r'__vexternal!\(\);', 'unimplemented!()', text)

    def modend(m):
        k = m.group(1)
        return block(specs.extra.get("" if k == "root" else k, []))

    text = re.sub(r'__vmodend!\(\s*"([^"]*)"\s*\);', modend, text)
    return text


def name_map(was, now):
    """What the names bound in `was` are called in `now`; both are in scope order."""
    last_was = {x: i for i, x in enumerate(was)}
    last_now = {x: i for i, x in enumerate(now)}
    to = {}
    for op, a, b, c, d in difflib.SequenceMatcher(None, was, now, autojunk=False).get_opcodes():
        if op == "equal" or (op == "replace" and b - a == d - c):
            to.update({a + i: c + i for i in range(b - a)})
    m = {}
    for x, i in last_was.items():
        if x[0] in "#/":
            continue
        j = to.get(i)
        if j is not None and last_now.get(now[j]) == j and now[j][0] not in "#/":
            m[x] = now[j]
    # what is left is matched in order
    gone = [x for x in dict.fromkeys(was) if x[0] not in "#/" and x not in m and x not in now]
    new = [x for x in dict.fromkeys(now) if x[0] not in "#/" and x not in m.values() and x not in was]
    if gone and len(gone) == len(new):
        m.update(zip(gone, new))
    return {x: y for x, y in m.items() if x != y}


def visible(names):
    """Without what was bound in loops that are over."""
    out = []
    for x in names:
        if x[0] == "/" and "#" + x[1:] in out:
            out = out[:out.index("#" + x[1:])]
        else:
            out.append(x)
    return out


def rename_hints(specs, report):
    """Locals renamed since the hints were written are renamed in the hints."""
    try:
        base = json.load(open(os.path.join(SPEC, "locals.json")))
    except FileNotFoundError:
        return
    report["renamed"] = {}
    for k, f in specs.fns.items():
        was, now = base.get(k), report["locals"].get(k)
        if not was or now is None or was == now:
            continue

        def sub(ls, mark=None):
            a, b = was, now
            if mark:
                if mark not in was or mark not in now:
                    return ls
                a, b = visible(was[:was.index(mark)]), visible(now[:now.index(mark)])
            m = name_map(a, b)
            if not m:
                return ls
            report["renamed"].setdefault(k, {}).update(m)
            rx = re.compile(r"(?<![\w.])(%s)\b" % "|".join(map(re.escape, m)))
            return [rx.sub(lambda x: m[x.group(1)], l) for l in ls]

        f.entry, f.exit = sub(f.entry), sub(f.exit)
        for d, c in ((f.loops, "#"), (f.loopstarts, "#"), (f.loopends, "/"), (f.afters, None), (f.befores, None)):
            for n in d:
                d[n] = sub(d[n], c and "%s%s" % (c, n))


def changed(report):
    """Functions whose tokens are not those the contracts were written for."""
    try:
        base = json.load(open(os.path.join(SPEC, "shapes.json")))
    except FileNotFoundError:
        return set()
    return {k for k, v in report["shapes"].items() if base.get(k) != v}


def stale(specs, report, key):
    """A loop whose hints are about variables it no longer mentions."""
    try:
        base = json.load(open(os.path.join(SPEC, "uses.json")))
    except FileNotFoundError:
        return None
    f, was, now = specs.fns.get(key), base.get(key), report["uses"].get(key)
    if not f or was is None or now is None:
        return None
    ren = report.get("renamed", {}).get(key, {})
    for n in range(min(len(was), len(now))):
        text = " ".join(f.loops.get(n, []) + f.loopstarts.get(n, []) + f.loopends.get(n, []))
        hinted = set(re.findall(r"(?<![\w.])[a-z_]\w*", text))
        for v in was[n].split():
            v = ren.get(v, v)
            if v in hinted and v not in now[n].split():
                return v
    return None


HEAD = """#![verifier::auto_ext_equal(assert, assert_by, ensures, invariant)]
#![allow(unused, non_snake_case, private_interfaces)]
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
pub mod vspec { use vstd::prelude::*;
@@MATH@@
}
pub mod vax { use vstd::prelude::*; use vstd::std_specs::cmp::*; use vstd::std_specs::convert::*;
@@AX@@
}
pub mod vpre { pub use vstd::prelude::*; pub use vstd::std_specs::convert::*; pub use crate::vspec::*;
@@PRE@@
}
@@DEPS@@
use crate::vpre::*;
use crate::vspec::*;
verus! {
broadcast use {crate::vax::group_eq, crate::vspec::group_ext};
"""


def read(name):
    return open(os.path.join(SPEC, name)).read()


def generate(repo, extractor, outdir, inline_all=False, only=None, external=(), nohints=(), vacuity=False):
    """Returns (path of the crate, extraction report)."""
    specs = Specs()
    if only is not None:
        # contracts of modules which are not extracted are not lost, only absent
        def mod(k):
            names = [m for _, m in FILES if m and re.match(re.escape(m) + r"::", k)]
            return max(names, key=len) if names else ""
        specs.fns = {k: f for k, f in specs.fns.items() if k.startswith("derived-") or mod(k) in only}
    if vacuity:
        for f in specs.fns.values():
            if f.kind != "external" and any("ensures" in l for l in f.spec):
                i = next(i for i, l in enumerate(f.spec) if l.startswith("ensures"))
                f.spec.insert(i + 1, "    false, // [VACUITY]")
    os.makedirs(outdir, exist_ok=True)
    cfg = os.path.join(outdir, "extract.cfg")
    raw = os.path.join(outdir, "extracted.rs")
    rep = os.path.join(outdir, "report.json")
    with open(cfg, "w") as f:
        f.write(specs.config(repo, inline_all, only, external))
    p = subprocess.run([extractor, cfg, raw, rep], capture_output=True, text=True, timeout=120)
    if p.returncode != 0:
        raise RuntimeError("extraction failed: " + p.stderr[-2000:])
    p = subprocess.run(["rustfmt", "--edition", "2021", raw], capture_output=True, text=True, timeout=60)
    if p.returncode != 0:
        raise RuntimeError("rustfmt failed: " + p.stderr[-2000:])
    report = json.load(open(rep))
    rename_hints(specs, report)
    body = substitute(open(raw).read(), specs, inline_all, set(nohints) | set(external))
    # the equality axioms have to be used in every module
    def bcast(m):
        ext = {"fschacha20poly1305": "group_ext_cipher", "io": "group_ext_io", "futures": "group_ext_io"}.get(m.group(1), "group_ext")
        return m.group(0) + " broadcast use {crate::vax::group_eq, crate::vspec::%s};" % ext

    body = re.sub(r"pub mod (\w+) \{", bcast, body)
    head = HEAD.replace("@@MATH@@", read("math.rs")).replace("@@PRE@@", read("prelude.rs")).replace("@@AX@@", read("axioms.rs"))
    head = head.replace("@@DEPS@@", read("deps.rs").replace("@@IODEPS@@", read("iodeps.rs") + read("shdeps.rs")))
    path = os.path.join(outdir, "verified.rs")
    with open(path, "w") as f:
        f.write(head + body + "\n} // verus!\n")
    return path, report, specs
