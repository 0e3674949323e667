#!/usr/bin/env python3
"""Lock-order contracts, proved function by function over the MIR rustc makes of the real crates.

  python3 locks.py OUT.json A.mir B.mir ...

Contract of a function: the locks it `needs` (may acquire, itself or through a callee), those its
guard parameters hold on entry, and those the guards it returns hold. A caller is checked against
the contract of its callee. Obligation, for every acquisition (direct, or through a call): every
lock held at that point comes before the acquired one in one order of all locks, which z3 has to
find. A cycle is an unsatisfiable core: the obligations of the core are reported.
"""
import json, re, subprocess, sys, time
from collections import defaultdict

# ---- types -------------------------------------------------------------------------------------
def split_top(s, sep=","):
    out, d, cur, i = [], 0, "", 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        if c == '"':
            j = i + 1
            while j < len(s) and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def norm(t):
    t = re.sub(r"'[a-z_]\w*\s*,?\s*", "", t)
    t = re.sub(r"\b[a-z_]\w*::", "", t)
    return re.sub(r"\s+", "", t)


def close(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "<":
            d += 1
        elif s[j] == ">" and s[j - 1] not in "-=":
            d -= 1
            if d == 0:
                return j
    return len(s) - 1


def last_name(c):
    """the function in the path of a call"""
    if c.endswith(">"):
        d = 0
        for i in range(len(c) - 1, -1, -1):
            if c[i] == ">" and c[i - 1] not in "-=":
                d += 1
            elif c[i] == "<":
                d -= 1
                if d == 0:
                    c = c[:i]
                    break
        c = c.removesuffix("::")
    return c.split("::")[-1]


GUARD = re.compile(r"\b(RwLockReadGuard|RwLockWriteGuard|MutexGuard|OwnedRwLockReadGuard|OwnedMutexGuard|MappedRwLockReadGuard|MappedMutexGuard|MappedRwLockWriteGuard)<|dashmap::(?:mapref::(?:one|multiple|entry|entry_ref)|iter|iter_set|setref::\w+|try_result)::(\w+)<")
LOCK = re.compile(r"\b(DashMap|DashSet|RwLock|Mutex|ReentrantMutex|OnceCell|OnceLock|SegQueue)<")


def guard_classes(t):
    """classes of the locks a value of this type can hold (references hold nothing)"""
    out = set()
    for m in GUARD.finditer(t):
        # behind a reference?
        pre = t[:m.start()]
        pre = re.sub(r"[\w:]*$", "", pre)
        if re.search(r"&(?:'\w+ )?(?:mut )?$", pre):
            continue
        a = m.end() - 1
        args = [x for x in split_top(t[a + 1:close(t, a)]) if not x.startswith("'")]
        if m.group(1):
            k = "Mutex" if "Mutex" in m.group(1) else "RwLock"
            out.add(f"{k}<{norm(args[0])}>")
        else:
            if "Mapped" in m.group(2):
                raise Unsupported("mapped guard " + m.group(2))
            out.add(f"DashMap<{norm(args[0])},{norm(args[1])}>" if len(args) > 1 else f"DashSet<{norm(args[0])}>")
    return frozenset(out)


def is_ref(t):
    return t.startswith("&") or t.startswith("*")


# contracts of users' implementations of a trait: these do not call the storage
LEAF = {"subscribe_accounts", "subscribe_program_accounts"}


# waiting for other threads without a time limit: an obligation nothing discharges
ENDLESS = "(a wait without a time limit)"


class Unsupported(Exception):
    pass


# ---- MIR ---------------------------------------------------------------------------------------
class Fn:
    def __init__(self, name, args, ret):
        self.name, self.args, self.ret = name, args, ret
        self.types = dict(args)
        self.types["_0"] = ret
        self.blocks = {}
        self.order = []
        self.debug = {}


def parse(path):
    fns = []
    cur = blk = None
    cleanup = False
    for line in open(path, errors="replace"):
        line = line.rstrip("\n")
        if cur is None:
            if line.startswith("fn ") and line.endswith("{"):
                m = re.match(r"fn (.*?)\((.*)\) -> (.*) \{$", line)
                # the parameter list starts at the first `(_1:` or `()`
                i = line.find("(_1: ")
                if i < 0:
                    i = line.find("() -> ")
                j = line.rfind(") -> ") if False else None
                rest = line[i:]
                d = 0
                for j, c in enumerate(rest):
                    if c in "(<[{":
                        d += 1
                    elif c in ")]}" or (c == ">" and rest[j - 1] not in "-="):
                        d -= 1
                        if d == 0:
                            break
                params, ret = rest[1:j], rest[j + 1:]
                ret = ret[4:-2].strip() if ret.startswith(" -> ") else "()"
                args = []
                for p in split_top(params):
                    n, t = p.split(": ", 1)
                    args.append((n.strip(), t.strip()))
                cur = Fn(line[3:i], args, ret)
            continue
        if line == "}":
            fns.append(cur)
            cur = blk = None
            continue
        s = line.strip()
        m = re.match(r"let (?:mut )?(_\d+): (.*);$", s)
        if m:
            cur.types[m.group(1)] = m.group(2)
            continue
        m = re.match(r"debug (\w+) => (_\d+);", s)
        if m:
            cur.debug[m.group(2)] = m.group(1)
            continue
        m = re.match(r"(bb\d+)( \(cleanup\))?: \{$", s)
        if m:
            blk = []
            if not m.group(2):
                cur.blocks[m.group(1)] = blk
            continue
        if s == "}" and blk is not None:
            blk = None
            continue
        if blk is not None and s:
            blk.append(s)
    return fns


PLACE = re.compile(r"_\d+")


def base(place):
    m = PLACE.search(place)
    return m.group(0) if m else None


def call_of(s):
    """`D = F(args) -> [return: bbN, ..]` or `D = F(args) -> unwind ..` (never returns)"""
    m = re.match(r"^(.*?) = (.*) -> (\[return: (bb\d+)[^\]]*\]|unwind .*|bb\d+);$", s)
    if not m:
        return None
    f = m.group(2)
    if not f.endswith(")"):
        return None
    d, instr = 0, False
    for i in range(len(f) - 1, -1, -1):
        c = f[i]
        if c == '"' and (i == 0 or f[i - 1] != "\\"):
            instr = not instr
        if instr:
            continue
        if c == ")":
            d += 1
        elif c == "(":
            d -= 1
            if d == 0:
                break
    args = split_top(f[i + 1:-1])
    return m.group(1), f[:i], args, m.group(4)


class World:
    def __init__(self, files):
        self.fns = []
        for p in files:
            self.fns += parse(p)
        self.by_name = defaultdict(list)
        self.closures = {}
        self.src = {}
        self.drops = {}
        for f in self.fns:
            last = f.name.split("::")[-1]
            if last.startswith("{closure#"):
                t = f.args[0][1] if f.args else ""
                m = re.search(r"\{closure@[^}]*\}", t)
                if m:
                    self.closures[m.group(0)] = f
            f.last = last
            f.impl = self.impl_line(f.name)
            self.by_name[last].append(f)
        for f in self.by_name.get("drop", []):
            m = re.search(r"\bDrop for (\w+)", f.impl or "")
            if m:
                self.drops[m.group(1)] = f
        self.traits = defaultdict(list)
        for f in self.fns:
            m = re.match(r"impl(?:<.*?>)? ([\w:]+)(?:<.*>)? for ([\w:]+)", f.impl or "")
            if m:
                self.traits[(m.group(1).split("::")[-1], f.last)].append(f)

    def impl_line(self, name):
        m = re.search(r"<impl at ([^:]+):(\d+):(\d+)", name)
        if not m:
            return None
        p, l, c = m.group(1), int(m.group(2)), int(m.group(3))
        if p not in self.src:
            try:
                self.src[p] = open(p).read().split("\n")
            except OSError:
                self.src[p] = []
        ls = self.src[p]
        t = " ".join(ls[l - 1:l + 4]) if l <= len(ls) else ""
        t = t[c - 1:] if l <= len(ls) else ""
        if t.startswith("impl"):
            return re.sub(r"\s+", " ", t.split("{")[0]).strip()
        # #[derive(X)] on a type
        rest = " ".join(ls[l - 1:l + 8])
        m2 = re.search(r"\b(?:struct|enum)\s+(\w+)", rest)
        m3 = re.match(r"\w+", t)
        return f"impl {m3.group(0) if m3 else '?'} for {m2.group(1) if m2 else '?'}"

    def pretty(self, f):
        n = f.name
        m = re.search(r"<impl at [^>]*>::(.*)$", n)
        if m:
            t = re.sub(r"^impl(<.*?>)? ", "", f.impl or "?")
            return f"{t}::{m.group(1)}"
        return n

    def where(self, f, root):
        """file (below the workspace) and line of a function"""
        m = re.search(r"<impl at ([^:]+):(\d+):", f.name) or re.search(r"\{closure@([^:]+):(\d+):", " ".join(t for _, t in f.args[:1]))
        path, l = (m.group(1), int(m.group(2))) if m else (None, 1)
        c = re.search(r"\{closure@([^:]+):(\d+):", " ".join(t for _, t in f.args[:1])) if f.last.startswith("{closure#") else None
        if c:
            path, l = c.group(1), int(c.group(2))
        elif path:
            for i in range(l - 1, len(self.src.get(path, []))):
                if re.search(r"\bfn " + re.escape(f.last) + r"\b", self.src[path][i]):
                    l = i + 1
                    break
        else:
            for p, ls in self.src.items():
                for i, x in enumerate(ls):
                    if re.search(r"\bfn " + re.escape(f.last) + r"\b", x):
                        path, l = p, i + 1
        return [path[len(root):] if path and path.startswith(root) else path or "?", l]

    def resolve(self, callee, nargs, caller=None):
        """local functions a call may run; None: an external function"""
        m = re.match(r"<dyn ([\w:]+).*? as ([\w:]+)(?:<.*>)?>::(\w+)", callee) or re.match(r"<\(?dyn ([\w:]+)[^>]*\)? as ([\w:]+)>::(\w+)", callee)
        if m:
            fs = self.traits.get((m.group(2).split("::")[-1], m.group(3)), [])
            return ("dyn", m.group(2).split("::")[-1], fs)
        m = re.match(r"<(.*) as ([\w:]+)(?:<.*>)?>::(\w+)", callee)
        if m:
            ty = re.sub(r"<.*", "", m.group(1)).split("::")[-1].strip("& ")
            tr, fn = m.group(2).split("::")[-1], m.group(3)
            fs = [f for f in self.by_name.get(fn, []) if f.impl and re.search(r"\b" + re.escape(ty) + r"\b", f.impl) and re.search(r"\b" + tr + r"\b", f.impl)]
            if fs:
                return ("static", callee, fs)
            # a type parameter: any implementation
            if re.fullmatch(r"[A-Z]\w{0,2}|Self|impl .*", m.group(1)):
                fs = self.traits.get((tr, fn), [])
                return ("dyn", tr, fs) if fs else None
            # a default method of a local trait
            fs = [f for f in self.by_name.get(fn, []) if not f.impl and f.name.endswith(f"{tr}::{fn}")]
            return ("static", callee, fs) if fs else None
        c = re.sub(r"::<.*>$", "", callee) if callee.endswith(">") else callee
        c = re.sub(r"::<[^()]*?>::", "::", c)
        parts = c.split("::")
        fn = parts[-1]
        if not re.fullmatch(r"\w+", fn) or fn not in self.by_name:
            return None
        if len(parts) == 1:
            fs = [f for f in self.by_name[fn] if not f.impl]
        else:
            ty = parts[-2]
            fs = [f for f in self.by_name[fn] if (f.impl and re.search(r"(?:for |impl(?:<.*?>)? )(?:\w+::)*" + re.escape(ty) + r"\b", f.impl)) or (not f.impl and re.search(r"(^|::)" + re.escape(ty) + "::" + fn + "$", f.name))]
        fs = [f for f in fs if len(f.args) == nargs]
        return ("static", callee, fs) if fs else None


NO_LOCK = {"new", "default", "deref", "clone", "as_ref", "borrow", "from", "into", "get_mut", "into_inner", "is_poisoned", "with_capacity", "hasher", "hash_usize", "fmt", "index", "index_mut", "push", "len", "unwrap", "expect"}
LAZY = {"map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "map_while", "inspect", "scan", "enumerate", "chain", "zip", "rev", "into_iter", "iter", "cloned", "copied", "peekable", "fuse", "take", "skip", "by_ref"}
ITER_TY = re.compile(r"dashmap::iter::Iter(?:Mut)?<")


def closures_in(t):
    return re.findall(r"\{closure@[^}]*\}", t)


def self_type(f):
    t = re.sub(r"^impl(<.*?>)? ", "", f.impl or "")
    m = re.match(r"[\w:]+", t.split(" for ")[-1].strip())
    return m.group(0).split("::")[-1] if m else f.name


class Analysis:
    def __init__(self, w):
        self.w = w
        self.needs = defaultdict(set)      # contract: locks that may be acquired
        self.returns = {}
        self.obl = {}
        self.unsupported = {}
        self.own = defaultdict(set)        # locks the functions of a type acquire themselves
        self.points = 0

    # -- one function against the contracts of its callees
    def run(self, f, emit=False):
        w = self.w
        flags = self.flags(f)
        init = set()
        for n, t in f.args:
            for c in guard_classes(t) if not is_ref(t) else ():
                init.add((n, c))
        needs = set()
        seen = set()
        todo = [("bb0", frozenset(init), frozenset())]
        steps = 0
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            steps += 1
            if steps > 60000:
                raise Unsupported("too many states")
            bb, held, fl = st
            held, fl = set(held), dict(fl)
            for s in f.blocks[bb][:-1]:
                self.statement(f, s, held, fl, flags)
            s = f.blocks[bb][-1]
            for nb, h, g in self.terminator(f, bb, s, held, fl, needs, emit, flags):
                if nb in f.blocks:
                    todo.append((nb, frozenset(h), frozenset(g.items())))
        self.points += steps
        return needs

    def flags(self, f):
        """drop flags that decide whether a guard is dropped"""
        const = defaultdict(bool)
        for n, t in f.types.items():
            if t == "bool":
                const[n] = True
        switched = defaultdict(list)
        for b, ss in f.blocks.items():
            for s in ss:
                m = re.match(r"(_\d+) = (.*);$", s)
                if m and m.group(1) in const and m.group(2) not in ("const true", "const false"):
                    const[m.group(1)] = False
                c = call_of(s)
                if c and c[0] in const:
                    const[c[0]] = False
            m = re.match(r"switchInt\((?:copy )?(_\d+)\) -> \[(.*)\];", ss[-1]) if ss else None
            if m:
                switched[m.group(1)] += re.findall(r"bb\d+", m.group(2))
        keep = set()
        for n, bs in switched.items():
            if not const[n]:
                continue
            for b in bs:
                for s in f.blocks.get(b, []):
                    m = re.match(r"drop\((.*)\) ->", s)
                    if m and self.may_hold(f.types.get(base(m.group(1)), "")):
                        keep.add(n)
        return keep

    def may_hold(self, t):
        return bool(guard_classes(t)) or "{closure@" in t or any(re.search(r"\b" + d + r"\b", t) for d in self.w.drops)

    def moved(self, f, text, held):
        """the locks that move with the operands of an expression"""
        out = set()
        for m in re.finditer(r"\bmove ", text):
            p = text[m.end():]
            b = base(p)
            if b is None:
                continue
            mine = {(x, c) for x, c in held if x == b}
            if not mine:
                continue
            if p.startswith("("):
                d = 0
                for j, ch in enumerate(p):
                    d += ch == "("
                    d -= ch == ")"
                    if d == 0:
                        break
                ty = p[:j].rsplit(": ", 1)[-1]
                gc = guard_classes(ty)
                if not gc and "{closure@" not in ty:
                    continue
                mine = {(x, c) for x, c in mine if not gc or c in gc}
            out |= mine
        return out

    def statement(self, f, s, held, fl, flags):
        m = re.match(r"(.+?) = (.*);$", s)
        if not m:
            return
        d, rhs = m.group(1), m.group(2)
        b = base(d)
        if d in flags and rhs in ("const true", "const false"):
            fl[d] = rhs == "const true"
            return
        mv = self.moved(f, rhs, held)
        if mv:
            held -= mv
            if d.startswith("(*"):
                raise Unsupported("guard stored behind a reference")
            held |= {(b, c) for _, c in mv}
        if d == b:
            self.forget(fl, d)
        m = re.match(r"discriminant\((_\d+)\)$", rhs)
        if m and self.may_hold(f.types.get(m.group(1), "")):
            fl["disc:" + d] = m.group(1)

    def forget(self, fl, d):
        fl.pop("var:" + d, None)
        fl.pop("disc:" + d, None)
        for k in [k for k, v in fl.items() if k.startswith("disc:") and v == d]:
            del fl[k]

    def terminator(self, f, bb, s, held, fl, needs, emit, flags):
        if s.startswith("goto -> "):
            return [(re.search(r"bb\d+", s).group(0), held, fl)]
        if s.startswith("return"):
            left = {c for x, c in held if x != "_0"}
            if left:
                raise Unsupported("a guard is still held at the return: " + ", ".join(sorted(left)))
            self.returns.setdefault(f.name, set()).update(c for x, c in held)
            return []
        if s.startswith("unreachable") or s.startswith("resume") or s.startswith("abort") or s.startswith("terminate"):
            return []
        m = re.match(r"drop\((.*)\) -> \[return: (bb\d+)", s)
        if m:
            p = m.group(1)
            b = base(p)
            t = f.types.get(b, "")
            for dn, df in self.w.drops.items():
                if re.search(r"(?<!&)\b" + dn + r"\b", t) and not is_ref(t):
                    self.acquire(f, bb, "drop of " + dn, self.needs[df.name], {c for x, c in held if x != b}, needs, emit)
            mine = {(x, c) for x, c in held if x == b}
            if p != b and mine:
                ty = p.rsplit(": ", 1)[-1].rstrip(")")
                gc = guard_classes(ty)
                if gc:
                    mine = {(x, c) for x, c in mine if c in gc}
            return [(m.group(2), held - mine, fl)]
        m = re.match(r"switchInt\((?:move |copy )?(.*)\) -> \[(.*)\];", s)
        if m:
            x = m.group(1)
            out = []
            vals = []
            for e in m.group(2).split(", "):
                k, b = e.split(": ")
                vals.append(k)
                h, g = held, fl
                if x in flags and x in fl:
                    v = fl[x]
                    if k != "otherwise" and int(k) != int(v):
                        continue
                    if k == "otherwise" and str(int(v)) in vals:
                        continue
                dl = fl.get("disc:" + x)
                if dl:
                    t = f.types.get(dl, "")
                    two = re.match(r"(?:\w+::)*(Option|Result|Entry|ControlFlow)<", t)
                    var = k
                    if k == "otherwise":
                        left = [v for v in ("0", "1") if v not in vals]
                        var = left[0] if two and len(left) == 1 else None
                    known = fl.get("var:" + dl)
                    if known is not None and (var is not None and known != var or k == "otherwise" and known in vals):
                        continue
                    g = dict(fl)
                    g.pop("disc:" + x, None)
                    if var is not None:
                        g["var:" + dl] = var
                        if two and two.group(1) == "Option" and var == "0":
                            h = {(y, c) for y, c in held if y != dl}
                out.append((b, h, g))
            return out
        m = re.match(r"assert\(.* -> \[success: (bb\d+)", s)
        if m:
            return [(m.group(1), held, fl)]
        m = re.match(r"falseEdge|falseUnwind", s)
        if m:
            return [(b, held, fl) for b in re.findall(r"bb\d+", s)[:1]]
        c = call_of(s)
        if not c:
            raise Unsupported("terminator " + s[:80])
        return self.call(f, bb, c, held, fl, needs, emit)

    def optype(self, f, a):
        a = a.strip()
        b = base(a)
        if a.startswith("const ") or b is None:
            return a
        m = re.match(r"(?:move |copy )?(_\d+)$", a)
        if m:
            return f.types.get(m.group(1), "")
        return a.rsplit(": ", 1)[-1].rstrip(")")

    def call(self, f, bb, c, held, fl, needs, emit):
        dest, callee, args, ret = c
        w = self.w
        mv = self.moved(f, ", ".join(args), held)
        rest = {k for x, k in held - mv}
        inner = {k for x, k in mv}
        db = base(dest)
        dt = f.types.get(db, "") if dest == db else dest.rsplit(": ", 1)[-1].rstrip(")")
        ats = [self.optype(f, a) for a in args]
        fn = last_name(callee)
        r = w.resolve(callee, len(args), f)
        got = set()
        fl = dict(fl)
        if dest == db:
            self.forget(fl, db)
        # closures that may run during the call
        clos = [x for t in ats for x in closures_in(t)]
        items = [a for a in args if not re.match(r"(move |copy )?[(]?[*]?_\d+|const [\d\"\-']|const (true|false|_|\()|move \(|\(", a) and "::" in a]
        if r:
            kind, name, fs = r
            n = set().union(*[self.needs[g.name] for g in fs]) if fs else set()
            if kind == "dyn" and any(g.impl == f.impl for g in fs):
                # objects of one type inside each other: the locks of the inner one come after those
                # of the outer one, by the nesting
                n = n - self.own[self_type(f)]
            self.acquire(f, bb, self.short(callee), n, rest, needs, emit)
            for g in fs:
                got |= self.returns.get(g.name, set())
            for g in fs:
                if any(self.calls_params(h) for h in [g]):
                    raise Unsupported("a local function runs its closure parameter: " + w.pretty(g))
            if kind == "dyn" and not fs and emit and fn not in LEAF:
                # a trait of which only users have implementations: nothing may be held
                self.opaque(f, bb, self.short(callee), rest | inner, needs)
            for x in clos:
                g = w.closures.get(x)
                if g:
                    self.acquire(f, bb, "closure in " + self.short(callee), self.needs[g.name], rest | inner, needs, emit)
        else:
            if re.search(r"<(?:[A-Z]\w?|impl .*) as Fn(Once|Mut)?<", callee) or re.search(r"<dyn Fn", callee) or callee.startswith("move _") or re.match(r"_\d+$", callee):
                if rest | inner:
                    raise Unsupported("an unknown function is called with a lock held")
            m = re.match(r"<(&?(?:mut )?\{closure@[^}]*\}) as Fn", callee)
            if "Condvar::wait" in callee:
                if emit and "timeout" not in fn:
                    self.obl.setdefault((ENDLESS, ENDLESS), []).append((w.pretty(f), self.short(callee)))
                if emit:
                    self.opaque(f, bb, "Condvar::" + fn, rest, needs)
            if re.search(r"\b(recv|blocking_recv|join|block_on|park|blocking_lock|blocking_read|blocking_write)$", fn) and re.search(r"Receiver|JoinHandle|Runtime|Handle|thread|tokio|Barrier", callee):
                raise Unsupported("blocks in " + self.short(callee))
            acq = self.external(f, callee, fn, args, ats, dt, mv)
            cl = set()
            if acq:
                self.own[self_type(f)] |= acq
                hd = rest | inner
                # the next step of an iteration: what its own iterator holds does not count
                self.acquire(f, bb, self.short(callee), acq, hd - (acq if self.own_iter(callee, fn, ats) else set()), needs, emit, iter_=self.own_iter(callee, fn, ats), f_held=held)
                cl = acq
            for x in clos:
                g = w.closures.get(x)
                if g and fn != "new":
                    self.acquire(f, bb, "closure in " + self.short(callee), self.needs[g.name], rest | inner | cl, needs, emit)
                    got |= self.returns.get(g.name, set()) & guard_classes(dt) if not is_ref(dt) else set()
            for a in items:
                r2 = w.resolve(re.sub(r"^const ", "", a), 1) or w.resolve(re.sub(r"^const ", "", a), 2)
                if r2:
                    self.acquire(f, bb, a, set().union(*[self.needs[g.name] for g in r2[2]]) if r2[2] else set(), rest | inner | cl, needs, emit)
            gd = guard_classes(dt) if not is_ref(dt) else frozenset()
            if gd:
                got |= {x for x in gd if x in acq} if acq else set()
                # nothing acquired: the guards come from the operands
                if not got and not inner:
                    if fn.startswith("try_") or any(gd & guard_classes(re.sub(r"^[&*](?:mut |const )?", "", t)) for t in ats):
                        got |= gd  # taken without waiting, or out of a container of guards
                    elif emit:
                        raise Unsupported("a guard out of nowhere: " + self.short(callee))
            if inner and (gd or closures_in(dt)):
                got |= inner
            if fn == "forget" and inner or fn == "leak" and inner:
                raise Unsupported("a guard is leaked")
        if ret is None:
            return []
        h = set(held) - mv
        h = {(x, k) for x, k in h if not (dest == db and x == db)}
        if got:
            if dest.startswith("(*"):
                raise Unsupported("a guard is stored behind a reference")
            h |= {(db, k) for k in got}
        return [(ret, h, fl)]

    def own_iter(self, callee, fn, ats):
        return fn in ("next", "nth") and any(ITER_TY.search(t) for t in ats)

    def calls_params(self, g):
        for ss in g.blocks.values():
            for s in ss:
                if re.search(r"<(?:[A-Z]\w?|impl [^>]*|&?(?:mut )?dyn [^>]*) as Fn(Once|Mut)?<", s):
                    return True
        return False

    def external(self, f, callee, fn, args, ats, dt, mv):
        """locks an external function acquires"""
        gd = guard_classes(dt) if not is_ref(dt) else frozenset()
        if fn.startswith("try_"):
            return set()
        out = set()
        # an operation of a lock type
        recv = callee
        m = re.match(r"(?:[\w:]*::)?(DashMap|DashSet|RwLock|Mutex)::<", callee)
        if m and fn in ("read", "write", "lock"):
            a = callee.index("<", m.start(1))
            out.add(f"{m.group(1)}<{norm(callee[a + 1:close(callee, a)])}>")
            return out
        if m and m.group(1).startswith("Dash") and fn not in NO_LOCK - {"get_mut", "len"}:
            a = callee.index("<", m.start(1))
            args_ = split_top(callee[a + 1:close(callee, a)])[:2]
            out.add(m.group(1) + "<" + ",".join(norm(x) for x in args_) + ">")
            return out
        m = re.match(r"<&?(?:[\w:]*::)?(DashMap|DashSet)<(.*)> as (\w+)", callee)
        if m and m.group(3) in ("Clone", "IntoIterator", "Extend", "Map", "Serialize", "Debug", "Set"):
            out.add(m.group(1) + "<" + ",".join(norm(x) for x in split_top(m.group(2))[:2]) + ">")
            return out
        if self.own_iter(callee, fn, ats):
            for t in ats:
                for m in ITER_TY.finditer(t):
                    a = m.end() - 1
                    xs = [x for x in split_top(t[a + 1:close(t, a)]) if not x.startswith("'")]
                    out.add(f"DashMap<{norm(xs[0])},{norm(xs[1])}>")
            return out
        # any other external function handed a lock by reference and able to use it
        for t in ats:
            if is_ref(t) and LOCK.search(t) and not GUARD.search(t):
                tt = re.sub(r"^&(?:mut )?", "", t)
                if re.match(r"(?:std::sync::)?(?:Arc<)?(?:dashmap::)?(DashMap|DashSet)<|(?:std::sync::)?(?:Arc<)?(?:std::sync::)?(RwLock|Mutex)<", tt) and fn not in NO_LOCK:
                    raise Unsupported("a lock is used by " + self.short(callee))
        return out

    def short(self, c):
        return re.sub(r"\{closure@[^}]*\}", "{closure}", norm(c))[:110]

    def acquire(self, f, bb, what, classes, heldc, needs, emit, iter_=False, f_held=None):
        needs |= set(classes)
        if iter_ and f_held is not None:
            # guards of the same map that are not the iterator's
            extra = {k for x, k in f_held if k in classes and not ITER_TY.search(f.types.get(x, ""))}
            heldc = set(heldc) | extra
        if emit:
            for a in classes:
                for h in heldc:
                    self.obl.setdefault((h, a), []).append((self.w.pretty(f), what))

    def opaque(self, f, bb, what, heldc, needs):
        for h in heldc:
            self.obl.setdefault((h, "(user code)"), []).append((self.w.pretty(f), what))

    def solve(self):
        fns = self.w.fns
        deps_changed = True
        rounds = 0
        while deps_changed:
            deps_changed = False
            rounds += 1
            for f in fns:
                if f.name in self.unsupported:
                    continue
                old_r = set(self.returns.get(f.name, set()))
                try:
                    n = self.run(f)
                except Unsupported as e:
                    self.unsupported[f.name] = str(e)
                    continue
                if not n <= self.needs[f.name] or self.returns.get(f.name, set()) != old_r:
                    self.needs[f.name] |= n
                    deps_changed = True
            if rounds > 40:
                raise RuntimeError("no fixpoint")
        self.points = 0
        for f in fns:
            if f.name not in self.unsupported:
                try:
                    self.run(f, emit=True)
                except Unsupported as e:
                    self.unsupported[f.name] = str(e)
        return rounds


def z3(an):
    classes = sorted({c for p in an.obl for c in p} | {c for n in an.needs.values() for c in n})
    idx = {c: i for i, c in enumerate(classes)}
    q = ["(set-option :produce-unsat-cores true)"]
    q += [f"(declare-const L{i} Int) ; {c}" for c, i in idx.items()]
    names = {}
    for k, (h, a) in enumerate(sorted(an.obl)):
        if a == "(user code)":
            q.append(f"(assert (! false :named o{k}))")
        else:
            q.append(f"(assert (! (< L{idx[h]} L{idx[a]}) :named o{k}))")
        names[f"o{k}"] = (h, a)
    q += ["(check-sat)", "(get-model)", "(get-unsat-core)"]
    t = time.time()
    p = subprocess.run(["z3", "-in", "-T:60"], input="\n".join(q), text=True, capture_output=True)
    out = p.stdout
    res = out.split("\n", 1)[0].strip()
    core, order = [], []
    if res == "unsat":
        m = re.search(r"\((o\d[^)]*)\)", out)
        core = [names[x] for x in m.group(1).split()] if m else list(names.values())
        # the shortest cycle among the obligations of the core is what to read
        core = cycle(core) or core
    elif res == "sat":
        lv = {int(i): int(v.replace("(- ", "-").rstrip(")")) for i, v in re.findall(r"define-fun L(\d+) \(\) Int\s+(\(- \d+\)|-?\d+)", out)}
        order = sorted(classes, key=lambda c: (lv.get(idx[c], 0), c))
    return res, core, order, time.time() - t, "\n".join(q)


def cycle(edges):
    for h, a in edges:
        if h == a or a == "(user code)":
            return [(h, a)]
    g = defaultdict(list)
    for h, a in edges:
        g[h].append(a)
    best = None
    for s in list(g):
        prev, todo = {s: None}, [s]
        while todo:
            x = todo.pop(0)
            for y in g[x]:
                if y == s:
                    path = [(x, s)]
                    while prev[x] is not None:
                        path.append((prev[x], x))
                        x = prev[x]
                    if best is None or len(path) < len(best):
                        best = path[::-1]
                    todo = []
                    break
                if y not in prev:
                    prev[y] = x
                    todo.append(y)
    return best


def main():
    w = World(sys.argv[2:])
    an = Analysis(w)
    t = time.time()
    rounds = an.solve()
    res, core, order, ms, smt = z3(an)
    dirs = [p for p in w.src]
    root = dirs[0][:max(dirs[0].find("/%s/" % x) + 1 for x in ("common", "account_storage", "token_account_storage", "accounts_on_demand"))] if dirs else ""
    out = {
        "where": {w.pretty(f): w.where(f, root) for f in w.fns if an.needs[f.name] or f.name in an.unsupported},
        "result": res, "order": order,
        "core": [{"held": h, "acquired": a, "at": an.obl[(h, a)][:6]} for h, a in core],
        "functions": {w.pretty(f): sorted(an.needs[f.name]) for f in w.fns if an.needs[f.name]},
        "returns": {w.pretty(f): sorted(an.returns[f.name]) for f in w.fns if an.returns.get(f.name)},
        "checked": len(w.fns) - len(an.unsupported), "unsupported": {w.pretty(f): an.unsupported[f.name] for f in w.fns if f.name in an.unsupported},
        "pairs": [{"held": h, "acquired": a, "sites": len(v)} for (h, a), v in sorted(an.obl.items())],
        "obligations": sum(len(v) for v in an.obl.values()), "points": an.points, "rounds": rounds, "z3_s": round(ms, 3), "wall_s": round(time.time() - t, 2), "smt": smt,
    }
    json.dump(out, open(sys.argv[1], "w"), indent=1)


if __name__ == "__main__":
    main()
