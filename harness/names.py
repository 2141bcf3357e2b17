#!/usr/bin/env python3
"""C37: which declarations of reflected types compile, and for which operations.

Speaks the command line and the report format of the C++ harnesses (mc.hpp): every schema of the groups below is
declared in C++, every operation of both backends is instantiated for it in a translation unit of that operation only,
and the compiler's verdict on each (operation, schema) is compared with the model `claims` below.

  names.py C37 OUT.json --tmp DIR --cap S --shards N [--thorough] [--replay SCENARIO CHOICES BOUNDS]
"""
import itertools, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("KL_REPO", "/repo")
H = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["-std=c++17", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(H, "shim"), "-DRAPIDJSON_HAS_STDSTRING=1", "-w"]
OPS = ["dump", "serialize", "deserialize", "patch"]
USE = {"dump": "T t{}; (void)%s::dump(t);", "serialize": "T t{}; (void)%s::serialize(t);",
       "deserialize": "T t{}; %s::deserialize(t, %s);", "patch": "T t{}; %s::patch(t, %s);"}
DOC = {"json": "rapidjson::Value{}", "yaml": "YAML::Node{}"}


def quote(s):
    return '"' + "".join(c if c.isalnum() or c in " _" else "\\%03o" % ord(c) for c in s) + '"'


class Field:
    """One declared field: kind 'plain', 'flatten' (of a Schema), 'extra'."""

    def __init__(self, var, rename=None, aliases=(), skip=None, kind="plain", inner=None):
        self.var, self.rename, self.aliases, self.skip, self.kind, self.inner = var, rename, aliases, skip, kind, inner

    def attrs(self):
        out = []
        if self.rename is not None:
            out.append("attr::rename(%s)" % quote(self.rename))
        if self.aliases:
            out.append("attr::aliases(%s)" % ", ".join(map(quote, self.aliases)))
        if self.kind != "plain":
            out.append("attr::" + {"flatten": "flatten", "extra": "extra_fields"}[self.kind])
        if self.skip:
            out.append("attr::" + self.skip)
        return out

    def declare(self):
        a = self.attrs()
        return "(%s)" % ", ".join([self.var] + a) if a else self.var

    # the model: the names this field claims for writing or for reading
    def claims(self, reading):
        if self.skip in ("skip", "skip_deserialization" if reading else "skip_serialization") or self.kind == "extra":
            return []
        if self.kind == "flatten":
            return self.inner.claims(reading)
        return [self.var if self.rename is None else self.rename] + (list(self.aliases) if reading else [])


class Schema:
    def __init__(self, fields, base=None, both=True):
        self.fields, self.base, self.both = fields, base, both      # both: judged with both backends in the quick tier

    def claims(self, reading):
        out = self.base.claims(reading) if self.base else []
        for f in self.fields:
            out = out + f.claims(reading)
        return out

    def code(self, name):
        """One line of C++ declaring the type under `name`, with types of its own for all its parts."""
        pre, members = "", []
        for i, f in enumerate(self.fields):
            if f.kind == "flatten":
                pre += f.inner.code("%s_%d" % (name, i))
                members.append("%s_%d %s{};" % (name, i, f.var))
            elif f.kind == "extra":
                members.append("std::map<std::string, int> %s{};" % f.var)
            else:
                members.append("int %s{};" % f.var)
        if self.base:
            pre += self.base.code(name + "_b")
        decl = ", ".join(f.declare() for f in self.fields)
        if self.base:
            return pre + "struct %s : %s_b { %s }; KL_REFLECT_STRUCT_DERIVED(%s, %s_b, %s) " % (name, name, " ".join(members), name, name, decl)
        return pre + "struct %s { %s }; KL_REFLECT_STRUCT(%s, %s) " % (name, " ".join(members), name, decl)

    def accepts(self, op):
        c = self.claims(op in ("deserialize", "patch"))
        return len(set(c)) == len(c)

    def entry(self, name):
        return self.code(name), name


class Verbatim:
    """A declaration given as text ($ stands for the name), the type used ($ likewise) and the operations that accept it."""

    def __init__(self, text, accepted, use="$", open_=()):
        self.text, self.accepted, self.use, self.open = text, accepted, use, open_

    def accepts(self, op):
        return None if op in self.open else op in self.accepted     # None: not judged

    def entry(self, name):
        return self.text.replace("$", name) + " ", self.use.replace("$", name)


class Placed:
    """A schema as a part of something else."""

    def __init__(self, schema, form):
        self.schema, self.form = schema, form

    def accepts(self, op):
        return self.schema.accepts(op)

    def entry(self, name):
        return self.schema.code(name) + self.form[0].replace("$", name) + " ", self.form[1].replace("$", name)


def two_fields(thorough):
    skips = [None, "skip_serialization", "skip_deserialization", "skip"]
    alias = [(), ("x",), ("a",), ("b",), ("y", "x")] + ([("x", "x"), ("y", "a", "b")] if thorough else [])
    a = [Field("a", c, al, s) for c in (None, "x") for al in (alias if thorough else alias[:4]) for s in (skips if thorough else skips[:3])]
    b = [Field("b", c, al, s) for c in (None, "a", "x") for al in alias for s in skips]
    for f, g in itertools.product(a, b):
        if thorough or not (f.skip and g.skip and f.skip != g.skip and (f.aliases and g.aliases)):
            yield Schema([f, g], both=f.aliases == () and f.rename is None and not (f.skip and g.skip))


def lookalikes(thorough):
    words = ["a", "A", "aa", "ab", "b", "ba", "a ", " a", "", "a_", "w" * 70 + "1", "w" * 70 + "2", "w" * 70, "\xe4", "\xc4"]
    for x, y in itertools.product(words, words):
        yield Schema([Field("p", x), Field("q", y)])
        yield Schema([Field("p", x), Field("q", "zz", (y,))], both=False)
        if thorough:
            yield Schema([Field("p", "zy", (x,)), Field("q", "zz", ("z1", y))])
            yield Schema([Field("p", x, ("y1",)), Field("in", kind="flatten", inner=Schema([Field("q", y)]))])


def structures(thorough):
    def kinds(v):
        yield Field(v, "a")
        yield Field(v, "b", ("a",))
        yield Field(v, "c")
        yield Field(v, kind="extra")
        yield Field(v, kind="flatten", inner=Schema([Field("a")]))
        yield Field(v, kind="flatten", inner=Schema([Field("u", "b"), Field("w", "d", ("c",))]))
        yield Field(v, kind="flatten", skip="skip_serialization", inner=Schema([Field("a")]))
        yield Field(v, kind="flatten", skip="skip_deserialization", inner=Schema([Field("a"), Field("b")]))
        yield Field(v, kind="flatten", inner=Schema([Field("in", kind="flatten", inner=Schema([Field("a"), Field("e")]))]))
        yield Field(v, kind="flatten", inner=Schema([Field("a")], Schema([Field("b")])))
    yield from (Schema([f]) for f in kinds("p"))
    for f, g in itertools.product(kinds("p"), kinds("q")):
        yield Schema([f, g])
        yield Schema([g], Schema([f]))
        if thorough:
            yield Schema([Field("p1", "a", skip="skip")], Schema([g], Schema([f])))
    for f, g, h in itertools.product(kinds("p"), kinds("q"), kinds("r")):
        if thorough or (sum(k.kind == "plain" for k in (f, g, h)) == 1 and g.kind != "plain"):
            yield Schema([f, g, h], both=False)


def crowds(thorough):
    for n in (12, 30) if thorough else (12,):
        for i, j in [(0, 0)] + list(itertools.combinations(range(n), 2)):
            names = ["n%d" % k for k in range(n)]
            names[j] = names[i]
            yield Schema([Field("f%d" % k, names[k]) for k in range(n)], both=False)
    for m in (1, 2, 7, 8):                              # m aliases and one more field: the collision at every place
        for at in range(-1, m):
            al = tuple("x%d" % k for k in range(m))
            for other in (al[at] if at >= 0 else "y",):
                yield Schema([Field("p", aliases=al), Field("q", other)])
                yield Schema([Field("q", other), Field("p", aliases=al)])
                yield Schema([Field("in", kind="flatten", inner=Schema([Field("p", aliases=al)])), Field("q", "z", (other,))])
                yield Schema([Field("q", other)], Schema([Field("p", aliases=al), Field("r", aliases=tuple(reversed(["y%d" % k for k in range(8)])))]))


def places(thorough):
    forms = [("", "std::vector<$>"), ("", "std::optional<$>"), ("", "std::map<std::string, $>"), ("", "std::list<$>"),
             ("", "std::tuple<int, $>"), ("", "std::pair<std::string, $>"), ("", "std::array<$, 2>"), ("", "std::unordered_map<std::string, $>"),
             ("struct $o { $ in{}; int n{}; }; KL_REFLECT_STRUCT($o, n, in)", "$o"),
             ("struct $o { $ in{}; int n{}; }; KL_REFLECT_STRUCT($o, n, (in, attr::rename(\"a\")))", "$o"),
             ("struct $o { std::vector<std::optional<$>> in{}; int a{}; }; KL_REFLECT_STRUCT($o, a, in)", "$o"),
             ("struct $o { int n{}; std::map<std::string, $> in{}; }; KL_REFLECT_STRUCT($o, n, (in, attr::extra_fields))", "$o"),
             ("struct $o : $ { int n{}; }; KL_REFLECT_STRUCT_DERIVED($o, $, n)", "$o"),
             ("struct $o { $ in{}; int n{}; }; KL_REFLECT_STRUCT($o, n, (in, attr::flatten))", "$o"),
             ("struct $i { $ in{}; int k{}; }; KL_REFLECT_STRUCT($i, in, k) struct $o { $i in{}; int n{}; }; KL_REFLECT_STRUCT($o, n, (in, attr::flatten))", "$o")]
    schemas = [lambda: Schema([Field("a"), Field("b")]), lambda: Schema([Field("a"), Field("b", "a")]), lambda: Schema([Field("a"), Field("b", aliases=("a",))]),
               lambda: Schema([Field("a"), Field("b", "a", skip="skip_deserialization")]), lambda: Schema([Field("a"), Field("b", "a", skip="skip_serialization")])]
    for f, s in itertools.product(forms, schemas):
        yield Placed(s(), f)


def misuse(thorough):
    """Declarations that mean nothing, each beside the nearest ones that do."""
    W, R = ["dump", "serialize"], ["deserialize", "patch"]
    A = W + R

    def one(type_, attrs, ok, pre="", open_=()):
        return Verbatim("%s struct $ { int n{}; %s v{}; }; KL_REFLECT_STRUCT($, n, (v%s))" % (pre, type_, "".join(", attr::" + a for a in attrs)), ok, open_=open_)
    inner = "struct $i { int a{}; }; KL_REFLECT_STRUCT($i, a)"
    yield one("$i", ["flatten"], A, inner)
    for t in ("int", "std::string", "std::vector<int>", "std::optional<$i>", "std::map<std::string, int>", "std::vector<$i>"):
        yield one(t, ["flatten"], [], inner)
        yield one(t, [], A, inner)
    for t in ("std::map<std::string, int>", "std::unordered_map<std::string, std::string>", "std::map<std::string, std::vector<int>>"):
        yield one(t, ["extra_fields"], A)
    for t in ("int", "std::string", "std::vector<int>", "$i", "std::optional<std::map<std::string, int>>", "std::vector<std::pair<std::string, int>>"):
        yield one(t, ["extra_fields"], [], inner)
    for t, v, ok in (("int", "5", 1), ("int", "2.5", 1), ("int", "std::string{\"x\"}", 0), ("std::string", "\"x\"", 1),
                     ("std::string", "std::vector<int>{}", 0), ("std::optional<int>", "5", 1), ("std::optional<int>", "std::string{}", 0),
                     ("std::vector<int>", "std::vector<int>{1}", 1), ("std::vector<int>", "1", 0)):
        yield one(t, ["default_value(%s)" % v], A if ok else [], open_=() if ok else W)
        yield one(t, ["default_value(%s)" % v, "skip_serialization"], A if ok else [], open_=() if ok else W)
    for t, v, ok in (("int", "[](int){}", 1), ("int", "[](const int&){}", 1), ("int", "[](const std::string&){}", 0), ("std::string", "[](const std::string&){}", 1),
                     ("std::string", "[](std::string_view){}", 1), ("std::string", "[](int){}", 0), ("int", "[](int, int){}", 0), ("int", "[]{}", 0),
                     ("std::optional<int>", "[](const std::optional<int>&){}", 1), ("std::vector<int>", "[](int){}", 0)):
        yield one(t, ["validate(%s)" % v], A if ok else [], open_=() if ok else W)
    opaque = "struct $i { int a{}; };"
    yield one("$i", [], [], opaque)
    yield one("std::vector<$i>", [], [], opaque)
    yield one("std::optional<$i>", [], [], opaque)
    ser = ("struct $i { int a{}; }; template <> struct kl::serialization::serializer<$i> { %s };")
    fun = {"dump": "template <typename C> static void dump(const $i&, C& c) { kl::serialization::dump(1, c); }",
           "serialize": "template <typename C> static auto serialize(const $i&, C& c) { return kl::serialization::serialize(1, c); }",
           "deserialize": "template <typename V, typename C> static void deserialize($i&, const V&, C&) {}",
           "patch": "template <typename V, typename C> static void patch($i&, const V&, C&) {}"}
    for n in range(5):
        for has in itertools.combinations(A, n):
            ok = [o for o in A if o in has]
            yield one("$i", [], ok, ser % " ".join(fun[o] for o in has), ["patch"] if "patch" in has and "deserialize" not in has else ())
            yield Verbatim(ser % " ".join(fun[o] for o in has) + " KL_REFLECT_STRUCT($i, a)",
                           [o for o in A if o in has or o != "patch" or "deserialize" not in has], "$i")


def extras(thorough):
    """Types with none, one, two or three places for the members left over, at every place; n is the only other field."""
    def put(v, deep):
        f = Field(v, kind="extra")
        for d in range(deep):
            f = Field(v, kind="flatten", inner=Schema([Field("w%d" % d, "%s%d" % (v, d)), f]) if d else Schema([f]))
        return f
    n = Field("n")
    forms = [[]] + [[d] for d in range(3)] + [[c, d] for c in range(3) for d in range(3)] + [[0, 0, 0], [0, 1, 0], [1, 1, 1]]
    for form in forms:
        fields = [put("pqr"[i], d) for i, d in enumerate(form)]
        yield Schema([n] + fields), len(form)
        yield Schema(fields + [n]), len(form)
        for cut in range(1, len(form)):
            yield Schema([n] + fields[cut:], Schema(fields[:cut])), len(form)


def run_extras(tmp, thorough):
    """Runs every operation twice on every type of `extras`: more than one place is refused with std::logic_error, every time."""
    types = list(extras(thorough))
    out = ["#include <kl/json.hpp>", "#include <kl/yaml.hpp>", "#include <map>", "#include <string>", "#include <cstdio>", "#include <stdexcept>",
           "namespace attr = kl::serialization::attributes;",
           "template <typename F> void say(int k, const char* what, F f) { for (int round = 0; round < 2; ++round) { const char* r = \"ok\";"
           " try { f(); } catch (const std::logic_error&) { r = \"refused\"; } catch (const std::exception&) { r = \"error\"; } catch (...) { r = \"other\"; } std::printf(\"%d|%s|%s\\n\", k, what, r); } }",
           "template <typename T> void all(int k, const char* doc) {"]
    for b in ("json", "yaml"):
        out.append(" { T t{}; auto d = kl::%s::parse(doc);" % b)
        for op in OPS:
            use = {"dump": "(void)kl::%s::dump(t)", "serialize": "(void)kl::%s::serialize(t)", "deserialize": "kl::%s::deserialize(t, d)", "patch": "kl::%s::patch(t, d)"}[op] % b
            out.append("  say(k, \"%s::%s\", [&] { %s; });" % (b, op, use))
        out.append(" }")
    out.append("}")
    main = ["int main() {"]
    for k, (s, n) in enumerate(types):
        out.append(s.code("S%d" % k))
        names = s.claims(True)
        main.append(" all<S%d>(%d, \"{%s}\");" % (k, k, ", ".join('\\"%s\\": 1' % x for x in names)))
    src, exe = os.path.join(tmp, "extras.cpp"), os.path.join(tmp, "extras")
    with open(src, "w") as f:
        f.write("\n".join(out + main + ["}"]) + "\n")
    srcs = [src] + [os.path.join(REPO, "src", x + ".cpp") for x in ("json", "yaml", "serialization_error")]
    r = subprocess.run(["g++"] + FLAGS + ["-O0"] + srcs + ["-o", exe, "-lyaml-cpp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise RuntimeError("the programs of the group do not build:\n" + r.stdout[:3000])
    r = subprocess.run([exe], stdout=subprocess.PIPE, text=True, errors="replace")
    seen = [l.split("|") for l in r.stdout.splitlines()]
    return types, seen, r.returncode


GROUPS = [("two fields", two_fields), ("look-alike names", lookalikes), ("flattened, extra and inherited fields", structures),
          ("many names", crowds), ("inside other types", places), ("declarations that mean nothing", misuse)]


def unit(backend, op, batch):
    """The source of one translation unit and the map from its lines to the schemas."""
    out = ["#include <kl/%s.hpp>" % backend] + ["#include <%s>" % h for h in "array list map optional string tuple unordered_map vector".split()]
    out.append("namespace attr = kl::serialization::attributes;")
    use = USE[op]
    out.append("template <typename T> void use_it() { %s }" % (use % (("kl::" + backend,) + (DOC[backend],) * (use.count("%s") - 1))))
    lines = {}
    for k, s in batch:
        code, name = s.entry("S%d" % k)
        lines[len(out) + 1] = k
        out.append(code + "template void use_it<%s>();" % name)
    return "\n".join(out) + "\n", lines


def judge(tmp, backend, op, batch, tag):
    """Compiles the batch; returns {schema number: first error}."""
    text, lines = unit(backend, op, batch)
    src = os.path.join(tmp, "unit_%s.cpp" % tag)
    with open(src, "w", encoding="latin-1") as f:
        f.write(text)
    r = subprocess.run(["g++"] + FLAGS + ["-fsyntax-only", "-ftemplate-backtrace-limit=0", "-fno-diagnostics-show-caret", src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, LC_ALL="C"))
    out = r.stdout.decode(errors="replace")
    os.unlink(src)
    refused, at, stray = {}, None, None
    for line in out.splitlines():
        m = re.match(r"(.*?):(\d+)(?::\d+)?:\s", line)
        here = bool(m) and os.path.basename(m.group(1)) == os.path.basename(src)
        if here and int(m.group(2)) in lines:
            at = lines[int(m.group(2))]
        elif re.match(r".*: In instantiation of|.*: In substitution of|.*: In function", line):
            at = None
        if " error: " in line or "fatal error" in line:
            if at is None:
                stray = stray or line
            else:
                refused.setdefault(at, line.strip())
    if r.returncode not in (0, 1) or stray or (r.returncode == 1 and not refused) or "internal compiler error" in out:
        raise RuntimeError("the compiler's answer cannot be read: %s\n%s" % (stray or r.returncode, out[:3000]))
    return refused


def main():
    a = sys.argv[1:]
    pid, outfile = a[0], a[1]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    tmp, cap, shards = opt("--tmp", "."), float(opt("--cap", "500")), int(opt("--shards", "8"))
    thorough = "--thorough" in a
    if "--replay" in a:
        name, choices = a[a.index("--replay") + 1], [int(x) for x in a[a.index("--replay") + 2].split(",")]
        if name not in dict(GROUPS):
            types, seen, rc = run_extras(tmp, thorough)
            wrong = [x for x in seen if x[2] != ("refused" if types[int(x[0])][1] > 1 else "ok")]
            for k, what, got in wrong[:10]:
                print("%s of %s: %s" % (what, types[int(k)][0].code("S"), got))
            return 1 if wrong or rc or len(seen) != 16 * len(types) else 0
        gen = dict(GROUPS)[name]
        s = next(itertools.islice(gen(thorough), choices[0], None))
        op, backend = OPS[choices[1]], ["json", "yaml"][choices[2]]
        got = judge(tmp, backend, op, [(0, s)], "replay")
        print("%s::%s of\n  %s\nexpected to %s, %s" % (backend, op, s.entry("S0")[0], "compile" if s.accepts(op) else "be refused", ("refused: " + got[0]) if got else "compiles"))
        return 1 if bool(got) is s.accepts(op) else 0
    t0 = time.time()
    rep = {"property": pid, "traces": 0, "transitions": 0, "states": 0, "outcomes": 0, "exhaustive": True, "violated": False, "error": False,
           "counters": {"declarations accepted": 0, "declarations refused": 0}, "scenarios": [], "samples": []}
    bad = None
    several = "several places for members left over"
    with ThreadPoolExecutor(shards) as pool:
        ran = pool.submit(run_extras, tmp, thorough) if opt("--scenario", several) == several else None
        for name, gen in GROUPS:
            if opt("--scenario", name) != name:
                continue
            tg = time.time()
            schemas = list(enumerate(gen(thorough)))
            size = max(1, min(250, -(-len(schemas) // 8)))
            jobs = []
            for b in ("json", "yaml"):
                some = [x for x in schemas if b == "json" or thorough or getattr(x[1], "both", True)]
                jobs += [(b, o, some[i:i + size]) for i in range(0, len(some), size) for o in OPS]
            done = 0
            futures = [(j, pool.submit(lambda j=j, n=n: None if time.time() - t0 > cap else judge(tmp, j[0], j[1], j[2], str(n)))) for n, j in enumerate(jobs)]
            for (backend, op, batch), f in futures:
                got = f.result()
                if got is None:
                    rep["exhaustive"] = False
                    continue
                for k, s in batch:
                    done += 1
                    want = s.accepts(op)
                    rep["counters"]["declarations refused" if k in got else "declarations accepted"] += 1
                    if want is not None and (k not in got) != want and not bad:
                        text = s.entry("S")[0]
                        bad = {"scenario": name, "choices": [k, OPS.index(op), int(backend == "yaml")], "bounds": [],
                               "message": "%s::%s of a type that must %s: %s" % (backend, op, "compile is refused" if want else "be refused compiles", text),
                               "log": "%s\nmodel: names written %s, names read %s\n%s" % (text, getattr(s, "claims", lambda r: "-")(False), getattr(s, "claims", lambda r: "-")(True), got.get(k, ""))}
                if len(rep["samples"]) < 12 and op == "patch":
                    k, s = batch[len(batch) // 2]
                    rep["samples"].append("%s: %s::%s of %s %s" % (name, backend, op, s.entry("S")[0].strip(), "is refused" if k in got else "compiles"))
            rep["traces"] += done
            rep["transitions"] += done
            rep["states"] += len(schemas)
            rep["scenarios"].append({"scenario": name, "traces": done, "transitions": done, "new_states": len(schemas), "max_choices": 3, "pruned": 0,
                                     "exhaustive": rep["exhaustive"], "wall_s": round(time.time() - tg, 2)})
            print(json.dumps(rep["scenarios"][-1]), flush=True)
            if bad:
                break
    name = several
    if not bad and ran:
        tg = time.time()
        types, seen, rc = ran.result()
        counts = {}
        for k, what, got in seen:
            s, n = types[int(k)]
            counts[k] = counts.get(k, 0) + 1
            want = "refused" if n > 1 else "ok"
            rep["counters"]["declarations refused" if got == "refused" else "declarations accepted"] += 1
            if got != want and not bad:
                bad = {"scenario": name, "choices": [int(k)], "bounds": [], "log": s.code("S"),
                       "message": "%s of a type with %d extra_fields: %s, expected: %s" % (what, n, got, want)}
        if not bad and (rc or len(seen) != 16 * len(types)):
            bad = {"scenario": name, "choices": [], "bounds": [], "log": "exit code %d after %d answers" % (rc, len(seen)), "message": "the program using the types ended early"}
        rep["traces"] += len(seen)
        rep["transitions"] += len(seen)
        rep["states"] += len(types)
        rep["scenarios"].append({"scenario": name, "traces": len(seen), "transitions": len(seen), "new_states": len(types), "max_choices": 2, "pruned": 0,
                                 "exhaustive": True, "wall_s": round(time.time() - tg, 2)})
        print(json.dumps(rep["scenarios"][-1]), flush=True)
    rep["outcomes"] = rep["transitions"]
    rep["wall_s"] = round(time.time() - t0, 2)
    if bad:
        rep["violated"], rep["violation"] = True, bad
    with open(outfile, "w") as f:
        json.dump(rep, f)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
