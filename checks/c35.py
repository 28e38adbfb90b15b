#!/usr/bin/env python3
import sys, os, re, itertools; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = """supported wrapper types experimental assume_lifetimes assume_this_lifetimes no_assume_lifetimes unsafe_view
check_default_initialized leading_colons_for_cpp_type template_instantiation layout_compat_tuple
always_specialize_generics_in_cpp_api_from_rust record_impl_debug ctor_plain_values reserve_standard_macros
thunkless_accessors oo_casting async_fn_send_modulo_regions""".split()
NOT_IN_ALL = {"no_assume_lifetimes", "layout_compat_tuple", "always_specialize_generics_in_cpp_api_from_rust", "oo_casting"}


def meaning(n):
    if n == "all":
        return set(NAMES) - NOT_IN_ALL
    return {"supported", "types"} if n == "supported" else {n}


def effective(opts, crate):
    default, plus, minus = set(), set(), set()
    for kind, who, f in opts:
        if kind == "default":
            default = set().union(*map(meaning, f.split(",")))
        elif who == crate:
            (plus if kind == "feature" else minus).update(meaning(f))
    return (default | plus) - minus


def arg(o):
    kind, who, f = o
    return f"--default-features={f}" if kind == "default" else \
        f"--crate-{'feature' if kind == 'feature' else 'disabled-feature'}={who}={f}"


def check(chk):
    chk.coverage["rule"] = ("one case = a feature name, list or subset (parser), or a sequence of feature options "
                            "given to the generator; all are distinct")
    harness(chk, "common", "c35")
    e = E2E(chk)
    d = fresh_dir(os.path.join(chk.dir, "gen"))
    e.rust_lib(d, "dep", "pub struct errno { pub a: i32 }\n")
    e.rust_lib(d, "foo", "pub fn stdin(a: i32) -> i32 { a }\npub fn tup(x: (i32, u8)) -> (i32, u8) { x }\n"
               "pub fn use_dep(x: &dep::errno) {}\n", externs=[("dep", d + "/libdep.rlib")])
    M, L = "reserve_standard_macros", "layout_compat_tuple"
    pool = [("default", "", "all"), ("default", "", L), ("default", "", f"{M},{L}")]
    for who in ("self", "dep"):
        pool += [("feature", who, M), ("feature", who, L), ("feature", who, "all"),
                 ("disable", who, M), ("disable", who, L), ("disable", who, "all")]
    small = [o for o in pool if o[2] in (M, "all")]
    cases = [()] + [(o,) for o in pool] + list(itertools.product(pool, repeat=2))
    cases += list(itertools.product(small, repeat=3)) if THOROUGH else \
        [c for c in itertools.product(small, repeat=3) if c[0][0] == "default" and c[1][1] == c[2][1] == "self"]
    # the experimental gate on escaping names is about all configured crates; keep to what is documented
    cases += [(("feature", "self", n),) for n in NAMES] + [(("default", "", ",".join(p)),) for p in itertools.combinations(NAMES, 2)][::11]
    cases = [c for c in dict.fromkeys(cases) if sum(o[0] == "default" for o in c) <= 1]

    def one(ic):
        i, c = ic
        o = os.path.join(d, f"o{i}")
        os.makedirs(o)
        r = e.generate(d, "foo", [arg(x) for x in c], ["dep"], outdir=o)
        h = open(os.path.join(o, "foo.h")).read() if r.rc == 0 else ""
        shutil.rmtree(o)
        return c, r, h
    for c, r, h in pmap(one, enumerate(cases)):
        chk.count(evaluations=1, distinct_nontrivial=1)
        args = " ".join(map(arg, c))
        if r.rc != 0:
            chk.violation("generator-fails", f"with {args}:\n{r.tail()}")
            continue
        S, D = effective(c, "self"), effective(c, "dep")
        m = re.search(r"^// Features: (.*)$", h, re.M)
        want = ", ".join(sorted(S)) or "<none>"
        if not m or m.group(1) != want:
            chk.violation("features-in-force", f"with {args} the header says {m and m.group(0)!r}, expected {want!r}")
        names = sorted(set(re.findall(r"\bstdin_?\(", h)))
        if names != (["stdin_("] if M in S else ["stdin("]):
            chk.violation("reserved-names", f"with {args} fn stdin is bound as {names}, features {sorted(S)}")
        tup = sorted(set(re.findall(r"(\w+::\w+) ?<[^;{}()]*> ?tup ?\(", h)))
        if tup != (["rs_std::Tuple"] if L in S else ["std::tuple"]):
            chk.violation("tuple-kind", f"with {args} fn tup returns {tup}, features {sorted(S)}")
        if M not in S:
            n = sorted(set(re.findall(r"dep::(errno_?)\b", h)))
            if n != (["errno_"] if M in D else ["errno"]):
                chk.violation("dependency-features", f"with {args} dep::errno is called {n}, dep features {sorted(D)}")
        chk.count(generator_runs=1)
    chk.sample("generator with " + " ".join(map(arg, cases[-1])))


main(check, "C35", "exploration")
