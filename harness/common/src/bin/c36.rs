//! C36: every format string up to a length over special and ordinary characters against an
//! independent recogniser; every symbol text up to a length through the identifier escape and back;
//! every reserved word through every identifier function.
use code_gen_utils::*;
use crubit_feature::CrubitFeature;
use dyn_format::Format;
use flagset::FlagSet;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;

fn model(s: &str, names: &[&str], args: &[&str]) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut out) = (0, String::new());
    while i < c.len() {
        match c[i] {
            '{' if c.get(i + 1) == Some(&'{') => { out.push('{'); i += 2; }
            '}' if c.get(i + 1) == Some(&'}') => { out.push('}'); i += 2; }
            '}' => return None,
            '{' => {
                let end = (i + 1..c.len()).find(|&j| c[j] == '}')?;
                let name: String = c[i + 1..end].iter().collect();
                let k = names.iter().position(|n| *n == name.trim())?;
                out += args[k];
                i = end + 1;
            }
            ch => { out.push(ch); i += 1; }
        }
    }
    Some(out)
}

fn formats(evals: &AtomicU64, distinct: &AtomicU64) {
    let alpha = ['{', '}', 'a', 'b', ' ', 'é', '\u{2003}', '/'];
    let n = alpha.len() as u64;
    for len in 0..=if thorough() { 8 } else { 7 } {
        par(n.pow(len as u32), 1024, |i| {
            let s: String = digits(i, n, len).into_iter().map(|d| alpha[d]).collect();
            evals.fetch_add(1, Relaxed);
            if s.contains(['{', '}']) { distinct.fetch_add(1, Relaxed); }
            fn one<const N: usize>(s: &str, names: &[&'static str; N], args: [&str; N]) {
                let want = model(s, names, &args);
                let got = catch(|| Format::<N>::parse_with_metavars(s, names).ok().map(|f| (f.format(&args), f.clone() == f)));
                match got {
                    Err(p) => viol("format-panics", format!("{s:?} over {names:?}: {p}")),
                    Ok(g) => if g.as_ref().map(|x| &x.0) != want.as_ref() || g.is_some_and(|x| !x.1) { viol("format", format!("{s:?} over {names:?} with {args:?} gives {:?}, expected {want:?}", Format::<N>::parse_with_metavars(s, names).ok().map(|f| f.format(&args)))); },
                }
            }
            one::<2>(&s, &["a", "b"], ["X{a}", "}é"]);
            one::<2>(&s, &["ab", "a"], ["1", ""]);
            if len <= 6 { one::<1>(&s, &["a"], ["{{"]); one::<0>(&s, &[], []); one::<3>(&s, &["b", "aa", "é"], ["1", "2", "3"]); }
        });
    }
}

fn unescape(s: &str) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut out) = (0, String::new());
    while i < c.len() {
        if c[i] != '_' { out.push(c[i]); i += 1; continue; }
        match c.get(i + 1)? {
            'u' => { out.push('_'); i += 2; }
            'd' => { out.push('$'); i += 2; }
            'p' => { out.push('.'); i += 2; }
            'x' => { let h: String = c.get(i + 2..i + 10)?.iter().collect(); out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?); i += 10; }
            _ => return None,
        }
    }
    Some(out)
}
fn check_escape(s: &str) {
    let e = match catch(|| escape_non_identifier_chars(s)) { Ok(e) => e, Err(p) => { viol("escape", format!("{s:?}: {p}")); return; } };
    if unescape(&e).as_deref() != Some(s) { viol("escape", format!("{s:?} becomes {e:?}, which stands for {:?}", unescape(&e))); }
    let ok = e.chars().enumerate().all(|(i, c)| c == '_' || if i == 0 { unicode_ident::is_xid_start(c) } else { unicode_ident::is_xid_continue(c) });
    if !ok { viol("escape-invalid", format!("{s:?} becomes {e:?}, which is no identifier")); }
}
fn escapes(evals: &AtomicU64, distinct: &AtomicU64) {
    let alpha = ['a', 'u', 'd', 'p', 'x', '0', '_', '$', '.', 'é', ' ', '\u{301}', ':', '<', '\u{1F600}', '-'];
    let n = alpha.len() as u64;
    for len in 0..=if thorough() { 6 } else { 5 } {
        par(n.pow(len as u32), 1024, |i| {
            let s: String = digits(i, n, len).into_iter().map(|d| alpha[d]).collect();
            evals.fetch_add(1, Relaxed);
            distinct.fetch_add(1, Relaxed);
            check_escape(&s);
        });
    }
    par(0x110000, 4096, |c| if let Some(c) = char::from_u32(c as u32) { evals.fetch_add(3, Relaxed); check_escape(&format!("{c}")); check_escape(&format!("a{c}")); check_escape(&format!("{c}0{c}")); });
}

fn is_ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|f| f == '_' || unicode_ident::is_xid_start(f)) && c.all(unicode_ident::is_xid_continue)
}

fn words(evals: &AtomicU64) {
    let kw: BTreeSet<&str> = "alignas alignof and and_eq asm atomic_cancel atomic_commit atomic_noexcept auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public reflexpr register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch synchronized template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq".split(' ').collect();
    let macros: BTreeSet<&str> = include_str!("../std_macros.txt").lines().filter(|l| !l.is_empty()).collect();
    let rust: Vec<&str> = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union auto".split(' ').collect();
    let none = FlagSet::<CrubitFeature>::default();
    let mac: FlagSet<CrubitFeature> = CrubitFeature::ReserveStandardMacros.into();
    let full = FlagSet::<CrubitFeature>::full();
    let but = full - CrubitFeature::ReserveStandardMacros;
    let mut cand: BTreeSet<String> = BTreeSet::new();
    for w in kw.iter().chain(&macros).chain(&rust).copied().chain(["foo", "_", "__x", "café", "x1", "1x", "", "a b", "a-b", "a::b", "::a", "é", "0", "r#type", "co_", "x.0", "'a", "static_"]) {
        cand.insert(w.into());
        cand.insert(format!("{w}_"));
        cand.insert(format!("_{w}"));
        cand.insert(w.to_uppercase());
        if let Some((i, _)) = w.char_indices().last() { cand.insert(w[..i].into()); }
    }
    cand.retain(|w| w.trim() == w);
    for w in &cand {
        evals.fetch_add(1, Relaxed);
        let w = w.as_str();
        if is_cpp_reserved_keyword(w) != kw.contains(w) { viol("reserved", format!("{w}: is_cpp_reserved_keyword = {}", !kw.contains(w))); }
        for f in [none, mac, full, but] {
            let reserved = kw.contains(w) || (f.contains(CrubitFeature::ReserveStandardMacros) && macros.contains(w));
            if is_cpp_nonportable_word(w, f) != reserved { viol("nonportable", format!("{w} with {f:?}: {}", !reserved)); }
            let want = if reserved { format!("{w}_") } else { w.into() };
            let got = unkeyword_cpp_ident(w, f);
            if got != want { viol("unkeyword", format!("{w} with {f:?} becomes {got}")); }
            if is_cpp_nonportable_word(&got, f) && !is_cpp_nonportable_word(&want, f) { viol("unkeyword", format!("{w} becomes the reserved {got}")); }
            let got = catch(|| format_cc_ident(w, f).ok().map(|i| i.to_string()));
            let ok = !reserved && is_ident(w);
            match got { Ok(g) => if ok && g.as_deref() != Some(w) || reserved && g.is_some() || w.is_empty() && g.is_some() || g.as_ref().is_some_and(|g| g != w) { viol("format-ident", format!("{w:?} with {f:?} is formatted as {g:?}")); }, Err(p) => viol("format-ident", format!("{w:?}: {p}")) }
            let starts = w.chars().next().is_some_and(|c| c == '_' || c == ':' || unicode_ident::is_xid_start(c));
            if check_portable_cc_name(w, f).is_ok() != (!reserved && starts) { viol("portable-name", format!("{w:?} with {f:?}")); }
        }
        let starts = w.chars().next().is_some_and(|c| c == '_' || c == ':' || unicode_ident::is_xid_start(c));
        if check_valid_cc_name(w).is_ok() != (!kw.contains(w) && starts) { viol("valid-name", format!("{w:?}")); }
        let got = catch(|| format_nonportable_cc_ident(w).ok().map(|i| i.to_string()));
        match got { Ok(g) => if is_ident(w) && g.is_some() == kw.contains(w) || g.as_ref().is_some_and(|g| g != w) { viol("format-nonportable", format!("{w:?} is formatted as {g:?}")); }, Err(p) => viol("format-nonportable", format!("{w:?}: {p}")) }
        // Rust identifiers: the same name, raw where needed, or an error
        let hy = w.replace('-', "_");
        match catch(|| try_make_rs_ident(w).ok().map(|i| i.to_string())) {
            Err(p) => viol("rust-ident", format!("{w:?}: {p}")),
            Ok(g) => {
                let possible = (is_ident(&hy) && !matches!(hy.as_str(), "_" | "self" | "Self" | "super" | "crate")) || w.strip_prefix("r#").is_some_and(is_ident);
                match g {
                    None => if possible { viol("rust-ident", format!("{w:?} is rejected")); },
                    Some(g) => {
                        if g.strip_prefix("r#").unwrap_or(&g) != hy.strip_prefix("r#").unwrap_or(&hy) { viol("rust-ident", format!("{w:?} became {g}")); }
                        let strict = "as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen";
                        if strict.split(' ').any(|k| k == g) { viol("rust-ident", format!("{w:?} became the bare keyword {g}")); }
                        if !possible { viol("rust-ident", format!("{w:?} was accepted as {g}")); }
                    }
                }
            }
        }
    }
    for l in ["a", "_", "static", "type", "b2", "async"] {
        let g = make_rs_lifetime_ident(l).to_string();
        let ok = g == format!("'{l}") || g == format!("'r#{l}");
        if !ok || matches!(l, "_" | "static" | "a" | "b2") && g != format!("'{l}") { viol("lifetime", format!("{l} became {g}")); }
    }
}

fn namespaces(evals: &AtomicU64) {
    let parts = ["a", "class", "stdin", "Foo", "impl", "", "B2"];
    let none = FlagSet::<CrubitFeature>::default();
    for len in 0..=4usize { for i in 0..7u64.pow(len as u32) { for colons in [false, true] { for nest in 0..3 {
        evals.fetch_add(1, Relaxed);
        let p: Vec<&str> = digits(i, 7, len).into_iter().map(|d| parts[d]).collect();
        let mut q = NamespaceQualifier::new(p.iter().copied(), colons);
        let nested: Vec<&str> = ["In", "In<int>"][..nest].to_vec();
        for n in &nested { q.nested_records.push(("RsName".into(), (*n).into())); }
        let ok = p.iter().all(|x| !x.is_empty() && *x != "class");
        let want = if ok { Some(format!("{}{}", if colons { "::" } else { "" }, p.iter().chain(&nested).map(|x| format!("{x}::")).collect::<String>())) } else { None };
        let got = catch(|| q.format_for_cc(none).ok().map(|t| t.to_string().replace(' ', "")));
        if got != Ok(want.clone()) { viol("namespace", format!("{p:?} {nested:?}: {got:?}, expected {want:?}")); }
        if q.is_empty() != (p.is_empty() && nested.is_empty()) { viol("namespace", format!("{p:?} {nested:?}: is_empty")); }
        if q.parts().map(|x| x.to_string()).collect::<Vec<_>>() != p.iter().chain(&nested).map(|x| x.to_string()).collect::<Vec<_>>() { viol("namespace", format!("{p:?} {nested:?}: parts")); }
        if q.format_for_cc(CrubitFeature::ReserveStandardMacros.into()).is_ok() != (ok && !p.contains(&"stdin")) { viol("namespace", format!("{p:?}: reserved macros")); }
        if !p.contains(&"") {
            let want: String = p.iter().map(|x| if *x == "impl" { "r#impl::".into() } else { format!("{x}::") }).chain(nested.iter().map(|_| "rs_name::".into())).collect();
            let got = q.format_for_rs().to_string().replace(' ', "");
            if got != want { viol("namespace-rs", format!("{p:?}: {got}")); }
        }
    } } } }
    // include lines
    let fmt = |s| Format::<1>::parse_with_metavars(s, &["header"]).unwrap();
    for (inc, want) in [(CcInclude::from_path("<a/b.h>"), "__HASH_TOKEN__ include < a / b . h > __NEWLINE__"), (CcInclude::from_path("a/b.h"), "__HASH_TOKEN__ include \"a/b.h\" __NEWLINE__"), (CcInclude::from_path("<a"), "__HASH_TOKEN__ include \"<a\" __NEWLINE__"),
        (CcInclude::support_lib_header(fmt("<crubit/{header}>"), "x/y.h".into()), "__HASH_TOKEN__ include < crubit / x / y . h > __NEWLINE__"), (CcInclude::support_lib_header(fmt("\"s/{header}\""), "y.h".into()), "__HASH_TOKEN__ include \"s/y.h\" __NEWLINE__"),
        (CcInclude::exported_user_header("e.h".into()), "__HASH_TOKEN__ include \"e.h\" __COMMENT__ \"IWYU pragma: export\" __NEWLINE__")] {
        evals.fetch_add(1, Relaxed);
        let got = format_cc_includes(&BTreeSet::from([inc.clone()])).to_string();
        if got != want { viol("include", format!("{inc:?}: {got}")); }
    }
    let pool = [CcInclude::array(), CcInclude::utility(), CcInclude::cstdint(), CcInclude::user_header("a.h".into()), CcInclude::user_header("b.h".into()), CcInclude::exported_user_header("z.h".into())];
    for m in 0..64u32 { for perm in permutations(6) {
        evals.fetch_add(1, Relaxed);
        let order: Vec<usize> = perm.into_iter().filter(|i| m >> i & 1 == 1).collect();
        let set: BTreeSet<CcInclude> = order.iter().map(|&i| pool[i].clone()).collect();
        let t = format_cc_includes(&set).to_string();
        for i in 0..6 { let one = format_cc_includes(&BTreeSet::from([pool[i].clone()])).to_string(); let n = t.matches(&one).count(); if n != (m >> i & 1) as usize { viol("includes", format!("{set:?}: {t}")); } }
    } }
}

fn main() {
    quiet_panics();
    let (evals, distinct) = (AtomicU64::new(0), AtomicU64::new(0));
    formats(&evals, &distinct);
    escapes(&evals, &distinct);
    words(&evals);
    namespaces(&evals);
    sample(|| "format \"{{ {a }}}\" over [a, b]; symbol \"_x$.é\"; word co_await with standard macros reserved".into());
    stat("evaluations", evals.into_inner());
    stat("distinct_nontrivial", distinct.into_inner());
    finish()
}
