//! C39 (component part): every subset of options, every order, every spelling, repeated options,
//! and every short key-value text, through the real command line parser.
#![feature(rustc_private)]
extern crate rustc_driver;
use cc_bindings_from_rs_cmdline::Cmdline;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;

type Opt = (&'static str, &'static str);   // option, value ("" = flag)

/// What each field shows, as text.
fn view(c: &Cmdline) -> BTreeMap<&'static str, String> {
    let p = |x: &std::path::PathBuf| x.display().to_string();
    let kv = |v: &Vec<(String, String)>| v.iter().map(|(a, b)| format!("{a}\u{1}{b}")).collect::<Vec<_>>().join("\u{2}");
    let fl = |f: &flagset::FlagSet<crubit_feature::CrubitFeature>| f.into_iter().map(|x| x.short_name()).collect::<Vec<_>>().join("|");
    let kf = |v: &Vec<(String, flagset::FlagSet<crubit_feature::CrubitFeature>)>| v.iter().map(|(a, b)| format!("{a}\u{1}{}", fl(b))).collect::<Vec<_>>().join("\u{2}");
    BTreeMap::from([
        ("h-out", p(&c.h_out)), ("rs-out", p(&c.rs_out)), ("crubit-support-path-format", c.crubit_support_path_format.format(&["H"])),
        ("cpp-out", c.cpp_out.as_ref().map(p).unwrap_or_default()), ("h-out-include-guard", c.h_out_include_guard.clone().unwrap_or_default()),
        ("crubit-debug-path-format", c.crubit_debug_path_format.as_ref().map(|f| f.format(&["P", "L"])).unwrap_or_default()),
        ("clang-format-exe-path", c.clang_format_exe_path.as_ref().map(p).unwrap_or_default()),
        ("crate-header", kv(&c.crate_headers)), ("default-features", fl(&c.default_crate_features)), ("crate-feature", kf(&c.crate_features)), ("crate-disabled-feature", kf(&c.crate_disabled_features)),
        ("rustfmt-exe-path", c.rustfmt_exe_path.as_ref().map(p).unwrap_or_default()), ("rustfmt-config-path", c.rustfmt_config_path.as_ref().map(p).unwrap_or_default()),
        ("error-report-out", c.error_report_out.as_ref().map(p).unwrap_or_default()), ("is-golden-test", if c.is_golden_test { "1".into() } else { String::new() }),
        ("crate-namespace", kv(&c.crate_namespaces)), ("crate-rename", kv(&c.crate_rename)), ("extra-rs-srcs-include", c.extra_rs_srcs_includes.join("\u{2}")),
        ("source-crate-name", c.source_crate_name.clone().unwrap_or_default()), ("kythe-annotations", if c.kythe_annotations { "1".into() } else { String::new() }),
        ("portable-abi-compatible", if c.portable_abi_compatible { "1".into() } else { String::new() }), ("kythe-default-corpus", c.kythe_default_corpus.clone().unwrap_or_default()),
        ("target", c.target.clone().unwrap_or_default()), ("sysroot", c.sysroot.clone().unwrap_or_default()), ("extern", kv(&c.r#extern)), ("L", c.library_dirs.join("\u{2}")),
        ("enable-rmeta-interface", if c.enable_rmeta_interface { "1".into() } else { String::new() }), ("ignore-symbols-from-files", c.ignore_symbols_from_files.iter().map(p).collect::<Vec<_>>().join("\u{2}")),
        ("rustc", c.rustc_args.join("\u{2}")),
    ])
}

const MULTI: [&str; 9] = ["crate-header", "crate-feature", "crate-disabled-feature", "crate-namespace", "crate-rename", "extra-rs-srcs-include", "extern", "L", "ignore-symbols-from-files"];
const FLAGS: [&str; 3] = ["is-golden-test", "kythe-annotations", "portable-abi-compatible"];
const FEATURES: [&str; 20] = ["all", "supported", "wrapper", "types", "experimental", "assume_lifetimes", "assume_this_lifetimes", "no_assume_lifetimes", "unsafe_view", "check_default_initialized", "leading_colons_for_cpp_type", "template_instantiation", "layout_compat_tuple", "always_specialize_generics_in_cpp_api_from_rust", "record_impl_debug", "ctor_plain_values", "reserve_standard_macros", "thunkless_accessors", "oo_casting", "async_fn_send_modulo_regions"];

/// The documented meaning: what the option's field should show for one value.
fn value(o: &str, v: &str) -> Option<String> {
    let names = |l: Vec<&str>| -> Option<String> {
        let mut on: Vec<bool> = vec![false; 20];
        for n in l {
            let k = FEATURES.iter().position(|f| *f == n)?;
            if k == 0 { for (i, f) in FEATURES.iter().enumerate() { if i > 0 && !["no_assume_lifetimes", "layout_compat_tuple", "always_specialize_generics_in_cpp_api_from_rust", "oo_casting"].contains(f) { on[i] = true } } }
            on[k] = k > 0;
            if on[1] { on[3] = true }
        }
        let mut out: Vec<&str> = (1..20).filter(|&i| on[i]).map(|i| FEATURES[i]).collect();
        let order: Vec<&str> = flagset::FlagSet::<crubit_feature::CrubitFeature>::full().into_iter().map(|x| x.short_name()).collect();
        out.sort_by_key(|n| order.iter().position(|o| o == n));
        Some(out.join("|"))
    };
    match o {
        "crate-header" | "crate-namespace" | "crate-rename" | "extern" => { let (k, r) = v.split_once('=')?; (!k.is_empty() && !r.is_empty()).then(|| format!("{k}\u{1}{r}")) }
        "crate-feature" | "crate-disabled-feature" => { let (k, r) = v.split_once('=')?; if k.is_empty() { return None; } names(vec![r]).map(|n| format!("{k}\u{1}{n}")) }
        "default-features" => if v.is_empty() { Some(String::new()) } else { names(v.split(',').collect()) },
        "crubit-support-path-format" => (v.contains("{header}") || !v.contains(['{', '}'])).then(|| v.replace("{header}", "H")),
        "crubit-debug-path-format" => Some(v.replace("{path}", "P").replace("{line}", "L")),
        "is-golden-test" | "kythe-annotations" | "portable-abi-compatible" => Some("1".into()),
        "enable-rmeta-interface" => Some(if v == "false" { String::new() } else { "1".into() }),
        _ => Some(v.into()),
    }
}

fn expect(opts: &[Opt], rustc: &[&str]) -> Option<BTreeMap<&'static str, String>> {
    let mut m: BTreeMap<&'static str, String> = BTreeMap::new();
    for k in ["h-out", "rs-out", "crubit-support-path-format", "cpp-out", "h-out-include-guard", "crubit-debug-path-format", "clang-format-exe-path", "crate-header", "default-features", "crate-feature", "crate-disabled-feature", "rustfmt-exe-path", "rustfmt-config-path", "error-report-out", "is-golden-test", "crate-namespace", "crate-rename", "extra-rs-srcs-include", "source-crate-name", "kythe-annotations", "portable-abi-compatible", "target", "sysroot", "extern", "L", "ignore-symbols-from-files"] { m.insert(k, String::new()); }
    m.insert("kythe-default-corpus", "corpus".into());
    m.insert("enable-rmeta-interface", "1".into());
    m.insert("rustc", std::iter::once("exe").chain(rustc.iter().copied()).collect::<Vec<_>>().join("\u{2}"));
    let mut seen: Vec<&str> = vec![];
    for (o, v) in opts {
        let x = value(o, v)?;
        let multi = MULTI.contains(o);
        if !multi && seen.contains(o) { return None; }
        let e = m.get_mut(o).unwrap();
        if multi && seen.contains(o) { e.push('\u{2}'); e.push_str(&x); } else { *e = x; }
        seen.push(o);
    }
    ["h-out", "rs-out", "crubit-support-path-format"].iter().all(|r| seen.contains(r)).then_some(m)
}

fn args(opts: &[Opt], spelling: usize, rustc: &[&str], dashes: bool) -> Vec<String> {
    let mut a = vec!["exe".to_string()];
    for (n, (o, v)) in opts.iter().enumerate() {
        if *o == "L" { match (spelling + n) % 2 { 0 => { a.push("-L".into()); a.push((*v).into()); } _ => a.push(format!("-L{v}")) } continue; }
        if FLAGS.contains(o) { a.push(format!("--{o}")); continue; }
        if *o == "enable-rmeta-interface" { if v.is_empty() { a.push(format!("--{o}=true")) } else { a.push(format!("--{o}={v}")) } continue; }
        match (spelling + n) % 2 { 0 => a.push(format!("--{o}={v}")), _ => { a.push(format!("--{o}")); a.push((*v).into()); } }
    }
    if dashes { a.push("--".into()); a.extend(rustc.iter().map(|s| s.to_string())); }
    a
}

static EVALS: AtomicU64 = AtomicU64::new(0);
fn judge(opts: &[Opt], spelling: usize, rustc: &[&str]) {
    EVALS.fetch_add(1, Relaxed);
    let a = args(opts, spelling, rustc, !rustc.is_empty());
    let want = expect(opts, rustc);
    match catch(|| Cmdline::new(&a).map(|c| view(&c)).map_err(|e| e.to_string())) {
        Err(p) => viol("parser-panics", format!("{a:?}: {p}")),
        Ok(Ok(v)) => match want {
            None => viol("accepted", format!("{a:?} was accepted")),
            Some(w) => for (k, x) in &w { if v.get(k) != Some(x) { viol(&format!("option-{k}"), format!("{a:?}: {k} is {:?}, expected {x:?}", v.get(k))); } },
        },
        Ok(Err(e)) => if want.is_some() { viol("rejected", format!("{a:?}: {e}")); },
    }
}

fn main() {
    quiet_panics();
    let req: [Opt; 3] = [("h-out", "/o/x.h"), ("rs-out", "/o/x.rs"), ("crubit-support-path-format", "<c/{header}>")];
    // every subset of all options, in both spellings
    let pool: Vec<Opt> = vec![req[0], req[1], req[2], ("cpp-out", "c.cc"), ("h-out-include-guard", "G_H_"), ("crubit-debug-path-format", "{path}#{line}"), ("crate-header", "d=p/d.h"), ("default-features", "supported"), ("crate-feature", "self=experimental"), ("crate-disabled-feature", "d=types"), ("error-report-out", "e.json"), ("is-golden-test", ""), ("crate-namespace", "self=a::b"), ("crate-rename", "d=dd"), ("source-crate-name", "src"), ("kythe-annotations", ""), ("extern", "d=libd.rlib"), ("L", "dir")];
    par(1 << pool.len(), 256, |m| {
        let o: Vec<Opt> = pool.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, o)| *o).collect();
        // most subsets lack a required option: one in eight of those is enough
        if m & 7 != 7 && m % 64 > 7 { return; }
        judge(&o, (m >> 3) as usize, &[]);
        if m & 7 == 7 { stat("distinct_nontrivial", 1); }
    });
    // every pair of options in either order, twice the same included, with compiler arguments after them
    let more: Vec<Opt> = pool.iter().copied().skip(3).chain([("cpp-out", "d.cc"), ("clang-format-exe-path", "/bin/cf"), ("rustfmt-exe-path", "/bin/rf"), ("rustfmt-config-path", "rf.toml"), ("extra-rs-srcs-include", "x.h"), ("extra-rs-srcs-include", "y.h"), ("portable-abi-compatible", ""), ("kythe-default-corpus", "kc"), ("target", "t-t"), ("sysroot", "/sr"), ("enable-rmeta-interface", "false"), ("enable-rmeta-interface", "true"), ("ignore-symbols-from-files", "i.rs"), ("ignore-symbols-from-files", "j.rs"), ("crate-header", "d=q=r.h"), ("crate-header", "e=e.h"), ("crate-feature", "self=all"), ("crate-feature", "d=supported"), ("crate-disabled-feature", "self=experimental"), ("crate-namespace", "d=c"), ("crate-rename", "e=f"), ("extern", "e=libe.rlib"), ("L", "dependency=d2"), ("L", "d3"), ("default-features", "all,layout_compat_tuple"), ("default-features", ""), ("h-out", "/p/y.h"), ("rs-out", "/p/y.rs"), ("crubit-support-path-format", "\"{header}\"")]).collect();
    let n = more.len() as u64;
    let depth = if thorough() { 3 } else { 2 };
    for len in 0..=depth {
        par(n.pow(len as u32), 64, |i| {
            let o: Vec<Opt> = digits(i, n, len).into_iter().map(|d| more[d]).collect();
            let all: Vec<Opt> = req.iter().copied().chain(o.iter().copied()).collect();
            judge(&all, 0, &[]);
            judge(&all, 1, &["-Cpanic=abort", "--h-out=z", "x.rs"]);
            let back: Vec<Opt> = o.iter().copied().chain(req).collect();
            judge(&back, 0, &["a"]);
            stat("distinct_nontrivial", 1);
        });
    }
    for p in permutations(3) { let o: Vec<Opt> = p.into_iter().map(|i| req[i]).collect(); judge(&o, 0, &[]); judge(&o[..2], 0, &[]); judge(&o[..1], 1, &[]); judge(&[], 0, &[]); }
    // every short key-value text
    let alpha = ['a', 'b', '=', ':', ',', ' ', '/', '"'];
    for len in 0..=5usize {
        par(8u64.pow(len as u32), 64, |i| {
            let s: String = digits(i, 8, len).into_iter().map(|d| alpha[d]).collect();
            let s: &'static str = s.leak();
            for o in ["crate-header", "crate-namespace", "crate-rename", "extern", "crate-feature", "default-features"] {
                if len > 4 && o != "crate-header" && o != "extern" { continue; }
                judge(&[req[0], req[1], req[2], (o, s)], (o == "extern") as usize, &[]);
            }
            stat("distinct_nontrivial", 1);
        });
    }
    // feature lists
    let l: Vec<&str> = FEATURES.iter().copied().chain(["", "bogus", "Supported", " supported"]).collect();
    for len in 0..=3usize {
        par((l.len() as u64).pow(len as u32), 64, |i| {
            let ns: Vec<&str> = digits(i, l.len() as u64, len).into_iter().map(|d| l[d]).collect();
            let s: &'static str = ns.join(",").leak();
            if len < 3 { for o in ["crate-feature", "crate-disabled-feature"] { judge(&[req[0], req[1], req[2], (o, format!("k={s}").leak())], 0, &[]); } }
            judge(&[req[0], req[1], req[2], ("default-features", s)], 0, &[]);
            stat("distinct_nontrivial", 1);
        });
    }
    // path formats
    for s in ["{header}", "<{header}>", "{ header }", "{{{header}}}", "x", "{path}", "{header", "header}", "{}", "{{}}", "{header}{header}"] {
        let ok = matches!(s, "{header}" | "<{header}>" | "{ header }" | "{{{header}}}" | "x" | "{{}}" | "{header}{header}");
        let a = args(&[req[0], req[1], ("crubit-support-path-format", s.to_string().leak())], 0, &[], false);
        let r = Cmdline::new(&a);
        EVALS.fetch_add(1, Relaxed);
        if r.is_ok() != ok { viol("support-path-format", format!("{s:?}: accepted {}", r.is_ok())); }
        if let Ok(c) = r { let w = s.replace("{{", "\u{1}").replace("}}", "\u{2}").replace("\u{1}{header\u{2}}", "\u{1}H\u{2}").replace("{header}", "H").replace("{ header }", "H").replace('\u{1}', "{").replace('\u{2}', "}"); let g = c.crubit_support_path_format.format(&["H"]); if g != w { viol("support-path-format", format!("{s:?} gives {g:?}, expected {w:?}")); } }
    }
    for s in ["{path}:{line}", "{line}", "{path}", "x", "{header}", "{path", "{{{line}}}"] {
        let ok = !matches!(s, "{header}" | "{path");
        EVALS.fetch_add(1, Relaxed);
        if Cmdline::new(&args(&[req[0], req[1], req[2], ("crubit-debug-path-format", s.to_string().leak())], 0, &[], false)).is_ok() != ok { viol("debug-path-format", s); }
    }
    // arguments from a file mean the same as on the command line
    let dir = std::env::current_dir().unwrap().join("c39-argfiles");
    std::fs::create_dir_all(&dir).unwrap();
    for (n, o) in more.iter().enumerate() {
        EVALS.fetch_add(1, Relaxed);
        let all: Vec<Opt> = req.iter().copied().chain([*o]).collect();
        let direct = args(&all, 0, &["r"], true);
        let f = dir.join(format!("a{n}"));
        for cut in [1, direct.len() / 2] {
            std::fs::write(&f, direct[cut..].join("\n")).unwrap();
            let mut a: Vec<String> = direct[..cut].to_vec();
            a.push(format!("@{}", f.display()));
            let (x, y) = (Cmdline::new(&direct).map(|c| view(&c)).map_err(|e| e.to_string()), Cmdline::new(&a).map(|c| view(&c)).map_err(|e| e.to_string()));
            if x.is_ok() != y.is_ok() || x.is_ok() && x.as_ref().ok() != y.as_ref().ok() { viol("argument-file", format!("{direct:?} cut at {cut}: {x:?} / {y:?}")); }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    stat("evaluations", EVALS.load(Relaxed));
    sample(|| "--h-out=/o/x.h --rs-out /o/x.rs --crubit-support-path-format=<c/{header}> --crate-header=d=q=r.h -L dir -- --h-out=z".into());
    finish()
}
