//! C35 (component part): every feature name, every short string near one, every list of names up to
//! three and every subset of the features, through naming, parsing and conflict resolution.
use crubit_feature::*;
use flagset::FlagSet;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;

const NAMES: [&str; 19] = ["supported", "wrapper", "types", "experimental", "assume_lifetimes", "assume_this_lifetimes", "no_assume_lifetimes", "unsafe_view", "check_default_initialized", "leading_colons_for_cpp_type", "template_instantiation", "layout_compat_tuple", "always_specialize_generics_in_cpp_api_from_rust", "record_impl_debug", "ctor_plain_values", "reserve_standard_macros", "thunkless_accessors", "oo_casting", "async_fn_send_modulo_regions"];

fn feature(name: &str) -> CrubitFeature {
    use CrubitFeature::*;
    match name {
        "supported" => Supported, "wrapper" => Wrapper, "types" => Types, "experimental" => Experimental, "assume_lifetimes" => AssumeLifetimes,
        "assume_this_lifetimes" => AssumeThisLifetimes, "no_assume_lifetimes" => NoAssumeLifetimes, "unsafe_view" => UnsafeView, "check_default_initialized" => CheckDefaultInitialized,
        "leading_colons_for_cpp_type" => LeadingColonsForCppType, "template_instantiation" => TemplateInstantiation, "layout_compat_tuple" => LayoutCompatTuple,
        "always_specialize_generics_in_cpp_api_from_rust" => AlwaysSpecializeGenericsInCppApiFromRust, "record_impl_debug" => RecordImplDebug, "ctor_plain_values" => CtorPlainValues,
        "reserve_standard_macros" => ReserveStandardMacros, "thunkless_accessors" => ThunklessAccessors, "oo_casting" => OoCasting, "async_fn_send_modulo_regions" => AsyncFnSendModuloRegions,
        _ => unreachable!(),
    }
}

/// The documented meaning of a name, as a set of names.
fn meaning(name: &str) -> Option<BTreeSet<&'static str>> {
    if name == "all" { return Some(NAMES.into_iter().filter(|n| !["no_assume_lifetimes", "layout_compat_tuple", "always_specialize_generics_in_cpp_api_from_rust", "oo_casting"].contains(n)).collect()); }
    let n = NAMES.into_iter().find(|n| *n == name)?;
    Some(if n == "supported" { ["supported", "types"].into() } else { [n].into() })
}
fn to_names(f: FlagSet<CrubitFeature>) -> BTreeSet<&'static str> { f.into_iter().map(|x| x.short_name()).collect() }
fn resolve(mut s: BTreeSet<&'static str>) -> BTreeSet<&'static str> {
    if s.remove("no_assume_lifetimes") { s.remove("assume_lifetimes"); }
    s
}

fn main() {
    quiet_panics();
    let (evals, distinct) = (AtomicU64::new(0), AtomicU64::new(0));
    // every feature has its own name and hint, and every feature is covered
    let mut seen = BTreeMap::new();
    for f in FlagSet::<CrubitFeature>::full().into_iter() {
        if let Some(g) = seen.insert(f.short_name(), f) { viol("short-name", format!("{f:?} and {g:?} are both {}", f.short_name())); }
        if f.aspect_hint() != format!("//features:{}", f.short_name()) { viol("aspect-hint", format!("{f:?}: {} / {}", f.aspect_hint(), f.short_name())); }
    }
    if seen.len() != NAMES.len() { viol("short-name", format!("{} features, {} names", seen.len(), NAMES.len())); }
    for n in NAMES { if seen.get(n) != Some(&feature(n)) { viol("short-name", format!("{n} names {:?}", seen.get(n))); } }
    // names and their neighbours
    let mut near: BTreeSet<Vec<u8>> = BTreeSet::new();
    for n in NAMES.into_iter().chain(["all"]) {
        let b = n.as_bytes();
        near.insert(b.to_vec());
        near.insert(b.to_ascii_uppercase());
        for i in 0..=b.len() {
            near.insert(b[..i].to_vec());
            near.insert(b[i..].to_vec());
            for c in *b"_ -x,\0\xff" { let mut v = b.to_vec(); v.insert(i, c); near.insert(v); if i < b.len() { let mut v = b.to_vec(); v[i] = c; near.insert(v); } }
            if i < b.len() { let mut v = b.to_vec(); v.remove(i); near.insert(v); let mut v = b.to_vec(); v[i] = v[i].to_ascii_uppercase(); near.insert(v); }
            if i + 1 < b.len() { let mut v = b.to_vec(); v.swap(i, i + 1); near.insert(v); }
        }
        for m in NAMES { let mut v = b.to_vec(); v.extend(m.as_bytes()); near.insert(v); let mut v = b.to_vec(); v.push(b','); v.extend(m.as_bytes()); near.insert(v); }
    }
    for n in &near {
        evals.fetch_add(1, Relaxed);
        distinct.fetch_add(1, Relaxed);
        let want = std::str::from_utf8(n).ok().and_then(meaning);
        let got = named_features(n).map(to_names);
        if got != want { viol("named", format!("{:?} names {got:?}, expected {want:?}", String::from_utf8_lossy(n))); }
        if let Ok(s) = std::str::from_utf8(n) {
            let j = serde_json::to_string(&[s]).unwrap();
            let got = serde_json::from_str::<SerializedCrubitFeatures>(&j).ok().map(|x| to_names(x.0));
            if got != want.clone().map(resolve) { viol("parsed", format!("{j} parses to {got:?}")); }
            // the same name written with escapes
            let esc: String = s.chars().map(|c| format!("\\u{:04x}", c as u32)).collect();
            let got = serde_json::from_str::<SerializedCrubitFeatures>(&format!("[\"{esc}\"]")).ok().map(|x| to_names(x.0));
            if got != want.clone().map(resolve) { viol("parsed-escaped", format!("escaped {s:?} parses to {got:?}")); }
        }
    }
    // lists
    let words: Vec<&str> = NAMES.into_iter().chain(["all", "bogus"]).collect();
    let n = words.len() as u64;
    for len in 0..=if thorough() { 4 } else { 3 } {
        par(n.pow(len as u32), 256, |i| {
            let l: Vec<&str> = digits(i, n, len).into_iter().map(|d| words[d]).collect();
            evals.fetch_add(1, Relaxed);
            distinct.fetch_add(1, Relaxed);
            let want = l.iter().map(|x| meaning(x)).try_fold(BTreeSet::new(), |mut a, s| { a.extend(s?); Some(a) }).map(resolve);
            let got = serde_json::from_str::<SerializedCrubitFeatures>(&serde_json::to_string(&l).unwrap()).ok().map(|x| to_names(x.0));
            if got != want { viol("list", format!("{l:?} parses to {got:?}, expected {want:?}")); }
        });
    }
    for bad in ["\"supported\"", "{}", "[1]", "[null]", "[[\"supported\"]]", "null", "[\"supported\""] {
        if serde_json::from_str::<SerializedCrubitFeatures>(bad).is_ok() { viol("list", format!("{bad} was accepted")); }
    }
    // every subset
    par(1 << NAMES.len(), 1024, |m| {
        evals.fetch_add(1, Relaxed);
        distinct.fetch_add(1, Relaxed);
        let set: BTreeSet<&'static str> = NAMES.into_iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| n).collect();
        let flags = set.iter().fold(FlagSet::<CrubitFeature>::default(), |a, n| a | feature(n));
        if to_names(flags) != set { viol("subset", format!("{set:?} became {flags:?}")); }
        let got = to_names(SerializedCrubitFeatures::resolved(flags).0);
        if got != resolve(set.clone()) { viol("resolved", format!("{set:?} resolves to {got:?}")); }
        let mut implied = set.clone();
        if implied.contains("supported") { implied.insert("types"); }
        let got = serde_json::from_str::<SerializedCrubitFeatures>(&serde_json::to_string(&set).unwrap()).ok().map(|x| to_names(x.0));
        if got != Some(resolve(implied)) { viol("subset-parsed", format!("{set:?} parses to {got:?}")); }
    });
    sample(|| "[\"all\",\"no_assume_lifetimes\"]; every one of the 2^19 subsets; \"supportex\"".into());
    stat("evaluations", evals.into_inner());
    stat("distinct_nontrivial", distinct.into_inner());
    finish()
}
