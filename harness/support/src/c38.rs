//! C38: every request of up to n tokens, in every spelling and context, through the real collector and the real
//! resolver; the names found are compared with the requests written.
use ffi_types::FfiU8Slice;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;
static EVALS: AtomicU64 = AtomicU64::new(0);
static CASES: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Tok { W(&'static str), P(&'static str), L(&'static str), G(char, Vec<Tok>, char) }
use Tok::*;
fn word(t: &Tok) -> bool { matches!(t, W(_) | L(_)) }
/// renders with the separator `sep` wherever tokens meet; words are never glued
fn render(ts: &[Tok], sep: &str, out: &mut String) {
    for (i, t) in ts.iter().enumerate() {
        if i > 0 { if sep.is_empty() && word(&ts[i - 1]) && word(t) { out.push(' ') } else { out.push_str(sep) } }
        match t { W(s) | P(s) | L(s) => out.push_str(s), G(a, b, c) => { out.push(*a); out.push_str(sep); render(b, sep, out); out.push_str(sep); out.push(*c) } }
    }
}
fn text(ts: &[Tok], sep: &str) -> String { let mut s = String::new(); render(ts, sep, &mut s); s }
fn matches(name: &str, ts: &[Tok]) -> bool {
    // walks the name along the tokens: white space may stand between tokens and must stand between words
    fn go<'a>(mut s: &'a str, ts: &[Tok], first_space_needed: bool) -> Option<&'a str> {
        let mut need = first_space_needed;
        for (i, t) in ts.iter().enumerate() {
            let r = s.trim_start();
            if need && r.len() == s.len() { return None; }
            s = match t { W(x) | P(x) | L(x) => r.strip_prefix(*x)?, G(a, b, c) => go(r.strip_prefix(*a)?, b, false)?.trim_start().strip_prefix(*c)? };
            need = word(t) && ts.get(i + 1).is_some_and(word);
        }
        Some(s)
    }
    go(name, ts, false).is_some_and(|r| r.trim_start().is_empty())
}
fn collect(files: &[std::path::PathBuf]) -> Vec<String> {
    let j = serde_json::to_string(files).unwrap();
    let b = unsafe { rs_bindings_from_cc_collect_instantiations::CollectInstantiationsImpl(FfiU8Slice::from_slice(j.as_bytes())).into_boxed_slice() };
    serde_json::from_slice(&b).unwrap()
}
fn tmp(name: &str, content: &str) -> std::path::PathBuf {
    let p = std::env::current_dir().unwrap().join("c38").join(format!("{:?}-{name}", std::thread::current().id()).replace(['(', ')'], "")); std::fs::write(&p, content).unwrap(); p
}
fn find(content: &str) -> Vec<String> { EVALS.fetch_add(1, Relaxed); collect(&[tmp("f.rs", content)]) }

const CONTEXTS: [&str; 26] = [
    "@", "fn f(x: @) {}", "fn f() -> @ { todo!() }", "let x: Vec<@> = y;", "type T = [@; 3];", "<@>::new()", "struct S { a: @, b: u8 }", "struct S(@);", "impl Tr for @ {}",
    "mod a { mod b { fn f() { { [(@)] } } } }", "m!(@)", "m![a, @, b]", "m!{ fn f() -> @ {} }", "#[attr(@)] fn f() {}", "#![attr(@)]", "fn f<T: Into<@>>() {}", "let x = a as @;", "cc_template_other!(@)",
    "x::@", "&mut @", "(@,)", "a! @", "cc_template @", "! @", "macro_rules! m { ($x:ident) => { @ } }", "/* c */ @ // c",
];
const SILENT: [&str; 14] = ["", "fn cc_template() {}", "cc_template;", "cc_template!;", "cc_template! x", "cc_template(A)", "cc_template_2!(A<int>)", "my_cc_template!(A<int>)", "\"cc_template!(A<int>)\"", "// cc_template!(A<int>)",
    "/* cc_template!(A<int>) */", "/// cc_template!(A<int>)\nfn f() {}", "b\"cc_template!(A)\"; r#\"cc_template!(A)\"#; 'c'", "CC_TEMPLATE!(A<int>); Cc_template!(B)"];

fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 { println!("{:?}", collect(&[args[2].clone().into()])); return; }
    std::fs::create_dir_all("c38").unwrap();
    let th = thorough();
    let alphabet: Vec<Tok> = vec![W("A"), W("AB"), W("unsigned"), W("int"), P("::"), P("<"), P(">"), P(","), P("*"), P("&"), L("1"), L("\"a b\""), L("\"ab\""), L("'c'"), L("3.5"), W("_"),
        G('(', vec![W("int"), P("*")], ')'), G('[', vec![L("2")], ']')];
    let depth = if th { 4 } else { 3 };
    let names: Mutex<BTreeMap<String, Vec<Tok>>> = Mutex::new(BTreeMap::new());
    let conf = tmp("conf.json", "{}");
    let _ = conf;
    // punctuation that would lex differently when glued is not generated next to one another, except for "::" and ">" pairs
    let ok = |ts: &[Tok]| ts.windows(2).all(|w| match (&w[0], &w[1]) { (P(a), P(b)) => matches!((*a, *b), (">", ">") | (">", ",") | (",", "<") | ("*", ">") | ("*", ",") | ("&", ">") | ("&", ",") | (">", "::") | (",", "::") | ("<", "::") | ("*", "*") | (">", "*") | (">", "&")),
        (L(a), P("::")) => !a.starts_with('3'), (W("_"), L(_)) | (L(_), W(_)) => true, _ => true });
    // 1. every sequence: all spellings give one name, which reads back as the request, and no two sequences share it
    for d in 1..=depth {
        par((alphabet.len() as u64).pow(d as u32), 16, |i| {
            let ts: Vec<Tok> = digits(i, alphabet.len() as u64, d).into_iter().map(|k| alphabet[k].clone()).collect();
            if !ok(&ts) { return; }
            CASES.fetch_add(1, Relaxed);
            let body: String = ["", " ", "\n", "\t", "/* c */", " // c\n"].iter().zip(["()", "[]", "{}", "()", "[]", "{}"]).map(|(s, b)| format!("cc_template!{s}{}{s}{}{s}{};\n", &b[..1], text(&ts, s), &b[1..])).collect();
            let r = find(&body);
            let [name] = &r[..] else { viol("spelling-changes-name", format!("the spellings\n{body}gave {r:?}")); return };
            if !matches(name, &ts) { viol("name-differs-from-request", format!("{:?} is named {name:?}", text(&ts, " "))); }
            if let Some(other) = names.lock().unwrap().insert(name.clone(), ts.clone()) { viol("different-requests-share-name", format!("{:?} and {:?} are both named {name:?}", text(&ts, " "), text(&other, " "))); }
        });
    }
    let names = names.into_inner().unwrap();
    stat("requests", names.len() as u64);
    // 2. contexts: exactly the requests, wherever they are, in files of any number, each once and in one order
    let reqs: Vec<(&str, &str)> = vec![("A<int>", "A<int>"), ("std::vector<Foo>", "std::vector<Foo>"), ("B<(int),'x',\"cc_template!(Q)\">", "B<(int),'x',\"cc_template!(Q)\">")];
    let calls = |r: &str| [format!("cc_template!({r})"), format!("cc_template![{r}]"), format!("cc_template!{{{r}}}"), format!("cc_template ! ( {r} )")];
    let sorted = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
    for c in SILENT { CASES.fetch_add(1, Relaxed); let r = find(c); if !r.is_empty() { viol("found-without-request", format!("{c:?}: {r:?}")); } }
    par(CONTEXTS.len() as u64, 1, |i| { let i = i as usize; let c = CONTEXTS[i]; for (q, n) in &reqs { for call in calls(q) {
        CASES.fetch_add(1, Relaxed);
        let t = c.replace('@', &call);
        let r = find(&t);
        if r != sorted(&[n]) { viol("request-in-context", format!("{t:?}: found {r:?}")); }
        for c2 in CONTEXTS { for s in SILENT {
            // a second and a third item in the same file and in another file
            let (q2, n2) = &reqs[(i + 1) % 3];
            let u = c2.replace('@', &calls(q2)[i % 4]);
            CASES.fetch_add(1, Relaxed);
            let r = find(&format!("{t}\n;{s}\n;{u}"));
            if r != sorted(&[n, n2]) { viol("requests-in-contexts", format!("{t}\n;{s}\n;{u}: found {r:?}")); }
            if s.len() < 10 {
                let (a, b, e) = (tmp("a.rs", &t), tmp("b.rs", &u), tmp("c.rs", s));
                for fs in [vec![a.clone(), b.clone()], vec![b.clone(), a.clone()], vec![e.clone(), a.clone(), b.clone(), a.clone()], vec![b.clone(), e, b, a]] {
                    EVALS.fetch_add(1, Relaxed);
                    let r = collect(&fs);
                    if r != sorted(&[n, n2]) { viol("requests-in-files", format!("{t} and {u}: found {r:?}")); }
                }
            }
        } }
    } } });
    // nested contexts and nested requests
    for c in CONTEXTS { for c2 in CONTEXTS { if !c.contains("//") && !c2.contains("//") {
        let t = c.replace('@', &format!("(({}))", c2.replace('@', "cc_template!(A<int>)")));
        CASES.fetch_add(1, Relaxed);
        let r = find(&t); if r != ["A<int>"] { viol("nested-context", format!("{t}: {r:?}")); }
    } } }
    let r = find("cc_template!(A<cc_template!(B<int>)>)");
    if r.len() != 2 || !r.contains(&"B<int>".to_string()) { viol("nested-request", format!("{r:?}")); }
    for n in 0..40usize { // many requests, sorted and each once
        let all: Vec<String> = (0..n).map(|i| format!("T{}<int>", (i * 7) % n.max(1))).collect();
        let t: String = all.iter().chain(all.iter()).map(|a| format!("fn f() -> cc_template!({a}) {{}}\n")).collect();
        let r = find(&t); let e = sorted(&all.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        if r != e { viol("many-requests", format!("{n} requests: {r:?}")); }
    }
    // 3. resolution: exactly the configured names, to exactly the configured type
    let path = tmp("config.json", "");
    unsafe { std::env::set_var("CRUBIT_INSTANTIATIONS_FILE", &path) };
    let keys: Vec<&String> = names.keys().collect();
    let mut seqs: Vec<(&String, &Vec<Tok>)> = names.iter().collect();
    seqs.retain(|(_, t)| t.len() <= 2 || fnv(format!("{t:?}").as_bytes()) % if th { 8 } else { 64 } == 0 );
    let conf: BTreeMap<&String, String> = keys.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(i, k)| (*k, format!("__Inst{i}"))).collect();
    let small: Vec<_> = seqs.iter().map(|(n, t)| (*n, *t, conf.get(*n))).collect();
    let conf: BTreeMap<&String, &String> = small.iter().filter_map(|(n, _, c)| c.map(|c| (*n, c))).collect();
    std::fs::write(&path, serde_json::to_string(&conf).unwrap()).unwrap();
    for (n, t, c) in &small { for sep in ["", " ", "\n", " /* c */ "] {
        EVALS.fetch_add(1, Relaxed);
        let tokens: proc_macro2::TokenStream = text(t, sep).parse().unwrap();
        let r = cc_template_impl::to_private_struct_path(tokens).map(|t| t.to_string().replace(' ', ""));
        match (r, c) {
            (Ok(r), Some(c)) if r == format!("__cc_template_instantiations_rs_api::{c}") => {}
            (Err(_), None) => {}
            (r, c) => viol("resolution", format!("{:?} (named {n:?}) resolved to {:?}, configured: {c:?}", text(t, sep), r.map_err(|e| e.to_string()))),
        }
    } CASES.fetch_add(1, Relaxed); }
    stat("resolved_requests", small.len() as u64);
    let req: proc_macro2::TokenStream = "A<int>".parse().unwrap();
    let tries = [("missing", None, false), ("not json", Some("{"), false), ("empty file", Some(""), false), ("a list", Some("[]"), false), ("number value", Some("{\"A<int>\": 1}"), false), ("not an identifier", Some("{\"A<int>\": \"a b\"}"), false),
        ("other key", Some("{\"A<long>\": \"x\"}"), false), ("prefix key", Some("{\"A<int\": \"x\", \"A\": \"y\"}"), false), ("empty map", Some("{}"), false), ("fine", Some("{\"A<long>\": \"y\", \"A<int>\": \"x\"}"), true)];
    for (what, c, ok) in tries {
        EVALS.fetch_add(1, Relaxed);
        match c { Some(c) => std::fs::write(&path, c).unwrap(), None => std::fs::remove_file(&path).unwrap() }
        let r = cc_template_impl::to_private_struct_path(req.clone()).map(|t| t.to_string().replace(' ', ""));
        if r.is_ok() != ok || r.is_ok_and(|r| r != "__cc_template_instantiations_rs_api::x") { viol("configuration", format!("{what}")); }
    }
    unsafe { std::env::remove_var("CRUBIT_INSTANTIATIONS_FILE") };
    if cc_template_impl::to_private_struct_path(req).is_ok() { viol("configuration", "no configuration file is named"); }
    // 4. a file that is missing or does not lex is an error: the process ends without a result
    let exe = std::env::current_exe().unwrap();
    let good = tmp("good.rs", "cc_template!(A<int>)");
    for (what, p) in [("missing file", "c38/does-not-exist.rs".into()), ("unbalanced", tmp("bad.rs", "cc_template!(A<int>")), ("not UTF-8", { let p = tmp("bad2.rs", ""); std::fs::write(&p, b"cc_template!(A); \xff").unwrap(); p })] as [(&str, std::path::PathBuf); 3] {
        EVALS.fetch_add(1, Relaxed);
        let o = std::process::Command::new(&exe).arg("--one").arg(&p).output().unwrap();
        if o.status.success() || !o.stdout.is_empty() { viol("broken-input-accepted", what); }
    }
    let o = std::process::Command::new(&exe).arg("--one").arg(&good).output().unwrap();
    if String::from_utf8_lossy(&o.stdout) != "[\"A<int>\"]\n" { viol("request-in-context", "a single file in a process of its own"); }
    sample(|| "cc_template!( unsigned int ) and cc_template!(unsignedint)".into());
    sample(|| CONTEXTS[12].replace('@', "cc_template![std::vector<Foo>]"));
    stat("evaluations", EVALS.load(Relaxed)); stat("distinct_nontrivial", CASES.load(Relaxed));
    std::fs::remove_dir_all("c38").unwrap();
    finish()
}
