//! C32: every token sequence up to a length over one representative of each adjacency class is
//! printed and lexed back; every comment and literal text up to a length over the special
//! characters is printed and read back by a small C++ comment scanner; every arrangement of
//! captures is checked against positions computed independently.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use token_stream_printer::*;
use vmc::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Id(&'static str), Lit(&'static str), Colon, Path, P(char), Eq2, Arrow, NL, SP, HASH, Par, Brk, Brc, Cap, CapE, Com }
use K::*;

fn push(v: &mut Vec<TokenTree>, k: K) {
    let id = |s: &str| TokenTree::Ident(if let Some(r) = s.strip_prefix("r#") { Ident::new_raw(r, Span::call_site()) } else { Ident::new(s, Span::call_site()) });
    let p = |c, s| TokenTree::Punct(Punct::new(c, s));
    let grp = |d| { let mut inner = vec![]; push(&mut inner, Id("in")); push(&mut inner, Colon); push(&mut inner, Id("y")); TokenTree::Group(Group::new(d, inner.into_iter().collect())) };
    match k {
        Id(s) => v.push(id(s)),
        Lit(s) => v.push(TokenTree::Literal(s.parse::<Literal>().unwrap())),
        Colon => v.push(p(':', Spacing::Alone)),
        Path => { v.push(p(':', Spacing::Joint)); v.push(p(':', Spacing::Alone)) }
        P(c) => v.push(p(c, Spacing::Alone)),
        Eq2 => { v.push(p('=', Spacing::Joint)); v.push(p('=', Spacing::Alone)) }
        Arrow => { v.push(p('-', Spacing::Joint)); v.push(p('>', Spacing::Alone)) }
        NL => v.push(id("__NEWLINE__")), SP => v.push(id("__SPACE__")), HASH => v.push(id("__HASH_TOKEN__")),
        Par => v.push(grp(Delimiter::Parenthesis)), Brk => v.push(grp(Delimiter::Bracket)), Brc => v.push(grp(Delimiter::Brace)),
        Cap => v.push(id("__CAPTURE_BEGIN__")), CapE => v.push(id("__CAPTURE_END__")),
        Com => { v.push(id("__COMMENT__")); v.push(TokenTree::Literal(Literal::string("x\"y\n__NEWLINE__ \\ z \"q\""))) }
    }
}

/// Flat words: identifiers, literals, delimiters, `::` and `:` as units, other punctuation by character.
fn words(ts: TokenStream, out: &mut Vec<String>) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                match s.as_str() {
                    "__NEWLINE__" | "__SPACE__" | "__CAPTURE_BEGIN__" | "__CAPTURE_END__" => {}
                    "__HASH_TOKEN__" => out.push("#".into()),
                    "__COMMENT__" => { it.next(); }
                    _ => out.push(s),
                }
            }
            TokenTree::Literal(l) => out.push(l.to_string()),
            TokenTree::Punct(p) if p.as_char() == ':' => {
                let joint = p.spacing() == Spacing::Joint && matches!(it.peek(), Some(TokenTree::Punct(q)) if q.as_char() == ':');
                if joint { it.next(); out.push("::".into()); } else { out.push(":".into()); }
            }
            TokenTree::Punct(p) => out.push(p.as_char().to_string()),
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{", "}"), Delimiter::None => ("", "") };
                out.push(o.into());
                words(g.stream(), out);
                out.push(c.into());
            }
        }
    }
}

/// C++ view of the text: joins continued lines and removes `//` comments (outside of literals the
/// checked texts contain no other comment forms).
fn cc_strip(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut joined = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\\' {
            let mut j = i + 1;
            while j < b.len() && matches!(b[j], ' ' | '\t' | '\u{b}' | '\u{c}') { j += 1; }
            if j < b.len() && (b[j] == '\n' || b[j] == '\r') { i = j + 1; continue; }
        }
        joined.push(b[i]);
        i += 1;
    }
    let mut out = String::new();
    for line in joined.split(['\n', '\r']) {
        let mut cut = line.len();
        let (mut q, mut esc) = (false, false);
        let cs: Vec<(usize, char)> = line.char_indices().collect();
        for (n, &(at, c)) in cs.iter().enumerate() {
            if q { if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { q = false } }
            else if c == '"' { q = true }
            else if c == '/' && cs.get(n + 1).map(|x| x.1) == Some('/') { cut = at; break; }
        }
        out.push_str(&line[..cut]);
        out.push('\n');
    }
    out
}

fn sequences(runs: &AtomicU64, distinct: &AtomicU64) {
    let alpha = [Id("a"), Id("fn"), Id("r#type"), Lit("1"), Lit("2.5f32"), Lit("\"q\\\"//\\\\\""), Lit("'c'"), Colon, Path, P(','), P(';'), P('&'), P('*'), P('<'), P('='), Eq2, Arrow, NL, SP, HASH, Par, Brk, Brc, Cap, CapE, Com];
    let n = alpha.len() as u64;
    let maxlen = if thorough() { 5 } else { 4 };
    for len in 1..=maxlen {
        par(n.pow(len as u32), 256, |i| {
            let ks: Vec<K> = digits(i, n, len).into_iter().map(|d| alpha[d]).collect();
            // `#` is written for C++ preprocessor lines and may legitimately stand before anything
            // but glue to a following string or identifier only as Rust raw syntax would
            let mut v = vec![];
            for &k in &ks { push(&mut v, k); }
            let ts: TokenStream = v.into_iter().collect();
            runs.fetch_add(1, Relaxed);
            let text = match catch(|| tokens_to_string(ts.clone())) { Ok(Ok(t)) => t, e => { viol("print", format!("{ks:?}: {e:?}")); return; } };
            let mut want = vec![];
            words(ts.clone(), &mut want);
            if ks.contains(&Com) {
                // comments must vanish as whole lines in both languages
                let back: Result<TokenStream, _> = text.parse();
                let mut got = vec![];
                match back { Ok(b) => words(b, &mut got), Err(e) => { viol("lex", format!("{ks:?} prints {text:?} which does not lex: {e}")); return; } }
                if got != want { viol("roundtrip", format!("{ks:?} prints {text:?} which lexes to {got:?}, not {want:?}")); }
                let cc = cc_strip(&text);
                let mut got = vec![];
                match cc.parse::<TokenStream>() { Ok(b) => words(b, &mut got), Err(e) => { viol("lex-cc", format!("{ks:?} prints {text:?}, as C++ {cc:?}: {e}")); return; } }
                if got != want { viol("roundtrip-cc", format!("{ks:?} prints {text:?} which C++ reads as {got:?}, not {want:?}")); }
            } else {
                let mut got = vec![];
                match text.parse::<TokenStream>() { Ok(b) => words(b, &mut got), Err(e) => { viol("lex", format!("{ks:?} prints {text:?} which does not lex: {e}")); return; } }
                if got != want { viol("roundtrip", format!("{ks:?} prints {text:?} which lexes to {got:?}, not {want:?}")); }
            }
            // line structure: as many line breaks as asked for
            let nl = ks.iter().map(|k| match k { NL => 1, Com => 2, _ => 0 }).sum::<usize>();
            if text.matches('\n').count() != nl { viol("newlines", format!("{ks:?} prints {text:?}")); }
            if ks.contains(&SP) && !text.contains(' ') { viol("space", format!("{ks:?} prints {text:?}")); }
            // the other entry points give the same text
            let mut s2 = String::new();
            write_unformatted_tokens(&mut s2, ts.clone()).unwrap();
            let cc = cc_tokens_to_formatted_string(ts.clone(), None).unwrap();
            let rs = rs_tokens_to_formatted_string(ts, None).unwrap();
            if s2 != text || cc != text || rs != text { viol("entry-points", format!("{ks:?}: {text:?} {s2:?} {cc:?} {rs:?}")); }
            if ks.iter().any(|k| !matches!(k, NL | SP | Cap | CapE)) { distinct.fetch_add(1, Relaxed); }
        });
    }
}

fn texts(runs: &AtomicU64, distinct: &AtomicU64) {
    let alpha = ['a', '"', '\\', '\n', '\t', '\r', '\0', 'é', '\u{301}', '\u{1F600}', '/', '\'', 'n', '{', ' ', '#'];
    let n = alpha.len() as u64;
    let maxlen = if thorough() { 5 } else { 4 };
    for len in 0..=maxlen {
        par(n.pow(len as u32), 256, |i| {
            let t: String = digits(i, n, len).into_iter().map(|d| alpha[d]).collect();
            let id = |s: &str| TokenTree::Ident(Ident::new(s, Span::call_site()));
            runs.fetch_add(2, Relaxed);
            distinct.fetch_add(1, Relaxed);
            let mk = |m: &str, l: Literal| -> TokenStream { [id(m), TokenTree::Literal(l), id("NEXT")].into_iter().collect() };
            let mut lits = vec![Literal::string(&t)];
            if len <= 3 {
                // every other spelling of the same text
                for s in [format!("r##\"{t}\"##"), format!("\"{}\"", t.escape_default()), format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\""))] {
                    if t.contains('\r') && (s.starts_with('r') || s.contains('\r')) { continue; }
                    if let Ok(l) = s.parse::<Literal>() { lits.push(l); }
                }
            }
            for l in lits {
                let spelled = l.to_string();
                let want: Vec<String> = t.split('\n').map(|l| format!("// {}", l.chars().map(|c| if c.is_control() && c != '\t' { c.escape_default().to_string() } else { c.to_string() }).collect::<String>())).collect();
                match catch(|| tokens_to_string(mk("__COMMENT__", l.clone()))) {
                    Ok(Ok(s)) => {
                        let body = s.strip_suffix("NEXT");
                        let lines: Option<Vec<&str>> = body.and_then(|b| b.strip_suffix('\n')).map(|b| b.split('\n').collect());
                        match lines {
                            Some(mut ls) => {
                                while ls.len() > want.len() && ls.last().unwrap().trim_end() == "//" { ls.pop(); }
                                if ls.len() != want.len() || ls.iter().zip(&want).any(|(a, b)| a.trim_end_matches([' ', '\t']) != b.trim_end_matches([' ', '\t'])) { viol("comment", format!("comment text {t:?} spelled {spelled} prints {s:?}")); }
                            }
                            None => viol("comment", format!("comment text {t:?} spelled {spelled} prints {s:?}")),
                        }
                        if cc_strip(&s).trim() != "NEXT" { viol("comment-cc", format!("comment text {t:?} prints {s:?}: C++ reads {:?} after it", cc_strip(&s).trim())); }
                    }
                    e => viol("comment", format!("comment text {t:?}: {e:?}")),
                }
                match catch(|| tokens_to_string(mk("__LITERALLY__", l.clone()))) {
                    Ok(Ok(s)) => if s != format!("{t}\nNEXT") { viol("literally", format!("literal text {t:?} spelled {spelled} prints {s:?}")); },
                    e => viol("literally", format!("literal text {t:?}: {e:?}")),
                }
                // an ordinary string literal stays the literal it is
                let ts: TokenStream = [id("x"), TokenTree::Literal(l.clone()), id("y")].into_iter().collect();
                match catch(|| tokens_to_string(ts)) {
                    Ok(Ok(s)) => if s != format!("x {spelled} y") { viol("string", format!("{spelled} prints {s:?}")); },
                    e => viol("string", format!("{spelled}: {e:?}")),
                }
                // provenance fields carry arbitrary paths
                let mut v = vec![id("__CAPTURE_TAG__"), TokenTree::Literal(l), TokenTree::Literal(Literal::string("3")), TokenTree::Literal(Literal::string("9"))];
                v.extend([id("__CAPTURE_BEGIN__"), id("tok"), id("__CAPTURE_END__")]);
                match catch(|| tokens_to_string_with_provenance(v.into_iter().collect())) {
                    Ok(Ok((_, m))) => { let e = m.get(&1); if e.is_none_or(|e| e.original_path != t || e.original_start != "3" || e.original_end != "9") { viol("provenance-path", format!("path {t:?} spelled {spelled} is recorded as {e:?}")); } }
                    e => viol("provenance-path", format!("{t:?}: {e:?}")),
                }
            }
        });
    }
    for bad in ["__COMMENT__", "__COMMENT__ x", "__LITERALLY__", "__LITERALLY__ ( \"a\" )", "__CAPTURE_TAG__", "__CAPTURE_TAG__ \"a\" \"b\"", "__CAPTURE_TAG__ \"a\" \"b\" c", "{ __COMMENT__ }"] {
        if tokens_to_string(bad.parse().unwrap()).is_ok() { viol("malformed", format!("{bad} was accepted")); }
    }
}

/// Captured tokens are found again at their own position, whatever equal text surrounds them and
/// however a formatter changes white space.
fn captures(runs: &AtomicU64, distinct: &AtomicU64) {
    #[derive(Clone, Copy, PartialEq)]
    enum Step { Tag, Cap(usize), Noise(usize) }
    let toks = ["b", "bb", "class"];
    let steps: Vec<Step> = std::iter::once(Step::Tag).chain((0..2).map(Step::Cap)).chain((0..3).map(Step::Noise)).collect();
    let n = steps.len() as u64;
    let maxlen = if thorough() { 8 } else { 7 };
    for len in 1..=maxlen {
        par(n.pow(len as u32), 256, |i| {
            let st: Vec<Step> = digits(i, n, len).into_iter().map(|d| steps[d]).collect();
            if !st.contains(&Step::Tag) || !st.iter().any(|s| matches!(s, Step::Cap(_))) { return; }
            runs.fetch_add(1, Relaxed);
            distinct.fetch_add(1, Relaxed);
            let mut src = String::new();
            let mut plain: Vec<(String, Option<usize>)> = vec![];   // (word, tag it is captured for)
            let mut tag = 0usize;
            let mut last = vec![None; len + 1];   // tag -> word index of its capture
            for s in &st {
                match s {
                    Step::Tag => { tag += 1; src += &format!(" __CAPTURE_TAG__ \"p{tag}\" \"{}\" \"{}\" __COMMENT__ \"Generated from: f{tag}\" ", tag * 10, tag * 10 + 1); plain.push((format!("// Generated from: f{tag}\n"), None)); }
                    Step::Cap(k) => { src += &format!(" __CAPTURE_BEGIN__ {} __CAPTURE_END__ ", toks[*k]); if tag > 0 { last[tag] = Some(plain.len()); } plain.push((toks[*k].into(), Some(tag))); }
                    Step::Noise(k) => { src += toks[*k]; src += " ; "; plain.push((format!("{} ;", toks[*k]), None)); }
                }
            }
            let r = catch(|| tokens_to_string_with_provenance(src.parse().unwrap()).unwrap());
            let (text, map) = match r { Ok(x) => x, Err(e) => { viol("capture", format!("{src}: {e}")); return; } };
            // independent positions: walk the printed text word by word
            let find_all = |text: &str| -> Vec<(usize, usize)> {
                let mut at = 0;
                plain.iter().map(|(w, _)| {
                    let mut start = None;
                    for part in w.split_whitespace() {
                        while text[at..].starts_with(char::is_whitespace) { at += text[at..].chars().next().unwrap().len_utf8(); }
                        assert!(text[at..].starts_with(part), "{text:?} at {at}: {part}");
                        start.get_or_insert(at);
                        at += part.len();
                    }
                    (start.unwrap(), at)
                }).collect()
            };
            let fmts: [&dyn Fn(&str) -> String; 3] = [&|t| t.to_string(), &|t| t.replace(" ;", ";\n    ").replace(';', " ;\n"), &|t| format!("\n\n  {}", t.replace('\n', "\n\n      "))];
            for (fi, f) in fmts.iter().enumerate() {
                let ft = f(&text);
                let pos = match catch(|| find_all(&ft)) { Ok(p) => p, Err(e) => { viol("capture-text", format!("{src} prints {text:?}: {e}")); return; } };
                let fixed = match catch(|| fix_provenance_map_postformatting(&ft, "// Generated from:", &map)) { Ok(x) => x, Err(e) => { viol("capture", format!("{src}: {e}")); return; } };
                for t in 1..=tag {
                    match (last[t], fixed.get(&t)) {
                        (None, None) => {}
                        (Some(w), Some(e)) => if (e.formatted_start, e.formatted_end) != pos[w] || e.original_path != format!("p{t}") || e.original_start != (t * 10).to_string() || e.original_end != (t * 10 + 1).to_string() {
                            viol("capture-position", format!("{src} formatted as {ft:?}: tag {t} is at {:?} but recorded as {e:?} ({fi})", pos[w]));
                        },
                        (w, e) => viol("capture-missing", format!("{src} formatted as {ft:?}: tag {t}: expected word {w:?}, recorded {e:?}")),
                    }
                }
                if fixed.len() != last.iter().flatten().count() { viol("capture-extra", format!("{src}: {fixed:?}")); }
                // the metadata that is written refers to the same text
                if fi == 0 && len <= 5 {
                    use base64::Engine as _;
                    let out = kythe_metadata::cc_embed_provenance_map(&map, "corp", ft.clone());
                    let tail = out.strip_prefix(&format!("{ft}\n// This file contains Kythe metadata. "));
                    let ok = tail.and_then(|t| base64::prelude::BASE64_STANDARD.decode(t.trim_end()).ok()).and_then(|j| serde_json::from_slice::<kythe_metadata::KytheMetadata>(&j).ok());
                    match ok {
                        None => viol("metadata", format!("{src}: {out:?}")),
                        Some(m) => {
                            let mut got: Vec<_> = m.meta.iter().map(|r| (r.target_begin, r.target_end, r.source_begin, r.source_end, r.source_vname.path.clone())).collect();
                            let sorted = got.is_sorted();
                            got.sort();
                            let mut want: Vec<_> = (1..=tag).filter_map(|t| last[t].map(|w| (pos[w].0, pos[w].1, t * 10, t * 10 + 1, format!("p{t}")))).collect();
                            want.sort();
                            if got != want || !sorted { viol("metadata", format!("{src}: {got:?} instead of {want:?}")); }
                            if m.meta.iter().any(|r| r.source_vname.corpus != "corp" || r.source_vname.language != "rust") { viol("metadata", format!("{src}: corpus or language")); }
                        }
                    }
                }
            }
        });
    }
}

fn main() {
    quiet_panics();
    let (runs, distinct) = (AtomicU64::new(0), AtomicU64::new(0));
    sequences(&runs, &distinct);
    eprintln!("sequences done");
    texts(&runs, &distinct);
    eprintln!("texts done");
    captures(&runs, &distinct);
    stat("evaluations", runs.into_inner());
    stat("distinct_nontrivial", distinct.into_inner());
    sample(|| "tokens [Id a, Colon, Path, Id fn, Comment]; comment text \"a\\\"\\\\\"".into());
    finish()
}
