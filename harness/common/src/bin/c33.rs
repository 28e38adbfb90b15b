//! C33: every sequence of interned values up to a length over a domain of empty, equal, prefix,
//! multi-byte and large values, on a fresh arena each; all pairs of handles are compared with contents.
use bumpalo::Bump;
use interner::{Interned, Interner};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;

fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }

fn judge<T: ?Sized + PartialEq + Debug>(hs: &[Interned<'_, T>], want: &[&T]) -> Option<String> {
    for (i, a) in hs.iter().enumerate() {
        if a.inner() != want[i] || **a != want[i] { return Some(format!("handle {i} refers to {:?} instead of {:?}", a.inner(), want[i])); }
        if format!("{a:?}") != format!("{:?}", want[i]) { return Some(format!("handle {i} prints as {a:?}")); }
        for (j, b) in hs.iter().enumerate() {
            let eq = want[i] == want[j];
            if (a == b) != eq { return Some(format!("handles {i} {:?} and {j} {:?} compare {}", want[i], want[j], if eq { "different" } else { "equal" })); }
            if (a.cmp(b) == std::cmp::Ordering::Equal) != eq || a.partial_cmp(b) != Some(a.cmp(b)) || a.cmp(b) != b.cmp(a).reverse() { return Some(format!("order of {:?} and {:?} is inconsistent", want[i], want[j])); }
            if eq && h(a) != h(b) { return Some(format!("equal handles {:?} hash differently", want[i])); }
            if eq && !std::ptr::addr_eq(a.inner() as *const T, b.inner() as *const T) { return Some(format!("{:?} is stored twice", want[i])); }
            for c in hs { if a < b && b < c && !(a < c) { return Some("order is not transitive".into()); } }
        }
    }
    let distinct = (0..want.len()).filter(|&i| (0..i).all(|j| want[j] != want[i])).count();
    if hs.iter().copied().collect::<BTreeSet<_>>().len() != distinct || hs.iter().copied().collect::<HashSet<_>>().len() != distinct { return Some("sets of handles have the wrong size".into()); }
    None
}

fn main() {
    quiet_panics();
    let runs = AtomicU64::new(0);
    let big = "x".repeat(700);
    let big2 = "x".repeat(699);
    let strs: Vec<&str> = vec!["", "a", "ab", "abc", "b", "\0", "é", "\u{10ffff}", " ", &big, &big2];
    let nb = strs.len() as u64;
    let maxlen = if thorough() { 6 } else { 5 };
    for len in 0..=maxlen {
        par(nb.pow(len as u32), 512, |i| {
            let d = digits(i, nb, len);
            runs.fetch_add(1, Relaxed);
            let bump = Bump::new();
            let it = Interner::<str>::new(&bump);
            // each content comes from a different buffer every time
            let own: Vec<String> = d.iter().map(|&k| strs[k].to_string()).collect();
            let hs: Vec<_> = own.iter().map(|s| it.intern_str(s)).collect();
            let want: Vec<&str> = d.iter().map(|&k| strs[k]).collect();
            drop(own);
            if let Some(s) = judge(&hs, &want) { viol("str", format!("{s}; interned {:?}", want.iter().map(|w| w.chars().take(8).collect::<String>()).collect::<Vec<_>>())); }
        });
    }
    let slices: Vec<&[u16]> = vec![&[], &[0], &[0, 0], &[1], &[0, 1], &[1, 0], &[65535, 0, 0]];
    let nb = slices.len() as u64;
    for len in 0..=maxlen {
        par(nb.pow(len as u32), 512, |i| {
            let d = digits(i, nb, len);
            runs.fetch_add(1, Relaxed);
            let bump = Bump::new();
            let it = Interner::<[u16]>::new(&bump);
            let own: Vec<Vec<u16>> = d.iter().map(|&k| slices[k].to_vec()).collect();
            let hs: Vec<_> = own.iter().map(|s| it.intern_slice(s)).collect();
            let want: Vec<&[u16]> = d.iter().map(|&k| slices[k]).collect();
            if let Some(s) = judge(&hs, &want) { viol("slice", format!("{s}; interned {want:?}")); }
        });
    }
    // sized values, and two interners of different element types sharing one arena, interleaved
    let vals: Vec<(u8, i64)> = vec![(0, 0), (0, 1), (1, 0), (255, -1), (0, i64::MIN)];
    for len in 0..=5usize {
        par(5u64.pow(len as u32), 64, |i| {
            let d = digits(i, 5, len);
            runs.fetch_add(1, Relaxed);
            let bump = Bump::new();
            let it = Interner::<(u8, i64)>::new(&bump);
            let st = Interner::<str>::new(&bump);
            let sl = Interner::<[u16]>::new(&bump);
            let (mut a, mut b, mut c, mut wa, mut wb, mut wc) = (vec![], vec![], vec![], vec![], vec![], vec![]);
            for &k in &d {
                a.push(it.intern(vals[k])); wa.push(&vals[k]);
                b.push(st.intern_str(strs[(k * 3) % 7])); wb.push(strs[(k * 3) % 7]);
                c.push(sl.intern_slice(slices[k])); wc.push(slices[k]);
            }
            if let Some(s) = judge(&a, &wa).or(judge(&b, &wb)).or(judge(&c, &wc)) { viol("mixed", format!("{s}; indices {d:?}")); }
        });
    }
    let n = runs.into_inner();
    stat("evaluations", n);
    stat("distinct_nontrivial", n - 3);
    sample(|| "intern \"abc\", \"\", \"ab\": all different, contents kept".into());
    finish()
}
