//! C31: every graph on up to 4 (5) nodes, every weak preference order, judged against a direct
//! statement of the ordering rule; repeated calls must agree although the hash seeds differ.
use cc_bindings_from_rs_toposort::{toposort, Dependency};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;

/// (ordered, failed) by the documented rule; None entries where a tie leaves the choice open.
fn judge(n: usize, edges: &[(usize, usize)], rank: &[usize], ordered: &[usize], failed: &[usize]) -> Option<String> {
    let mut preds = vec![0u32; n];
    for &(p, s) in edges { preds[s] |= 1 << p; }
    // failed = nodes on or downstream of a cycle = least set not removable
    let mut done = 0u32;
    loop {
        let mut nx = done;
        for i in 0..n { if preds[i] & !done == 0 { nx |= 1 << i; } }
        if nx == done { break; }
        done = nx;
    }
    let all: Vec<usize> = ordered.iter().chain(failed).copied().collect();
    if all.len() != n || all.iter().copied().collect::<BTreeSet<_>>().len() != n { return Some("not every node exactly once".into()); }
    if failed.iter().any(|&x| done >> x & 1 == 1) || ordered.iter().any(|&x| done >> x & 1 == 0) { return Some("ordered/failed split is wrong".into()); }
    let mut placed = 0u32;
    for (k, &x) in ordered.iter().enumerate() {
        if preds[x] & !placed != 0 { return Some(format!("{x} comes before something it depends on")); }
        for y in 0..n {
            if placed >> y & 1 == 0 && y != x && preds[y] & !placed == 0 && rank[y] < rank[x] { return Some(format!("position {k}: {x} was taken although {y} was ready and preferred")); }
        }
        placed |= 1 << x;
    }
    if failed.windows(2).any(|w| rank[w[0]] > rank[w[1]]) { return Some("failed nodes are not in the preferred order".into()); }
    None
}

fn weak_orders(n: usize) -> Vec<Vec<usize>> {
    // rank vectors using exactly the ranks 0..k
    (0..(n as u64).pow(n as u32)).map(|i| digits(i, n as u64, n)).filter(|v| { let m = *v.iter().max().unwrap(); (0..=m).all(|r| v.contains(&r)) }).collect()
}

fn one(n: usize, edges: &[(usize, usize)], rank: &[usize]) {
    let call = || toposort(0..n, edges.iter().map(|&(p, s)| Dependency { predecessor: p, successor: s }), |a: &usize, b: &usize| rank[*a].cmp(&rank[*b]));
    match catch(|| { let r = call(); let q = call(); (r.ordered, r.failed, q.ordered, q.failed) }) {
        Err(e) => viol("panic", format!("{e}: {n} nodes, edges {edges:?}, ranks {rank:?}")),
        Ok((o, f, o2, f2)) => {
            if let Some(s) = judge(n, edges, rank, &o, &f) { viol("order", format!("{s}: {n} nodes, edges {edges:?}, ranks {rank:?}: ordered {o:?} failed {f:?}")); }
            if (&o, &f) != (&o2, &f2) { viol("unstable", format!("{n} nodes, edges {edges:?}, ranks {rank:?}: {o:?}/{f:?} then {o2:?}/{f2:?}")); }
        }
    }
}

fn main() {
    quiet_panics();
    let runs = AtomicU64::new(0);
    let graphs = AtomicU64::new(0);
    for n in 0..=4usize {
        let wo = if n == 0 { vec![vec![]] } else { weak_orders(n) };
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
        par(1 << (n * n), 16, |g| {
            let e: Vec<_> = pairs.iter().enumerate().filter(|(k, _)| g >> k & 1 == 1).map(|(_, x)| *x).collect();
            graphs.fetch_add(1, Relaxed);
            for r in wo.iter() {
                runs.fetch_add(2, Relaxed);
                one(n, &e, r);
            }
            // duplicate edges, in both list orders
            if n <= 3 || g % 8 == 0 {
                for d in 0..e.len() {
                    let mut e2 = e.clone(); e2.push(e[d]); one(n, &e2, &wo[g as usize % wo.len()]);
                    e2.reverse(); e2.push(e[(d + 1) % e.len()]); one(n, &e2, &wo[(g as usize + 1) % wo.len()]);
                    runs.fetch_add(4, Relaxed);
                }
            }
        });
    }
    // five nodes without self-loops: identity, reversed, one total order picked by the graph, all tied
    let n = 5;
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).filter(move |&j| j != i).map(move |j| (i, j))).collect();
    let perms = permutations(5);
    let step = if thorough() { 1 } else { 2 };
    par((1 << 20) / step, 64, |g0| {
        let g = g0 * step + (g0 * 7 % step);
        let e: Vec<_> = pairs.iter().enumerate().filter(|(k, _)| g >> k & 1 == 1).map(|(_, x)| *x).collect();
        graphs.fetch_add(1, Relaxed);
        for r in [&perms[(g % 120) as usize][..], &[4, 3, 2, 1, 0], &[0, 1, 0, 1, 0]] { runs.fetch_add(2, Relaxed); one(n, &e, r); }
    });
    // unknown nodes are refused
    for (p, s) in [(0, 5), (5, 0), (5, 5)] {
        if catch(|| toposort(0..3, [Dependency { predecessor: p, successor: s }], Ord::cmp)).is_ok() { viol("unknown", format!("edge {p}->{s} of unknown nodes was accepted")); }
    }
    // values of a node type with heap content, many nodes: a preferred order that already satisfies the edges is kept
    for len in [1usize, 2, 7, 50] {
        for stride in 1..4usize {
            let names: Vec<String> = (0..len).map(|i| format!("n{i:03}")).collect();
            let deps = || (stride..len).map(|i| Dependency { predecessor: names[i - stride].clone(), successor: names[i].clone() });
            let r = toposort(names.clone(), deps(), Ord::cmp);
            if r.ordered != names || !r.failed.is_empty() { viol("kept", format!("{len} nodes, stride {stride}: {:?}", r.ordered)); }
            runs.fetch_add(1, Relaxed);
        }
    }
    stat("evaluations", runs.into_inner());
    stat("distinct_nontrivial", graphs.into_inner());
    sample(|| "4 nodes, edges [(0,1),(1,0),(1,2)], ranks [0,0,1,0]: ordered [3], failed {0,1} then 2".into());
    finish()
}
