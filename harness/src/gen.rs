//! Generation of inputs and simulator settings.
use crate::{
    model,
    rng::Rng,
    sim::*,
    types::*,
};

pub fn graph(r: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let mut e = vec![vec![false; n]; n];
    let add = |a: usize, b: usize, e: &mut Vec<Vec<bool>>| {
        if a != b {
            e[a][b] = true;
            e[b][a] = true;
        }
    };
    match r.below(8) {
        0 => {
            for i in 1..n {
                add(i - 1, i, &mut e)
            }
        },
        1 => {
            let c = r.below(n as u64) as usize;
            for i in 0..n {
                add(c, i, &mut e)
            }
        },
        2 => {
            for i in 0..n {
                add(i, (i + 1) % n, &mut e)
            }
        },
        3 => {
            // tree
            for i in 1..n {
                add(i, r.below(i as u64) as usize, &mut e)
            }
        },
        _ => {
            let p = *r.pick(&[0u64, 10, 20, 30, 40, 50, 70, 100]);
            let p = if n > 20 { (p / 5).min(200 / n as u64 + 1) } else { p };
            for i in 0..n {
                for j in 0..i {
                    if r.pct(p) {
                        add(i, j, &mut e)
                    }
                }
            }
        },
    }
    // random labels and neighbour orders
    let mut perm: Vec<usize> = (0..n).collect();
    if r.pct(70) {
        r.shuffle(&mut perm);
    }
    let mut nb = vec![Vec::new(); n];
    for i in 0..n {
        for j in 0..n {
            if e[i][j] {
                nb[perm[i]].push(perm[j]);
            }
        }
    }
    for v in nb.iter_mut() {
        if r.pct(50) {
            r.shuffle(v)
        } else {
            v.sort()
        }
    }
    nb
}

/// A partial order as the Pauli tracker emits it: layers, each qubit depends on at least one qubit
/// of the layer before, dependencies are transitively reduced.
pub fn order(r: &mut Rng, n: usize, first: Option<usize>) -> Order {
    let nlayers = match r.below(7) {
        0 => 1,
        1 => n,
        2 => r.range(1, 4.min(n as u64)) as usize,
        _ => r.range(1, n as u64) as usize,
    };
    order_layers(r, n, nlayers, first)
}

pub fn order_layers(r: &mut Rng, n: usize, nlayers: usize, first: Option<usize>) -> Order {
    let mut qs: Vec<usize> = (0..n).collect();
    r.shuffle(&mut qs);
    let nlayers = nlayers.clamp(1, n);
    let mut sizes = vec![1usize; nlayers];
    let mut left = n - nlayers;
    if let Some(f) = first {
        let f = f.clamp(1, left + 1);
        sizes[0] = f;
        left -= f - 1;
        if nlayers == 1 {
            sizes[0] += left;
            left = 0;
        }
    }
    while left > 0 {
        let lo = if first.is_some() && nlayers > 1 { 1 } else { 0 };
        let i = r.range(lo, nlayers as u64 - 1) as usize;
        sizes[i] += 1;
        left -= 1;
    }
    let mut layers: Vec<Vec<usize>> = Vec::new();
    let mut it = qs.into_iter();
    for s in sizes {
        layers.push(it.by_ref().take(s).collect());
    }
    let density = *r.pick(&[0u64, 10, 30, 60, 100]);
    // ancestors (strict) per qubit
    let mut anc = vec![vec![false; n]; n];
    let mut out: Order = Vec::new();
    for (li, layer) in layers.iter().enumerate() {
        let mut l = Vec::new();
        for &q in layer {
            let mut ds: Vec<usize> = Vec::new();
            if li > 0 {
                let prev = &layers[li - 1];
                ds.push(*r.pick(prev));
                for earlier in &layers[..li] {
                    for &x in earlier {
                        if !ds.contains(&x) && r.pct(density) {
                            ds.push(x);
                        }
                    }
                }
                // transitive reduction: drop what is an ancestor of another dependency
                let all = ds.clone();
                ds.retain(|x| !all.iter().any(|y| anc[*y][*x]));
                for d in &ds {
                    anc[q][*d] = true;
                    for x in 0..n {
                        if anc[*d][x] {
                            anc[q][x] = true;
                        }
                    }
                }
                r.shuffle(&mut ds);
            }
            l.push((q, ds));
        }
        out.push(l);
    }
    out
}

/// Many qubits but few schedules: mostly a chain.
pub fn narrow(r: &mut Rng, max_nodes: u64) -> Option<Problem> {
    // beyond 64 and 256 now and then, where narrow integers end
    let (least, most) = match r.below(100) {
        0..=75 => (9, 20),
        76..=91 => (9, 36),
        92..=97 => (37, 140),
        _ => (240, 300),
    };
    let n = r.range(least, most) as usize;
    let max_nodes = if n > 40 { (max_nodes * 20 / n as u64).max(n as u64 + 1) } else { max_nodes };
    let spare = r.range(0, 6) as usize;
    for k in (0..=spare.min(n - 2)).rev() {
        let p = Problem { nb: graph(r, n), order: order_layers(r, n, n - k, None) };
        if model!(&p, m => m.tree_nodes_below(max_nodes)).is_some() {
            return Some(p);
        }
    }
    None
}

pub fn problem(r: &mut Rng, lo: usize, hi: usize, max_nodes: u64) -> Problem {
    if hi >= 6 && r.pct(8) {
        if let Some(p) = narrow(r, max_nodes) {
            return p;
        }
    }
    loop {
        let n = r.range(lo as u64, hi as u64) as usize;
        let p = Problem { nb: graph(r, n), order: order(r, n, None) };
        debug_assert!(p.valid(), "{p:?}");
        if model!(&p, m => m.tree_nodes()) <= max_nodes {
            return p;
        }
    }
}

/// Several problems, sometimes of the same numbers of qubits and layers.
pub fn problems(r: &mut Rng, np: usize, lo: usize, hi: usize, max_nodes: u64) -> Vec<Problem> {
    let mut v = vec![problem(r, lo, hi, max_nodes)];
    let alike = r.pct(35);
    while v.len() < np {
        let (n, l) = (v[0].n(), v[0].order.len());
        if alike && n < 9 {
            let p = Problem { nb: graph(r, n), order: order_layers(r, n, l, None) };
            if model!(&p, m => m.tree_nodes()) <= 2 * max_nodes {
                v.push(p);
            }
        } else {
            v.push(problem(r, lo, hi, max_nodes));
        }
    }
    v
}

/// A problem for calls that do not search: beyond the sizes where narrow integers end, with few
/// layers, so that a qubit can have more than 255 dependencies.
pub fn huge_problem(r: &mut Rng) -> Problem {
    let most = if r.pct(50) { 600 } else { 150 };
    if r.pct(25) {
        let n = r.range(260, 600) as usize;
        let last = r.range(1, 5) as usize;
        let nb = graph(r, n);
        return Problem { nb, order: order_layers(r, n, 2, Some(n - last)) };
    }
    let n = r.range(50, most) as usize;
    let o = if r.pct(60) { let l = r.range(1, 4) as usize; order_layers(r, n, l, None) } else { order(r, n, None) };
    Problem { nb: graph(r, n), order: o }
}

/// A problem whose search is far too long to finish: a wide first layer.
pub fn big_problem(r: &mut Rng, lo: usize, hi: usize) -> Problem {
    let n = r.range(lo as u64, hi as u64) as usize;
    let first = r.range(2, 10.min(n as u64 / 2)) as usize;
    let nl = r.range(2, 5.min(n as u64 - first as u64)) as usize;
    Problem { nb: graph(r, n), order: order_layers(r, n, nl, Some(first)) }
}

/// Size of a first layer whose subsets cannot all be visited within a run that is cut off
/// after a few million steps, whatever is pruned later.
pub const ENDLESS: usize = 23;
pub fn endless_problem(r: &mut Rng) -> Problem {
    let n = r.range(ENDLESS as u64, ENDLESS as u64 + 6) as usize;
    let first = r.range(ENDLESS as u64, n as u64) as usize;
    let nl = if n == first { 1 } else { r.range(2, 1 + (n - first).min(3) as u64) as usize };
    Problem { nb: graph(r, n), order: order_layers(r, n, nl, Some(first)) }
}

/// The same with a first layer beyond the sizes where narrow bit sets end.
pub fn wide_problem(r: &mut Rng) -> Problem {
    let first = *r.pick(&[24, 28, 30, 31, 32, 33, 36, 40, 48, 56, 58]) as usize;
    let n = first + r.below(5) as usize;
    let nl = if n == first { 1 } else { r.range(2, 1 + (n - first).min(3) as u64) as usize };
    Problem { nb: graph(r, n), order: order_layers(r, n, nl, Some(first)) }
}

/// Bound on the ticks a complete search of this problem can take, generously.
pub fn tick_bound(p: &Problem) -> u64 {
    if !p.tractable() {
        return 2_000_000_000;
    }
    let nodes = model!(p, m => m.tree_nodes());
    2_000_000 + nodes.saturating_mul(200 * (p.n() as u64 + 6))
}

pub fn sim(r: &mut Rng) -> SimSpec {
    let mut s = SimSpec { seed: r.next() >> 1, entropy: r.next() >> 1, ..Default::default() };
    s.strategy = if r.pct(40) { 1 } else { 0 };
    s.preempt_mean = *r.pick(&[2, 5, 15, 50, 50, 150, 150, 500, 2000, 10000, 0]);
    s.p_stay = *r.pick(&[0, 0, 300_000, 800_000]);
    if r.pct(40) {
        s.rare = *r.pick(&[1, 4, 20, 100]);
        s.rare_ppm = *r.pick(&[20_000, 100_000, 300_000, 700_000]);
    }
    s.fair_ticks = *r.pick(&[2_000, 10_000, 50_000, 200_000]);
    s.start_ns = r.logu(1, 1 << 50);
    if r.pct(10) {
        s.ppm[F_ENTROPY] = *r.pick(&[100_000, 600_000]);
    }
    s.ncpu = *r.pick(&[1, 2, 3, 4, 8, 16, 64, 200]);
    s
}

pub fn spurious(r: &mut Rng, s: &mut SimSpec) {
    s.ppm[F_SPURIOUS] = *r.pick(&[0, 50_000, 300_000, 900_000]);
}
pub fn rtjump(r: &mut Rng, s: &mut SimSpec) {
    s.ppm[F_RTJUMP] = *r.pick(&[0, 100_000, 500_000]);
}
pub fn stalls(r: &mut Rng, s: &mut SimSpec) {
    s.ppm[F_STALL] = *r.pick(&[0, 0, 2_000, 20_000, 100_000]);
    s.stall_max_ns = r.logu(1000, 100_000_000_000);
}

pub fn nthreads(r: &mut Rng) -> u16 {
    match r.below(20) {
        0..=8 => 2,
        9..=12 => 3,
        13..=15 => 4,
        16 => 5,
        17 => 8,
        18 => r.range(2, 12) as u16,
        _ => 16,
    }
}
pub fn task_bound(r: &mut Rng) -> Option<u32> {
    match r.below(10) {
        0..=3 => None,
        4 => Some(0),
        5 => Some(1),
        6 => Some(2),
        7 => Some(r.range(0, 12) as u32),
        8 => Some(u32::MAX),
        _ => Some(100_000),
    }
}
pub fn interval(r: &mut Rng) -> usize {
    *r.pick(&[0, 0, 0, 1, 2, 3, 7, 30, 150])
}
