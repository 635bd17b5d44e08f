//! The buffers of a scheduler, built as a user may build them.
use dstlib::{rec, rng::Rng, types::*};
use hashbrown::HashMap;
use mbqc_scheduling::scheduler::{
    space::GraphBuffer,
    time::{DependencyBuffer, MeasurableSet, PathGenerator},
};

pub struct Names {
    /// qubit -> its name outside
    name: Vec<usize>,
    /// name -> qubit
    map: Option<HashMap<usize, usize>>,
}

impl Names {
    pub fn new(p: &Problem, l: &Option<Labels>) -> Self {
        let n = p.n();
        let mut name: Vec<usize> = (0..n).collect();
        let Some(l) = l else { return Names { name, map: None } };
        let mut r = Rng::new(l.seed);
        match l.map {
            1 => r.shuffle(&mut name),
            2 | 3 => {
                for k in 0..n {
                    if l.map == 2 || r.pct(50) {
                        name[k] = loop {
                            let x = match r.below(3) {
                                0 => n as u64 + r.below(3 * n as u64 + 2),
                                1 => r.next(),
                                _ => r.next() >> r.below(60),
                            } as usize;
                            if x >= n && !name.contains(&x) {
                                break x;
                            }
                        };
                    }
                }
            },
            _ => {},
        }
        let map = (l.map > 0).then(|| {
            let mut m = HashMap::new();
            for (k, x) in name.iter().enumerate() {
                if *x != k || l.map < 3 || r.pct(30) {
                    m.insert(*x, k);
                }
            }
            m
        });
        Names { name, map }
    }
}

pub fn space(p: &Problem, l: &Option<Labels>, names: &Names) -> GraphBuffer {
    let buf = raw(p, l, names);
    let sorted = |g: &[Vec<usize>]| -> Vec<Vec<usize>> {
        g.iter()
            .map(|v| {
                let mut v = v.clone();
                v.sort();
                v
            })
            .collect()
    };
    let (got, want) = (sorted(buf.as_buffer()), sorted(&p.nb));
    if got != want {
        rec::note(format!("wrong-graph|the buffer of the graph holds {got:?} instead of {want:?}"));
    }
    buf
}

fn raw(p: &Problem, l: &Option<Labels>, names: &Names) -> GraphBuffer {
    let Some(l) = l.as_ref().filter(|l| l.edges) else { return GraphBuffer::from_sparse(p.nb.clone()) };
    let mut r = Rng::new(l.seed ^ 1);
    let mut edges = Vec::new();
    for (a, nb) in p.nb.iter().enumerate() {
        for b in nb.iter().filter(|b| **b > a) {
            edges.push((names.name[a], names.name[*b]));
        }
    }
    r.shuffle(&mut edges);
    for _ in 0..l.noise {
        let e = if edges.is_empty() || r.pct(40) {
            let x = names.name[r.below(p.n() as u64) as usize];
            (x, x)
        } else {
            *r.pick(&edges)
        };
        edges.insert(r.below(edges.len() as u64 + 1) as usize, e);
    }
    for e in &mut edges {
        if r.pct(50) {
            *e = (e.1, e.0);
        }
    }
    GraphBuffer::new(&edges, p.n(), names.map.as_ref(), l.noise > 0 || r.pct(50))
}

pub fn buffer(p: &Problem, l: &Option<Labels>) -> DependencyBuffer {
    let Some(l) = l else { return DependencyBuffer::new(p.n()) };
    let len = p.n() + l.room as usize;
    let mut buf = DependencyBuffer::new(len);
    if l.used {
        let mut r = Rng::new(l.seed ^ 2);
        // a chain, backwards or forwards, of some of the qubits
        let m = r.range(1, len as u64) as usize;
        let at = |k: usize| if l.seed % 2 == 0 { k } else { m - 1 - k };
        let order: Order = (0..m).map(|k| vec![(at(k), if k > 0 { vec![at(k - 1)] } else { vec![] })]).collect();
        let time = PathGenerator::<Vec<usize>>::from_dependency_graph(&order, &mut buf, None);
        if time.num_remaining_nodes() != m {
            rec::note(format!("wrong-state|a chain of {m} qubits has {} remaining", time.num_remaining_nodes()));
        }
    }
    if buf.num_bits() != len {
        rec::note(format!("wrong-state|a buffer for {len} qubits has {}", buf.num_bits()));
    }
    buf
}

pub fn time<'l, T: MeasurableSet>(p: &Problem, names: &Names, buf: &'l mut DependencyBuffer) -> PathGenerator<'l, T> {
    let order: Order =
        p.order.iter().map(|l| l.iter().map(|(q, d)| (names.name[*q], d.iter().map(|x| names.name[*x]).collect())).collect()).collect();
    PathGenerator::from_dependency_graph(&order, buf, names.map.as_ref())
}
