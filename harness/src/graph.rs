//! Plain graph algorithms, the reference for network problems; every answer carries a certificate.
use crate::big::Rat;
use std::collections::VecDeque;

#[derive(Clone, Debug)]
pub struct Graph {
    pub n: usize,
    /// From, to, value; ordered by from and then by to, no repetitions, no self-arcs.
    pub arcs: Vec<(usize, usize, Rat)>,
}
impl Graph {
    pub fn show(&self) -> String {
        let arcs: Vec<String> = self.arcs.iter().map(|(a, b, v)| format!("{a}->{b}:{v}")).collect();
        format!("{} vertices, arcs {}", self.n, arcs.join(" "))
    }
    pub fn reachable(&self, s: usize) -> Vec<bool> {
        let mut seen = vec![false; self.n];
        let mut todo = vec![s];
        seen[s] = true;
        while let Some(v) = todo.pop() {
            for (a, b, _) in &self.arcs {
                if *a == v && !seen[*b] {
                    seen[*b] = true;
                    todo.push(*b);
                }
            }
        }
        seen
    }
    /// Is there a directed cycle of negative length? If not, potentials p with p[b] <= p[a] + length.
    pub fn potentials(&self) -> Option<Vec<Rat>> {
        let mut p = vec![Rat::zero(); self.n];
        for _ in 0..=self.n {
            let mut changed = false;
            for (a, b, v) in &self.arcs {
                let c = p[*a].add(v);
                if c < p[*b] {
                    p[*b] = c;
                    changed = true;
                }
            }
            if !changed {
                return Some(p);
            }
        }
        None
    }
    /// Distances from `s`, to be used without negative cycles.
    pub fn distances(&self, s: usize) -> Vec<Option<Rat>> {
        let mut d: Vec<Option<Rat>> = vec![None; self.n];
        d[s] = Some(Rat::zero());
        for round in 0..=self.n {
            let mut changed = false;
            for (a, b, v) in &self.arcs {
                if let Some(x) = &d[*a] {
                    let c = x.add(v);
                    if d[*b].as_ref().is_none_or(|y| c < *y) {
                        d[*b] = Some(c);
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
            if round == self.n {
                panic!("harness: negative cycle");
            }
        }
        d
    }
    /// Value of a maximum flow; certified by a cut of the same value.
    pub fn max_flow(&self, s: usize, t: usize) -> Rat {
        let mut f = vec![Rat::zero(); self.arcs.len()];
        let mut value = Rat::zero();
        loop {
            let mut from: Vec<Option<(usize, bool)>> = vec![None; self.n];
            let mut seen = vec![false; self.n];
            seen[s] = true;
            let mut todo = VecDeque::from([s]);
            while let Some(v) = todo.pop_front() {
                for (e, (a, b, c)) in self.arcs.iter().enumerate() {
                    if *a == v && !seen[*b] && f[e] < *c {
                        seen[*b] = true;
                        from[*b] = Some((e, true));
                        todo.push_back(*b);
                    }
                    if *b == v && !seen[*a] && f[e].sign() > 0 {
                        seen[*a] = true;
                        from[*a] = Some((e, false));
                        todo.push_back(*a);
                    }
                }
            }
            if !seen[t] {
                let cut = self.arcs.iter().filter(|(a, b, _)| seen[*a] && !seen[*b]).fold(Rat::zero(), |s, e| s.add(&e.2));
                if cut != value {
                    panic!("harness: cut {cut} for flow {value}");
                }
                return value;
            }
            let mut path = vec![];
            let mut v = t;
            while v != s {
                let (e, forward) = from[v].unwrap();
                path.push((e, forward));
                v = if forward { self.arcs[e].0 } else { self.arcs[e].1 };
            }
            let step = path.iter().map(|&(e, fw)| if fw { self.arcs[e].2.sub(&f[e]) } else { f[e].clone() }).min().unwrap();
            for (e, fw) in path {
                f[e] = if fw { f[e].add(&step) } else { f[e].sub(&step) };
            }
            value = value.add(&step);
        }
    }
}
