//! Stateless exploration of all choice sequences, optionally bounded in the
//! number of deviations (choices other than the default, which is 0).

pub struct Choices {
    prefix: Vec<usize>,
    trace: Vec<(usize, usize)>,
}

impl Choices {
    /// Picks one of `n` alternatives. 0 is the default; any other is a deviation.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!(c < n, "diverged while replaying a choice prefix");
        self.trace.push((c, n));
        c
    }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
}

/// Runs `f` once per choice sequence with at most `bound` deviations.
/// Returns the number of runs. `f` returns false to stop.
pub fn explore(bound: usize, mut f: impl FnMut(&mut Choices) -> bool) -> u64 {
    let mut c = Choices { prefix: Vec::new(), trace: Vec::new() };
    let mut runs = 0;
    loop {
        c.trace.clear();
        runs += 1;
        if !f(&mut c) {
            return runs;
        }
        // advance to the next sequence in lexicographic order within the bound
        let mut next = None;
        for i in (0..c.trace.len()).rev() {
            let (x, n) = c.trace[i];
            if x + 1 < n {
                let before = c.trace[..i].iter().filter(|(x, _)| *x > 0).count();
                if before + 1 <= bound {
                    next = Some(i);
                    break;
                }
            }
        }
        match next {
            None => return runs,
            Some(i) => {
                c.prefix = c.trace[..=i].iter().map(|(x, _)| *x).collect();
                c.prefix[i] += 1;
            }
        }
    }
}

pub fn permutations<T: Clone>(items: &[T]) -> Vec<Vec<T>> {
    if items.is_empty() {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
