//! Exhaustive depth-first enumeration of a choice tree (stateless replay of choice prefixes).

#[derive(Default)]
pub struct Chooser {
    /// (chosen, arity) along the current path
    pub path: Vec<(usize, usize)>,
    pos: usize,
    /// number of distinct tree nodes / edges visited so far
    pub nodes: u64,
    pub edges: u64,
}

impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n >= 1);
        if self.pos == self.path.len() {
            self.path.push((0, n));
            self.nodes += 1;
            self.edges += 1;
        }
        let (c, a) = self.path[self.pos];
        // The program under enumeration must be a deterministic function of the choices.
        assert_eq!(a, n, "non-deterministic choice tree");
        self.pos += 1;
        c
    }

    /// Move to the next leaf; `false` when the tree is exhausted.
    pub fn advance(&mut self) -> bool {
        debug_assert!(self.pos == self.path.len());
        self.pos = 0;
        while let Some((c, a)) = self.path.pop() {
            if c + 1 < a {
                self.path.push((c + 1, a));
                self.edges += 1;
                return true;
            }
        }
        false
    }

    pub fn choices(&self) -> Vec<usize> {
        self.path.iter().map(|p| p.0).collect()
    }
}
