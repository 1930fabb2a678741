//! Explicit-state exploration of the layout computation as an automaton.
//!
//! State: (running offset modulo M, largest member alignment so far), with M
//! the least common multiple of all alignments in the alphabet.  A transition
//! appends one field.  Closing a struct is possible in every state.  The
//! abstraction is exact for padding decisions: they depend on the offset only
//! modulo an alignment, and every alignment divides M.

use crate::{round_up, Layout, Ty};
use std::collections::{HashMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct St {
    pub off: usize,
    pub max: usize,
}

pub struct Explored {
    pub states: Vec<St>,
    /// (state, field index) transitions taken, with a witness field sequence
    /// that ends with that transition.
    pub transitions: Vec<(St, usize, St, Vec<usize>)>,
    pub modulus: usize,
}

pub fn step(s: St, t: &Ty, l: Layout, m: usize) -> St {
    let a = t.align(l);
    St { off: (round_up(s.off, a) + t.size(l)) % m, max: s.max.max(a) }
}

pub fn explore(alpha: &[Ty], l: Layout) -> Explored {
    let m = alpha.iter().map(|t| t.align(l)).max().unwrap();
    for t in alpha {
        assert!(t.align(l).is_power_of_two() && m % t.align(l) == 0);
    }
    let init = St { off: 0, max: 0 };
    let mut wit: HashMap<St, Vec<usize>> = HashMap::new();
    let mut states = vec![init];
    wit.insert(init, vec![]);
    let mut q = VecDeque::from([init]);
    let mut transitions = Vec::new();
    while let Some(s) = q.pop_front() {
        for (i, t) in alpha.iter().enumerate() {
            let n = step(s, t, l, m);
            let mut w = wit[&s].clone();
            w.push(i);
            transitions.push((s, i, n, w.clone()));
            if !wit.contains_key(&n) {
                wit.insert(n, w);
                states.push(n);
                q.push_back(n);
            }
        }
    }
    // The abstraction agrees with the concrete layout function on every witness.
    for (_, _, n, w) in &transitions {
        let t = Ty::Struct(
            "W".into(),
            w.iter().enumerate().map(|(k, i)| (format!("f{k}"), alpha[*i].clone())).collect(),
        );
        let last = w.last().map(|i| alpha[*i].size(l)).unwrap_or(0);
        let end = t.offsets(l).last().copied().unwrap_or(0) + last;
        assert_eq!(end % m, n.off);
        assert!(t.align(l) >= n.max);
    }
    Explored { states, transitions, modulus: m }
}
