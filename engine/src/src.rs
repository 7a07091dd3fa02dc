//! The source of choices.

use crate::dict::dict;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>),
    Enumerate(u64),
    /// The tape to follow, then zeros; the bounds drawn are noted.
    Walk(Vec<u64>, Vec<u64>),
    /// The tape to follow, then random choices; the bounds drawn are noted (coverage-guided search).
    Guided(Vec<u64>, u64, Vec<u64>),
}

/// Draws choices and records them.
pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(mix(seed)), tape: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(tape), tape: Vec::new() }
    }
    pub fn enumerate(index: u64) -> Src {
        Src { mode: Mode::Enumerate(index), tape: Vec::new() }
    }
    pub fn walk(tape: Vec<u64>) -> Src {
        Src { mode: Mode::Walk(tape, Vec::new()), tape: Vec::new() }
    }
    pub fn bounds(&self) -> &[u64] {
        match &self.mode {
            Mode::Walk(_, b) | Mode::Guided(_, _, b) => b,
            _ => &[],
        }
    }
    pub fn guided(tape: Vec<u64>, seed: u64) -> Src {
        Src { mode: Mode::Guided(tape, mix(seed), Vec::new()), tape: Vec::new() }
    }

    /// True if an enumeration index was larger than the space.
    pub fn leftover(&self) -> bool {
        matches!(self.mode, Mode::Enumerate(i) if i != 0)
    }

    /// A random number, if the next choice is a random one.
    fn roll(&mut self) -> Option<u64> {
        let state = match &mut self.mode {
            Mode::Random(state) => state,
            Mode::Guided(tape, state, _) if self.tape.len() >= tape.len() => state,
            _ => return None,
        };
        *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        Some(mix(*state))
    }
    fn push(&mut self, bound: u64, v: u64) -> u64 {
        if let Mode::Walk(_, bounds) | Mode::Guided(_, _, bounds) = &mut self.mode {
            bounds.push(bound);
        }
        self.tape.push(v);
        v
    }
    /// Random choices sometimes take a number from the dictionary, or one next to it. `offset` is
    /// what will be added to the choice.
    fn number(&mut self, bound: u64, offset: i64) -> u64 {
        let ints = &dict().ints;
        if bound > 16 && !ints.is_empty() {
            if let Some(r) = self.roll() {
                let v = ints[((r >> 6) % ints.len() as u64) as usize] as i128 + ((r >> 40) % 3) as i128 - 1 - offset as i128;
                if r % 64 == 0 && (0..bound as i128).contains(&v) {
                    return self.push(bound, v as u64);
                }
            }
        }
        self.draw(bound)
    }
    /// A choice in `0..bound`, where choices are random the suggested one.
    fn suggest(&mut self, bound: u64, v: u64) -> u64 {
        match self.roll() {
            Some(_) => self.push(bound, v.min(bound - 1)),
            None => self.draw(bound),
        }
    }
    /// A number from the dictionary, or one next to it; always finite.
    pub fn literal_float(&mut self) -> f64 {
        let floats = &dict().floats;
        let r = self.roll().unwrap_or(0);
        let v = if floats.is_empty() { 1.0 } else { floats[(r % floats.len() as u64) as usize] };
        let v = match (r >> 32) % 8 {
            0 | 1 => v,
            2 => -v,
            3 => v + 1.0,
            4 => v * (1.0 + 1e-6),
            5 => v * (1.0 - 1e-6),
            6 => -v * (1.0 + 1e-6),
            _ => v / 2.0,
        };
        let b = v.to_bits();
        let hi = self.suggest(1 << 32, b >> 32);
        let lo = self.suggest(1 << 32, b & 0xffff_ffff);
        let v = f64::from_bits(hi << 32 | lo);
        if v.is_finite() { v } else { 0.0 }
    }
    /// A text from the dictionary without white space; it may be empty.
    pub fn literal_word(&mut self) -> String {
        let words = &dict().words;
        let r = self.roll().unwrap_or(0);
        let w: Vec<char> = if words.is_empty() { vec!['w'] } else { words[(r % words.len() as u64) as usize].chars().collect() };
        let n = self.suggest(25, w.len() as u64);
        (0..n).map(|i| char::from_u32(self.suggest(0x11_0000, w.get(i as usize).map_or(0, |c| *c as u64)) as u32).filter(|c| !c.is_whitespace() && !c.is_control()).unwrap_or('w')).collect()
    }

    /// A choice in `0..bound`. Smaller choices should mean simpler cases.
    pub fn draw(&mut self, bound: u64) -> u64 {
        assert!(bound > 0, "draw from an empty range");
        let v = match &mut self.mode {
            Mode::Random(_) | Mode::Guided(..) => match self.roll() {
                Some(r) => ((r as u128 * bound as u128) >> 64) as u64,
                None => self.wanted() % bound,
            },
            Mode::Replay(tape) => {
                // A shortened tape can send a generator that waits for a certain choice round in
                // circles.
                assert!(self.tape.len() < tape.len() + 200_000, "far more choices than the tape holds");
                let v = tape.get(self.tape.len()).copied().unwrap_or(0);
                v.min(bound - 1)
            }
            Mode::Enumerate(index) => {
                let v = *index % bound;
                *index /= bound;
                v
            }
            Mode::Walk(tape, _) => tape.get(self.tape.len()).copied().unwrap_or(0).min(bound - 1),
        };
        self.push(bound, v)
    }
    /// The choice at this place of the tape of a guided case.
    fn wanted(&self) -> u64 {
        match &self.mode {
            Mode::Guided(tape, _, _) => tape[self.tape.len()],
            _ => 0,
        }
    }

    pub fn below(&mut self, bound: usize) -> usize {
        self.number(bound as u64, 0) as usize
    }
    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        let bound = (hi - lo + 1) as u64;
        lo + self.number(bound, lo as i64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        let bound = (hi - lo + 1) as u64;
        lo + self.number(bound, lo) as i64
    }
    /// True with probability `num`/`den`; the simple choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// An index with probability proportional to its weight.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A length: mostly small, sometimes medium, rarely up to `max`.
    pub fn len(&mut self, min: usize, max: usize) -> usize {
        let class = self.weighted(&[60, 25, 12, 3]);
        let cap = match class {
            0 => 6,
            1 => 16,
            2 => 64,
            _ => max,
        };
        let hi = (min + cap).min(max).max(min);
        self.range(min, hi)
    }
    /// A length that is usually tiny and at most `max`.
    pub fn small(&mut self, min: usize, max: usize) -> usize {
        if max - min <= 4 || self.chance(1, 5) {
            self.range(min, max)
        } else {
            self.range(min, min + 4)
        }
    }
}

/// Walks all leaves of a tree of choices in order. Several walkers share the tree: each takes the
/// subtrees (below the first few choices) whose number is its own modulo the number of walkers.
pub struct Walker {
    share: u64,
    of: u64,
    next: Option<Vec<u64>>,
    prefix: Vec<u64>,
    number: u64,
}

const SUBTREES: u64 = 96;

impl Walker {
    pub fn new(share: u64, of: u64) -> Walker {
        Walker { share, of, next: Some(Vec::new()), prefix: Vec::new(), number: 0 }
    }
    /// The tape to run next; None at the end.
    pub fn tape(&self) -> Option<&Vec<u64>> {
        self.next.as_ref()
    }
    /// Takes note of the run of the tape. True if the case belongs to this walker.
    pub fn ran(&mut self, tape: &[u64], bounds: &[u64]) -> bool {
        let mut depth = 0;
        let mut product = 1u64;
        while depth < tape.len() && product < SUBTREES {
            product = product.saturating_mul(bounds[depth]);
            depth += 1;
        }
        let prefix = &tape[..depth];
        if prefix != self.prefix.as_slice() {
            self.number += 1;
            self.prefix = prefix.to_vec();
        }
        let mine = self.number % self.of == self.share;
        let mut j = if mine { tape.len() } else { depth };
        self.next = None;
        while j > 0 {
            j -= 1;
            if tape[j] + 1 < bounds[j] {
                let mut t = tape[..j].to_vec();
                t.push(tape[j] + 1);
                self.next = Some(t);
                break;
            }
        }
        mine
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn walkers_share_all_leaves() {
        let mut seen = std::collections::HashMap::new();
        for share in 0..8 {
            let mut w = Walker::new(share, 8);
            while let Some(t) = w.tape().cloned() {
                let mut s = Src::walk(t);
                let n = s.below(7);
                for _ in 0..n {
                    if s.below(4) == 3 {
                        s.below(5);
                        break;
                    }
                }
                let (tape, bounds) = (s.tape.clone(), s.bounds().to_vec());
                if w.ran(&tape, &bounds) {
                    *seen.entry(tape).or_insert(0) += 1;
                }
            }
        }
        // Leaves with n choices: 3^n that never stop early and 5 * 3^(k-1) that stop at k.
        let want: usize = (0..7u32).map(|n| 3usize.pow(n) + (1..=n).map(|k| 5 * 3usize.pow(k - 1)).sum::<usize>()).sum();
        assert_eq!(seen.len(), want);
        assert!(seen.values().all(|c| *c == 1));
    }
}
