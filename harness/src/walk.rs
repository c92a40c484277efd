//! Scripts over double-ended iterators, checked against the sorted entries they should yield.

use crate::engine::R;
use crate::hist::{len, refuel, Len};
use crate::types::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering::Equal;

pub type Ent = (u32, u32, u32);

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Step {
    Next(Len),
    Back(Len),
    /// front and back in turn
    Alt(Len),
    Nth(Len),
    NthBack(Len),
    /// to the entry so far away, from one end, by a search of some kind
    Seek(Len, bool, u8),
    /// all but so many, from one end
    AllBut(u8, bool),
    Clone,
    Switch(u8),
    Drop,
    Hint,
}
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum End {
    Front,
    Back,
    Alt,
    Last,
    Count,
    Rev,
    Fold,
    FoldAll,
    Rfold,
    Each,
    Reduce,
    MinBy,
    MaxBy,
    Min,
    Max,
    Abandon,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Script {
    pub steps: Vec<Step>,
    pub end: End,
}

pub fn script(max: usize) -> BoxedStrategy<Script> {
    let step = prop_oneof![
        4 => len().prop_map(Step::Next),
        4 => len().prop_map(Step::Back),
        2 => len().prop_map(Step::Alt),
        1 => len().prop_map(Step::Nth),
        1 => len().prop_map(Step::NthBack),
        1 => (len(), any::<bool>(), any::<u8>()).prop_map(|(n, b, how)| Step::Seek(n, b, how)),
        2 => (0u8..6, any::<bool>()).prop_map(|(n, b)| Step::AllBut(n, b)),
        1 => Just(Step::Clone),
        1 => any::<u8>().prop_map(Step::Switch),
        1 => Just(Step::Drop),
        1 => Just(Step::Hint),
    ];
    let end = prop_oneof![
        3 => Just(End::Front),
        3 => Just(End::Back),
        2 => Just(End::Alt),
        1 => Just(End::Last),
        1 => Just(End::Count),
        1 => Just(End::Rev),
        1 => Just(End::Fold),
        1 => Just(End::FoldAll),
        1 => Just(End::Rfold),
        1 => Just(End::Each),
        1 => prop_oneof![Just(End::Reduce), Just(End::MinBy), Just(End::MaxBy)],
        1 => Just(End::Min),
        1 => Just(End::Max),
        2 => Just(End::Abandon),
    ];
    (vec(step, 0..=max), end).prop_map(|(steps, end)| Script { steps, end }).boxed()
}

#[derive(Clone)]
pub struct Walk<'e, I> {
    pub it: I,
    pub exp: &'e [Ent],
    pub lo: usize,
    pub hi: usize,
    /// whether remaining lengths must be exact
    pub exact: bool,
    pub met_inside: bool,
    pub front: bool,
    pub back: bool,
}

impl<'e, I: DoubleEndedIterator> Walk<'e, I>
where
    I::Item: Ord,
{
    pub fn new(it: I, exp: &'e [Ent], exact: bool) -> Self {
        Walk { it, exp, lo: 0, hi: exp.len(), exact, met_inside: false, front: false, back: false }
    }
    fn left(&self) -> usize {
        self.hi - self.lo
    }
    fn judge(&mut self, got: Option<Ent>, want: Option<usize>, what: &str) -> R {
        let w = want.map(|i| self.exp[i]);
        if got != w {
            return Err(format!(
                "{} after {} from the front and {} from the back of {}: got {:?}, expected {:?}",
                what,
                self.lo,
                self.exp.len() - self.hi,
                self.exp.len(),
                got,
                w
            ));
        }
        Ok(())
    }
    pub fn hint(&self) -> R {
        let (a, b) = self.it.size_hint();
        let n = self.left();
        let ok = if self.exact { a == n && b == Some(n) } else { a <= n && b.map_or(true, |b| b >= n) };
        if !ok {
            return Err(format!("size_hint {:?} with {} entries left", (a, b), n));
        }
        Ok(())
    }
    pub fn step(&mut self, back: bool, map: &mut dyn FnMut(I::Item) -> Ent) -> R {
        let got = if back { self.it.next_back().map(&mut *map) } else { self.it.next().map(&mut *map) };
        let want = if self.lo == self.hi {
            None
        } else if back {
            Some(self.hi - 1)
        } else {
            Some(self.lo)
        };
        self.judge(got, want, if back { "next_back" } else { "next" })?;
        if want.is_some() {
            if back {
                self.hi -= 1;
                self.back = true;
            } else {
                self.lo += 1;
                self.front = true;
            }
            self.met_inside |= self.lo == self.hi && self.front && self.back;
        }
        if self.exact {
            self.hint()?;
        }
        Ok(())
    }
    fn nth(&mut self, k: usize, back: bool, map: &mut dyn FnMut(I::Item) -> Ent) -> R {
        let got = if back { self.it.nth_back(k).map(&mut *map) } else { self.it.nth(k).map(&mut *map) };
        if k < self.left() {
            let i = if back { self.hi - 1 - k } else { self.lo + k };
            self.judge(got, Some(i), if back { "nth_back" } else { "nth" })?;
            if back {
                self.hi = i
            } else {
                self.lo = i + 1
            }
        } else {
            self.judge(got, None, if back { "nth_back" } else { "nth" })?;
            self.lo = self.hi;
        }
        self.hint()
    }
    /// Skip so many entries by a search of some kind, and take the next.
    fn seek(&mut self, k: usize, back: bool, how: u8, map: &mut dyn FnMut(I::Item) -> Ent) -> R {
        let (n, exp) = (self.left(), self.exp);
        let mut calls = 0;
        let mut past: Option<String> = None;
        let want = if k < n { Some(if back { self.hi - 1 - k } else { self.lo + k }) } else { None };
        let (lo, hi) = (self.lo, self.hi);
        {
            let mut look = |e: Option<I::Item>, calls: usize, map: &mut dyn FnMut(I::Item) -> Ent| {
                let i = if back { hi.checked_sub(calls) } else { Some(lo + calls - 1) };
                let w = i.and_then(|i| exp.get(i));
                match (e.map(map), w) {
                    (Some(g), Some(w)) if g != *w && past.is_none() => past = Some(format!("a search passes {:?}, expected {:?}", g, w)),
                    (_, None) if past.is_none() => past = Some("a search passes more entries than there are".into()),
                    _ => (),
                }
            };
            let (got, judged) = match (how % 5, back) {
                (0, false) => (
                    self.it.find(|_| {
                        calls += 1;
                        look(None, calls, map);
                        calls > k
                    }).map(|e| map(e)),
                    true,
                ),
                (0, true) => (
                    self.it.rfind(|_| {
                        calls += 1;
                        look(None, calls, map);
                        calls > k
                    }).map(|e| map(e)),
                    true,
                ),
                (1, false) => {
                    let i = self.it.position(|e| {
                        calls += 1;
                        look(Some(e), calls, map);
                        calls > k
                    });
                    if i != want.map(|_| k) {
                        return Err(format!("position: got {:?}, expected {:?}", i, want.map(|_| k)));
                    }
                    (None, false)
                }
                (2, false) => {
                    let b = self.it.any(|e| {
                        calls += 1;
                        look(Some(e), calls, map);
                        calls > k
                    });
                    if b != want.is_some() {
                        return Err(format!("any: got {}, expected {}", b, want.is_some()));
                    }
                    (None, false)
                }
                (3, false) => {
                    let b = self.it.all(|e| {
                        calls += 1;
                        look(Some(e), calls, map);
                        calls <= k
                    });
                    if b != want.is_none() {
                        return Err(format!("all: got {}, expected {}", b, want.is_none()));
                    }
                    (None, false)
                }
                (_, false) => {
                    let r = self.it.try_fold((), |_, e| {
                        calls += 1;
                        look(Some(e), calls, map);
                        if calls > k { Err(()) } else { Ok(()) }
                    });
                    if r.is_err() != want.is_some() {
                        return Err(format!("try_fold: got {:?} after {} entries", r, calls));
                    }
                    (None, false)
                }
                (_, true) => {
                    let r = self.it.try_rfold((), |_, e| {
                        calls += 1;
                        look(Some(e), calls, map);
                        if calls > k { Err(()) } else { Ok(()) }
                    });
                    if r.is_err() != want.is_some() {
                        return Err(format!("try_rfold: got {:?} after {} entries", r, calls));
                    }
                    (None, false)
                }
            };
            if judged {
                self.judge(got, want, if back { "rfind" } else { "find" })?;
            }
        }
        if let Some(e) = past {
            return Err(e);
        }
        if calls != (k + 1).min(n) {
            return Err(format!("a search of {} entries for one at distance {} passes {}", n, k, calls));
        }
        match want {
            Some(i) if back => self.hi = i,
            Some(i) => self.lo = i + 1,
            None => self.lo = self.hi,
        }
        self.hint()
    }
    /// Apply one step; clone and switch are the caller's.
    pub fn apply<S: Sizes>(&mut self, s: &Step, map: &mut dyn FnMut(I::Item) -> Ent) -> R {
        refuel(self.left());
        let cap = self.left() + 2;
        match s {
            Step::Next(l) => (0..l.get::<S>(cap)).try_for_each(|_| self.step(false, map)),
            Step::Back(l) => (0..l.get::<S>(cap)).try_for_each(|_| self.step(true, map)),
            Step::Alt(l) => (0..l.get::<S>(cap)).try_for_each(|i| self.step(i % 2 == 0, map)),
            Step::Nth(l) => self.nth(l.get::<S>(cap), false, map),
            Step::NthBack(l) => self.nth(l.get::<S>(cap), true, map),
            Step::Seek(l, back, how) => self.seek(l.get::<S>(cap), *back, *how, map),
            Step::AllBut(n, back) => {
                let n = self.left().saturating_sub(*n as usize);
                (0..n).try_for_each(|_| self.step(*back, map))
            }
            Step::Hint => self.hint(),
            _ => Ok(()),
        }
    }
    /// Finish an iterator in some way, and ask again afterwards.
    pub fn finish(mut self, end: End, map: &mut dyn FnMut(I::Item) -> Ent) -> R {
        refuel(self.left());
        self.hint()?;
        let n = self.left();
        match end {
            End::Abandon => return Ok(()),
            End::Front => (0..n).try_for_each(|_| self.step(false, map))?,
            End::Back => (0..n).try_for_each(|_| self.step(true, map))?,
            End::Alt => (0..n).try_for_each(|i| self.step(i % 2 == 1, map))?,
            End::Last => {
                let want = if n > 0 { Some(self.exp[self.hi - 1]) } else { None };
                let got = self.it.last().map(map);
                return if got == want { Ok(()) } else { Err(format!("last: got {:?}, expected {:?}", got, want)) };
            }
            End::Count => {
                let c = self.it.count();
                return if c == n { Ok(()) } else { Err(format!("count: got {}, expected {}", c, n)) };
            }
            End::Rev => {
                let got: Vec<Ent> = self.it.rev().take(n + 1).map(map).collect();
                return cmp_seq("rev", &got, self.exp[self.lo..self.hi].iter().rev());
            }
            End::Fold => {
                let mut got = vec![];
                self.it.take(n + 1).fold((), |_, e| got.push(map(e)));
                return cmp_seq("fold", &got, self.exp[self.lo..self.hi].iter());
            }
            End::FoldAll => {
                let mut got = vec![];
                self.it.fold((), |_, e| got.push(map(e)));
                return cmp_seq("fold", &got, self.exp[self.lo..self.hi].iter());
            }
            End::Each => {
                let mut got = vec![];
                self.it.for_each(|e| got.push(map(e)));
                return cmp_seq("for_each", &got, self.exp[self.lo..self.hi].iter());
            }
            End::Reduce => {
                let want = if n > 0 { Some(self.exp[self.hi - 1]) } else { None };
                let got = self.it.reduce(|_, e| e).map(map);
                return if got == want { Ok(()) } else { Err(format!("reduce: got {:?}, expected {:?}", got, want)) };
            }
            End::MinBy | End::MaxBy => {
                // By an order in which all are equal the first is the lowest and the last the highest.
                let max = matches!(end, End::MaxBy);
                let want = if n == 0 { None } else { Some(self.exp[if max { self.hi - 1 } else { self.lo }]) };
                let got = if max { self.it.max_by(|_, _| Equal) } else { self.it.min_by(|_, _| Equal) }.map(map);
                return if got == want { Ok(()) } else { Err(format!("{:?}: got {:?}, expected {:?}", end, got, want)) };
            }
            End::Min | End::Max => {
                let max = matches!(end, End::Max);
                let want = if n == 0 { None } else { Some(self.exp[if max { self.hi - 1 } else { self.lo }]) };
                let got = if max { self.it.max() } else { self.it.min() }.map(map);
                return if got == want { Ok(()) } else { Err(format!("{:?}: got {:?}, expected {:?}", end, got, want)) };
            }
            End::Rfold => {
                let mut got = vec![];
                self.it.rfold((), |_, e| got.push(map(e)));
                return cmp_seq("rfold", &got, self.exp[self.lo..self.hi].iter().rev());
            }
        }
        // exhausted, and stays so from both ends
        for b in [false, true, true, false, false] {
            self.step(b, map)?;
        }
        self.hint()
    }
}

pub fn cmp_seq<'a>(what: &str, got: &[Ent], want: impl Iterator<Item = &'a Ent>) -> R {
    let want: Vec<Ent> = want.copied().collect();
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{}: {} entries, expected {}; first difference at {}: got {:?}, expected {:?}",
        what,
        got.len(),
        want.len(),
        i,
        got.get(i),
        want.get(i)
    ))
}

/// Run a script over a clonable iterator.
pub fn run_cloning<'e, S: Sizes, I: DoubleEndedIterator + Clone>(
    it: I,
    exp: &'e [Ent],
    sc: &Script,
    map: &mut dyn FnMut(I::Item) -> Ent,
    met: &mut bool,
    cloned: &mut bool,
) -> R
where
    I::Item: Ord,
{
    let mut all = vec![Walk::new(it, exp, false)];
    let mut cur = 0;
    for s in &sc.steps {
        match s {
            Step::Clone => {
                let w = &all[cur];
                *cloned |= w.lo > 0 || w.hi < exp.len();
                let mut c = w.clone();
                if all.len() < 4 {
                    all.push(c);
                } else {
                    // onto one that stands elsewhere
                    let other = (cur + 1) % all.len();
                    std::mem::swap(&mut c.it, &mut all[other].it);
                    c.it.clone_from(&all[cur].it);
                    all[other] = c;
                }
            }
            Step::Switch(i) => cur = *i as usize % all.len(),
            Step::Drop => {
                if all.len() > 1 {
                    all.remove(cur);
                    cur = 0;
                }
            }
            s => all[cur].apply::<S>(s, map)?,
        }
    }
    for w in all {
        *met |= w.met_inside || (w.front && w.back);
        w.finish(sc.end, map)?;
    }
    Ok(())
}
/// Run a script over an iterator that can't be cloned; with `Step::Drop` the rest is abandoned.
pub fn run_plain<'e, S: Sizes, I: DoubleEndedIterator>(
    it: I,
    exp: &'e [Ent],
    exact: bool,
    sc: &Script,
    map: &mut dyn FnMut(I::Item) -> Ent,
    met: &mut bool,
) -> R
where
    I::Item: Ord,
{
    let mut w = Walk::new(it, exp, exact);
    w.hint()?;
    for s in &sc.steps {
        w.apply::<S>(s, map)?;
    }
    *met |= w.met_inside || (w.front && w.back);
    w.finish(sc.end, map)
}
