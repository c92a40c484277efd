//! Several trees that may share their nodes, and what can happen to them.

use crate::bounds::{bound, bounds, inside, invalid, Bounds, Kind};
use crate::counted::clones;
use crate::engine::R;
use crate::hist::*;
use crate::hook;
use crate::types::*;
use crate::walk::{run_cloning, run_plain, script, Ent, Script};
use palmtree::{Entry, OwnedIter, PalmTree, TreeConfig};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Fork(u8),
    Mutate(u8, Mut),
    /// through an entry
    Entry(u8, Sel, u8),
    /// mutable iteration, writing every n-th from either end
    IterMut(u8, Option<Bounds>, u8, bool, u16),
    /// start consuming one; the iterator stays around
    Consume(u8, u16, u16),
    /// go on with a consuming iterator
    Step(u8, u16, u16),
    DropIter(u8),
    /// consume one into another
    Into(u8, u8, u8),
    Drop(u8),
    /// iterate over one while something happens to another
    Watch(u8, u8, u16, Vec<Mut>, bool),
    /// keep references from mutable iteration of one while something happens to another
    Keep(u8, u8, u16, Vec<Mut>),
    /// merge clones of two, as an iterator, ended somehow after so many
    MergePart(u8, u8, bool, u16, u8),
    /// iterate over one, or a part of it, by a script: shared, mutable, consuming a clone of it, consuming it
    Script(u8, How, Option<Bounds>, Script),
    /// while one is changed or read, something happens to another at a call into a key or value
    Within(u8, u8, Option<Mut>, u16, Inner),
    /// drop an entry view, or take its key back
    Idle(u8, Sel, bool),
    /// replace by a clone of another
    Assign(u8, u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum How {
    Shared,
    Mutable,
    Clone,
    Itself,
}

/// What happens to the other one.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Inner {
    Mutate(Mut),
    Read,
    Fork,
    Eat(u16, bool),
    Drop,
}

const FORKS: usize = 6;

pub struct World<K: Key, V: Val, C: TreeConfig<K, V> + Sizes> {
    pub all: Vec<Ctx<K, V, C>>,
    pub eaten: Vec<(OwnedIter<K, V, C>, VecDeque<Ent>)>,
    pub next: u32,
    pub counted: bool,
    pub made: usize,
    pub touched_shared: bool,
}

impl<K: Key, V: Val, C: TreeConfig<K, V> + Sizes> World<K, V, C> {
    pub fn new(mut c: Ctx<K, V, C>, counted: bool) -> Self {
        drop(hook::cancel());
        c.strict = true;
        World { all: vec![c], eaten: vec![], next: 100_000_000, counted, made: 0, touched_shared: false }
    }
    /// How many entries all of it holds, counting every clone apart.
    pub fn held(&self) -> usize {
        self.all.iter().map(|c| c.model.len()).sum::<usize>() + self.eaten.iter().map(|e| e.1.len()).sum::<usize>()
    }
    pub fn fork(&mut self, i: usize) -> R<Ctx<K, V, C>> {
        let c = &self.all[i];
        refuel(c.model.len());
        let before = clones();
        let tree = c.tree.clone();
        if C::SHARED && self.counted && clones() != before {
            return Err(format!("cloning a shared tree of {} entries cloned {} keys or values", c.model.len(), clones() - before));
        }
        self.made += 1;
        self.next += 1_000_000;
        Ok(Ctx {
            tree,
            model: c.model.clone(),
            ghosts: c.ghosts.clone(),
            tick: self.next,
            ..*c
        })
    }
    pub fn audit(&self, full: bool) -> R {
        for (i, c) in self.all.iter().enumerate() {
            c.audit_get(false).map_err(|e| format!("clone {}: {}", i, e))?;
            if full || c.model.len() < 120 {
                c.audit_iter().map_err(|e| format!("clone {}: {}", i, e))?;
            }
        }
        Ok(())
    }
    pub fn eat(it: &mut (OwnedIter<K, V, C>, VecDeque<Ent>), front: usize, back: usize) -> R {
        refuel(it.1.len());
        for k in 0..front.min(it.1.len() + 1) {
            let got = it.0.next().map(|(k, v)| (k.n(), k.tag(), v.x()));
            same!(got, it.1.pop_front(), "entry {} of a consuming iterator", k);
        }
        for k in 0..back.min(it.1.len() + 1) {
            let got = it.0.next_back().map(|(k, v)| (k.n(), k.tag(), v.x()));
            same!(got, it.1.pop_back(), "entry {} from the back of a consuming iterator", k);
        }
        same!(it.0.len(), it.1.len(), "remaining length");
        Ok(())
    }
    pub fn act(&mut self, a: &Act) -> R {
        let n = self.all.len();
        let ix = |i: &u8| *i as usize % n.max(1);
        if n == 0 {
            return Ok(());
        }
        match a {
            Act::Fork(i) => {
                if n < FORKS {
                    let c = self.fork(ix(i))?;
                    self.all.push(c);
                }
            }
            Act::Assign(i, j) => {
                let (i, j) = (ix(i), ix(j));
                if i != j {
                    let len = self.all[j].model.len();
                    refuel(len + self.all[i].model.len());
                    let (a, b) = self.all.split_at_mut(i.max(j));
                    let (to, from) = if i < j { (&mut a[i], &b[0]) } else { (&mut b[0], &a[j]) };
                    let before = clones();
                    to.tree.clone_from(&from.tree);
                    if C::SHARED && self.counted && clones() != before {
                        return Err(format!("cloning a shared tree of {} entries onto another cloned {} keys or values", len, clones() - before));
                    }
                    to.model = from.model.clone();
                    to.ghosts = from.ghosts.clone();
                    (to.lo, to.hi, to.base, to.peak, to.work) = (from.lo, from.hi, from.base, from.peak, from.work);
                    self.made += 1;
                    self.next += 1_000_000;
                    to.tick = self.next;
                }
            }
            Act::Mutate(i, m) => {
                self.touched_shared |= n > 1;
                self.all[ix(i)].apply(m)?
            }
            Act::Entry(i, s, how) => {
                self.touched_shared |= n > 1;
                let c = &mut self.all[ix(i)];
                let k = c.pick(s);
                let t = c.next_tick();
                refuel(2 * c.model.len());
                let want = c.model.get(&k).copied();
                match (c.tree.entry(K::mk(k, t)), want) {
                    (Entry::Occupied(mut e), Some((tag, x))) => match how % 6 {
                        0 => same!(e.get().x(), x, "get of entry {}", k),
                        1 => {
                            *e.get_mut() = V::mk(t);
                            c.model.insert(k, (tag, V::norm(t)));
                        }
                        2 => {
                            *e.into_mut() = V::mk(t);
                            c.model.insert(k, (tag, V::norm(t)));
                        }
                        3 => {
                            same!(e.insert(V::mk(t)).x(), x, "value replaced");
                            c.model.insert(k, (tag, V::norm(t)));
                        }
                        4 => {
                            same!(e.remove().x(), x, "value removed");
                            c.model.remove(&k);
                        }
                        _ => {
                            let (key, v) = e.remove_entry();
                            same!((key.n(), key.tag(), v.x()), (k, tag, x), "pair removed");
                            c.model.remove(&k);
                        }
                    },
                    (Entry::Vacant(e), None) => {
                        if how % 6 > 0 && c.model.len() < c.max {
                            *e.insert(V::mk(t)) = V::mk(t + 1);
                            c.model.insert(k, (K::norm_tag(t), V::norm(t + 1)));
                            c.lo = c.lo.min(k);
                            c.hi = c.hi.max(k + 1);
                        }
                    }
                    (Entry::Occupied(_), None) => return Err(format!("entry of absent key {} is occupied", k)),
                    (Entry::Vacant(_), Some(_)) => return Err(format!("entry of present key {} is vacant", k)),
                }
            }
            Act::IterMut(i, range, every, back, stop) => {
                self.touched_shared |= n > 1;
                let c = &mut self.all[ix(i)];
                let t = c.next_tick();
                refuel(2 * c.model.len());
                let (lo, hi, (a, b)) = match range {
                    None => (Kind::No, Kind::No, (0, 0)),
                    Some(r) => (r.lo, r.hi, r.keys(c)),
                };
                if invalid(lo, a, hi, b) {
                    return Ok(());
                }
                let mut keys: Vec<u32> = c.model.keys().copied().filter(|k| inside(*k, lo, a, hi, b)).collect();
                if *back {
                    keys.reverse();
                }
                let mut it = if range.is_none() {
                    c.tree.iter_mut()
                } else {
                    c.tree.range_mut((bound::<K>(lo, a), bound::<K>(hi, b)))
                };
                for (j, k) in keys.iter().enumerate().take(*stop as usize) {
                    let got = if *back { it.next_back() } else { it.next() };
                    let Some((key, v)) = got else {
                        return Err(format!("mutable iteration ended after {} of {}", j, keys.len()));
                    };
                    let e = c.model.get_mut(k).unwrap();
                    same!((key.n(), key.tag(), v.x()), (*k, e.0, e.1), "entry {} of mutable iteration", j);
                    if j % (*every as usize + 1) == 0 {
                        *v = V::mk(t + j as u32);
                        e.1 = V::norm(t + j as u32);
                    }
                }
                c.tick += keys.len() as u32;
            }
            Act::Consume(i, front, back) => {
                if n > 1 && self.eaten.len() < 3 {
                    self.touched_shared = true;
                    let c = self.all.remove(ix(i));
                    refuel(2 * c.model.len());
                    let exp = c.entries().into();
                    let mut it = (c.tree.into_iter(), exp);
                    Self::eat(&mut it, *front as usize, *back as usize)?;
                    self.eaten.push(it);
                }
            }
            Act::Step(i, front, back) => {
                if !self.eaten.is_empty() {
                    let i = *i as usize % self.eaten.len();
                    Self::eat(&mut self.eaten[i], *front as usize, *back as usize)?;
                }
            }
            Act::DropIter(i) => {
                if !self.eaten.is_empty() {
                    let i = *i as usize % self.eaten.len();
                    refuel(self.eaten[i].1.len());
                    self.eaten.remove(i);
                }
            }
            Act::Into(i, j, op) => {
                let (i, j) = (ix(i), ix(j));
                if i == j || n < 2 {
                    return Ok(());
                }
                self.touched_shared = true;
                let other = if op % 2 == 0 && n > 2 {
                    // the other one goes away
                    None
                } else {
                    Some(self.fork(j)?)
                };
                let (c, o) = match other {
                    Some(o) => (&mut self.all[i], o),
                    None => {
                        let o = self.all.remove(j);
                        (&mut self.all[if j < i { i - 1 } else { i }], o)
                    }
                };
                refuel(2 * (c.model.len() + o.model.len()));
                let left_wins = match op / 2 % 4 {
                    0 => {
                        c.tree.append_left(o.tree);
                        true
                    }
                    1 => {
                        c.tree.append_right(o.tree);
                        false
                    }
                    2 => {
                        c.tree = PalmTree::merge_left(std::mem::take(&mut c.tree), o.tree);
                        true
                    }
                    _ => {
                        c.tree = PalmTree::merge_right(std::mem::take(&mut c.tree), o.tree);
                        false
                    }
                };
                for (k, e) in o.model {
                    if !left_wins || !c.model.contains_key(&k) {
                        c.model.insert(k, e);
                    }
                }
                c.lo = c.lo.min(o.lo);
                c.hi = c.hi.max(o.hi);
                c.peak = c.peak.max(c.model.len());
            }
            Act::MergePart(i, j, left_wins, stop, how) => {
                let (a, b) = (self.fork(ix(i))?, self.fork(ix(j))?);
                self.touched_shared = true;
                refuel(2 * (a.model.len() + b.model.len()));
                let mut want = a.model.clone();
                for (k, e) in b.model {
                    if !left_wins || !want.contains_key(&k) {
                        want.insert(k, e);
                    }
                }
                let stop = *stop as usize % (want.len() + 2);
                fn seen<K: Key, V: Val>(e: (K, V)) -> Ent {
                    (e.0.n(), e.0.tag(), e.1.x())
                }
                fn check<K: Key, V: Val, I: Iterator<Item = (K, V)>>(
                    mut it: I,
                    mut want: impl ExactSizeIterator<Item = Ent>,
                    stop: usize,
                    how: u8,
                ) -> R {
                    for _ in 0..stop {
                        let (lo, hi) = it.size_hint();
                        same!(lo <= want.len() && hi.map_or(true, |h| h >= want.len()), true, "size hint of a merging iterator");
                        same!(it.next().map(seen), want.next(), "merging iterator");
                    }
                    match how % 8 {
                        0..=2 => drop(it),
                        3 => same!(it.count(), want.len(), "count of a merging iterator"),
                        4 => same!(it.last().map(seen), want.last(), "last of a merging iterator"),
                        5 => {
                            let n = how as usize / 8;
                            same!(it.nth(n).map(seen), want.nth(n), "nth of a merging iterator");
                            same!(it.next().map(seen), want.next(), "merging iterator after nth");
                        }
                        6 => {
                            let mut got = vec![];
                            it.fold((), |_, e| got.push(seen(e)));
                            same!(got, want.collect::<Vec<_>>(), "fold of a merging iterator")
                        }
                        _ => same!(it.map(seen).max(), want.last(), "the rest of a merging iterator"),
                    }
                    Ok(())
                }
                let want = want.iter().map(|(n, (t, x))| (*n, *t, *x));
                if *left_wins {
                    check(PalmTree::merge_left_iter(a.tree, b.tree), want, stop, *how)?
                } else {
                    check(PalmTree::merge_right_iter(a.tree, b.tree), want, stop, *how)?
                }
            }
            Act::Script(i, how, range, sc) => {
                let i = ix(i);
                let mut met = false;
                let (lo, hi, (a, b)) = match range {
                    None => (Kind::No, Kind::No, (0, 0)),
                    Some(r) => (r.lo, r.hi, r.keys(&self.all[i])),
                };
                if invalid(lo, a, hi, b) {
                    return Ok(());
                }
                let part = |c: &Ctx<K, V, C>| -> Vec<Ent> {
                    c.entries().into_iter().filter(|e| inside(e.0, lo, a, hi, b)).collect()
                };
                let mut own = |(k, v): (K, V)| (k.n(), k.tag(), v.x());
                match how {
                    How::Shared => {
                        let c = &self.all[i];
                        let exp = part(c);
                        refuel(c.model.len());
                        let mut map = |(k, v): (&K, &V)| (k.n(), k.tag(), v.x());
                        let it = match range {
                            None => c.tree.iter(),
                            Some(_) => c.tree.range((bound::<K>(lo, a), bound::<K>(hi, b))),
                        };
                        run_cloning::<C, _>(it, &exp, sc, &mut map, &mut met, &mut false)?
                    }
                    How::Mutable => {
                        self.touched_shared |= n > 1;
                        let c = &mut self.all[i];
                        let exp = part(c);
                        let mut t = c.next_tick();
                        refuel(2 * c.model.len());
                        let mut wrote = vec![];
                        let mut map = |(k, v): (&K, &mut V)| {
                            let e = (k.n(), k.tag(), v.x());
                            if k.n() % 3 > 0 {
                                *v = V::mk(t);
                                wrote.push((k.n(), V::norm(t)));
                                t += 1;
                            }
                            e
                        };
                        let it = match range {
                            None => c.tree.iter_mut(),
                            Some(_) => c.tree.range_mut((bound::<K>(lo, a), bound::<K>(hi, b))),
                        };
                        run_plain::<C, _>(it, &exp, false, sc, &mut map, &mut met)?;
                        for (k, x) in wrote {
                            c.model.get_mut(&k).unwrap().1 = x;
                        }
                        c.tick = c.tick.max(t);
                    }
                    How::Clone => {
                        self.touched_shared = true;
                        let o = self.fork(i)?;
                        let exp = o.entries();
                        refuel(2 * exp.len());
                        run_plain::<C, _>(o.tree.into_iter(), &exp, true, sc, &mut own, &mut met)?
                    }
                    How::Itself => {
                        let exp = self.all[i].entries();
                        refuel(2 * exp.len());
                        if n > 1 {
                            self.touched_shared = true;
                            let c = self.all.remove(i);
                            run_plain::<C, _>(c.tree.into_iter(), &exp, true, sc, &mut own, &mut met)?
                        }
                    }
                }
            }
            Act::Within(i, j, outer, at, inner) => {
                let (i, j) = (ix(i), ix(j));
                if i == j {
                    return Ok(());
                }
                self.touched_shared = true;
                let o = self.all.remove(j);
                let c = &mut self.all[if j < i { i - 1 } else { i }];
                let fuel = 4 * (c.model.len() + o.model.len());
                let slot = Rc::new(RefCell::new((Some(o), Ok(()))));
                let (theirs, inner) = (slot.clone(), inner.clone());
                hook::at(
                    *at as u32 + 1,
                    Box::new(move || {
                        let mut o = theirs.borrow_mut().0.take().unwrap();
                        let mut keep = true;
                        let r = match inner {
                            Inner::Mutate(m) => o.apply(&m).and_then(|_| o.audit_get(false)),
                            Inner::Read => o.audit_get(false).and_then(|_| o.audit_iter()),
                            Inner::Fork => {
                                refuel(2 * o.model.len());
                                let t = o.tree.clone();
                                o.tree = t;
                                o.audit_iter()
                            }
                            Inner::Eat(n, stay) => {
                                refuel(2 * o.model.len());
                                let t = std::mem::replace(&mut o.tree, PalmTree::new());
                                let mut it = t.into_iter();
                                let k = it.by_ref().take(n as usize).count();
                                o.model = o.model.iter().skip(k).map(|(k, e)| (*k, *e)).collect();
                                keep = stay;
                                if stay {
                                    o.tree = it.collect();
                                }
                                Ok(())
                            }
                            Inner::Drop => {
                                keep = false;
                                Ok(())
                            }
                        };
                        refuel(fuel);
                        if keep {
                            *theirs.borrow_mut() = (Some(o), r);
                        } else {
                            drop(o);
                            theirs.borrow_mut().1 = r;
                        }
                        refuel(fuel);
                    }),
                );
                let r = match outer {
                    Some(m) => c.apply(m),
                    None => c.audit_get(false).and_then(|_| c.audit_iter()),
                };
                if let Some(deed) = hook::cancel() {
                    deed();
                }
                r?;
                let (o, r) = slot.replace((None, Ok(())));
                r.map_err(|e| format!("within a call into a key or value: {}", e))?;
                if let Some(o) = o {
                    self.all.insert(j, o);
                }
            }
            Act::Idle(i, s, back) => {
                let c = &mut self.all[ix(i)];
                let k = c.pick(s);
                let t = c.next_tick();
                refuel(2 * c.model.len());
                match c.tree.entry(K::mk(k, t)) {
                    Entry::Vacant(e) if *back => same!(e.into_key().n(), k, "into_key"),
                    e => drop(e),
                }
            }
            Act::Drop(i) => {
                if n > 1 {
                    refuel(self.all[ix(i)].model.len());
                    self.all.remove(ix(i));
                }
            }
            Act::Watch(i, j, at, muts, drop_it) => {
                let (i, j) = (ix(i), ix(j));
                if i == j {
                    return Ok(());
                }
                self.touched_shared = true;
                let mut o = self.all.remove(j);
                let c = &self.all[if j < i { i - 1 } else { i }];
                let exp = c.entries();
                refuel(2 * exp.len());
                let half = *at as usize % (exp.len() + 1);
                let mut it = c.tree.iter();
                for e in &exp[..half] {
                    same!(it.next().map(|(k, v)| (k.n(), k.tag(), v.x())), Some(*e), "iteration");
                }
                for m in muts {
                    o.apply(m)?;
                }
                let back = if *drop_it && n > 2 {
                    refuel(o.model.len());
                    drop(o);
                    None
                } else {
                    Some(o)
                };
                refuel(2 * exp.len());
                for (k, e) in exp[half..].iter().enumerate() {
                    let (e, got) = if k % 2 == 0 {
                        (&exp[half + k / 2], it.next())
                    } else {
                        let _ = e;
                        (&exp[exp.len() - 1 - k / 2], it.next_back())
                    };
                    same!(
                        got.map(|(k, v)| (k.n(), k.tag(), v.x())),
                        Some(*e),
                        "iteration of one tree, after another was changed"
                    );
                }
                same!(it.next().is_none(), true, "iteration over");
                if let Some(o) = back {
                    self.all.insert(j, o);
                }
            }
            Act::Keep(i, j, every, muts) => {
                let (i, j) = (ix(i), ix(j));
                if i == j {
                    return Ok(());
                }
                self.touched_shared = true;
                let mut o = self.all.remove(j);
                let c = &mut self.all[if j < i { i - 1 } else { i }];
                let t = c.next_tick();
                refuel(2 * c.model.len());
                let mut kept: Vec<(u32, &mut V)> = c
                    .tree
                    .iter_mut()
                    .enumerate()
                    .filter(|(p, _)| p % (*every as usize % 20 + 1) == 0)
                    .map(|(_, (k, v))| (k.n(), v))
                    .collect();
                for m in muts {
                    o.apply(m)?;
                }
                o.audit_get(false)?;
                refuel(2 * kept.len());
                for (p, (k, v)) in kept.iter_mut().enumerate() {
                    let Some(e) = c.model.get_mut(k) else { return Err(format!("mutable iteration yields absent key {}", k)) };
                    same!(v.x(), e.1, "kept reference to the value of {}", k);
                    **v = V::mk(t + p as u32);
                    e.1 = V::norm(t + p as u32);
                }
                c.tick += kept.len() as u32;
                self.all.insert(j, o);
            }
        }
        Ok(())
    }
}


fn inner() -> BoxedStrategy<Inner> {
    prop_oneof![
        4 => mutation().prop_map(Inner::Mutate),
        1 => Just(Inner::Read),
        1 => Just(Inner::Fork),
        1 => (0u16..40, any::<bool>()).prop_map(|(n, s)| Inner::Eat(n, s)),
        3 => Just(Inner::Drop),
    ]
    .boxed()
}

fn how() -> BoxedStrategy<How> {
    prop_oneof![Just(How::Shared), Just(How::Mutable), Just(How::Clone), Just(How::Itself)].boxed()
}

/// A script over the one tree with this number.
pub fn script_of(i: u8) -> BoxedStrategy<Act> {
    (how(), prop_oneof![Just(None), bounds().prop_map(Some)], script(4)).prop_map(move |(h, r, s)| Act::Script(i, h, r, s)).boxed()
}

pub fn act() -> BoxedStrategy<Act> {
    let i = || any::<u8>();
    let many = || prop_oneof![1 => 0u16..6, 1 => 0u16..80, 1 => any::<u16>()];
    prop_oneof![
        5 => i().prop_map(Act::Fork),
        8 => (i(), mutation()).prop_map(|(i, m)| Act::Mutate(i, m)),
        4 => (i(), sel(), i()).prop_map(|(i, s, h)| Act::Entry(i, s, h)),
        4 => (i(), prop_oneof![1 => Just(None), 2 => bounds().prop_map(Some)], 0u8..5, any::<bool>(), many())
        .prop_map(|(i, r, e, b, s)| Act::IterMut(i, r, e, b, s)),
        2 => (i(), many(), many()).prop_map(|(i, a, b)| Act::Consume(i, a, b)),
        1 => (i(), many(), many()).prop_map(|(i, a, b)| Act::Step(i, a, b)),
        1 => i().prop_map(Act::DropIter),
        2 => (i(), i(), i()).prop_map(|(i, j, o)| Act::Into(i, j, o)),
        2 => i().prop_map(Act::Drop),
        2 => (i(), i(), any::<u16>(), vec(mutation(), 1..4), any::<bool>()).prop_map(|(i, j, a, m, d)| Act::Watch(i, j, a, m, d)),
        1 => (i(), i(), any::<u16>(), vec(mutation(), 1..4)).prop_map(|(i, j, a, m)| Act::Keep(i, j, a, m)),
        2 => (i(), i()).prop_map(|(i, j)| Act::Assign(i, j)),
        1 => (i(), i(), any::<bool>(), many(), i()).prop_map(|(i, j, l, s, h)| Act::MergePart(i, j, l, s, h)),
        3 => (i(), how(), prop_oneof![Just(None), bounds().prop_map(Some)], script(4)).prop_map(|(i, h, r, s)| Act::Script(i, h, r, s)),
        1 => (i(), sel(), any::<bool>()).prop_map(|(i, s, b)| Act::Idle(i, s, b)),
        2 => (i(), i(), prop_oneof![1 => Just(None), 5 => mutation().prop_map(Some)], prop_oneof![0u16..8, 0u16..60, 0u16..1000], inner())
            .prop_map(|(i, j, m, n, inner)| Act::Within(i, j, m, n, inner)),
    ]
    .boxed()
}
