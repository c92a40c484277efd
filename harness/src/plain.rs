//! Histories that do not depend on node sizes, so that the same one can be run over every configuration,
//! and the transcript of all they make observable.

use crate::engine::R;
use crate::hist::{refuel, shuffled};
use crate::types::*;
use palmtree::{Entry, PalmTree, TreeConfig};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ops::Bound::{self, *};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ins(u16, u8),
    Rem(u16, u8),
    Upd(u16, u8),
    /// from, how many, stride, order (0 up, 1 down, else shuffled), api
    InsRun(u16, u16, u8, u8, u8),
    RemRun(u16, u16, u8, u8, u8),
    Pop(bool, u16),
    Load(u16, u16, u8),
    Collect(u16, u16, u8, u8),
    Extend(u16, u16, u8, u8),
    /// with another tree: which operation, the other's entries, how it is built
    Merge(u8, u16, u16, u8, u8),
    Fork,
    Back,
    Range(u16, u16, u8, u8),
    RangeMut(u16, u16, u8, u8),
    Iter(u8),
    /// consume a clone from both ends
    Eat(u16, u16),
    /// look up a stretch
    Gets(u16, u8),
    Drain(bool),
    Equal,
    Shown,
}

pub fn op() -> BoxedStrategy<Op> {
    let k = || 0u16..6000;
    let n = || prop_oneof![4 => 1u16..40, 3 => 1u16..300, 1 => 1u16..2500];
    let s = || prop_oneof![3 => Just(1u8), 2 => 2u8..9];
    let a = any::<u8>;
    prop_oneof![
        6 => (k(), a()).prop_map(|(k, x)| Op::Ins(k, x)),
        6 => (k(), a()).prop_map(|(k, x)| Op::Rem(k, x)),
        2 => (k(), a()).prop_map(|(k, x)| Op::Upd(k, x)),
        8 => (k(), n(), s(), 0u8..5, a()).prop_map(|(k, n, s, o, x)| Op::InsRun(k, n, s, o, x)),
        7 => (k(), n(), s(), 0u8..5, a()).prop_map(|(k, n, s, o, x)| Op::RemRun(k, n, s, o, x)),
        2 => (any::<bool>(), n()).prop_map(|(h, n)| Op::Pop(h, n)),
        2 => (k(), n(), s()).prop_map(|(k, n, s)| Op::Load(k, n, s)),
        1 => (k(), n(), s(), a()).prop_map(|(k, n, s, x)| Op::Collect(k, n, s, x)),
        2 => (k(), n(), s(), a()).prop_map(|(k, n, s, x)| Op::Extend(k, n, s, x)),
        3 => (a(), k(), n(), s(), a()).prop_map(|(w, k, n, s, x)| Op::Merge(w, k, n, s, x)),
        2 => Just(Op::Fork),
        1 => Just(Op::Back),
        4 => (k(), k(), a(), a()).prop_map(|(l, h, x, y)| Op::Range(l, h, x, y)),
        2 => (k(), k(), a(), a()).prop_map(|(l, h, x, y)| Op::RangeMut(l, h, x, y)),
        2 => a().prop_map(Op::Iter),
        2 => (n(), n()).prop_map(|(x, y)| Op::Eat(x, y)),
        3 => (k(), a()).prop_map(|(k, n)| Op::Gets(k, n)),
        1 => any::<bool>().prop_map(Op::Drain),
        1 => Just(Op::Equal),
        1 => Just(Op::Shown),
    ]
    .boxed()
}
pub fn ops(n: usize) -> BoxedStrategy<Vec<Op>> {
    vec(op(), 1..=n).boxed()
}

/// What both a tree and the model can do, in numbers.
pub trait Sut {
    fn insert(&mut self, k: u32, x: u32, api: u8) -> Option<u32>;
    fn remove(&mut self, k: u32, api: u8) -> Option<u32>;
    fn update(&mut self, k: u32, x: u32, api: u8) -> Option<u32>;
    fn get(&self, k: u32) -> Option<u32>;
    fn pop(&mut self, high: bool) -> Option<(u32, u32)>;
    fn len(&self) -> usize;
    fn load(&mut self, ps: &[(u32, u32)]);
    fn collect(&mut self, ps: &[(u32, u32)]);
    fn extend(&mut self, ps: &[(u32, u32)]);
    fn merge(&mut self, other: &[(u32, u32)], how: u8, build: u8);
    fn fork(&mut self);
    fn back(&mut self);
    /// step from the front or back by the bits of `script`, over and over
    fn range(&mut self, lo: Bound<u32>, hi: Bound<u32>, script: u8, write: Option<u32>) -> Vec<(u32, u32)>;
    fn eat(&mut self, front: usize, back: usize) -> (Vec<(u32, u32)>, usize);
    /// equality with the fork, and order against it
    fn equal(&self) -> (bool, i8);
    fn shown(&self) -> usize;
}

fn domain(dom: u32, k: u32) -> u32 {
    if dom == u32::MAX {
        k
    } else {
        k % dom
    }
}

fn keys(dom: u32, from: u16, n: u16, stride: u8, order: u8) -> Vec<u32> {
    let v: Vec<u32> = (0..n as u32).map(|i| domain(dom, from as u32 + i * stride as u32)).collect();
    match order {
        0 => v,
        1 => v.into_iter().rev().collect(),
        o => shuffled(v.len(), o as u32 * 77 + from as u32).into_iter().map(|i| v[i]).collect(),
    }
}

fn limits(dom: u32, l: u16, h: u16, kinds: u8) -> Option<(Bound<u32>, Bound<u32>)> {
    let (mut l, mut h) = (domain(dom, l as u32), domain(dom, h as u32));
    if l > h {
        std::mem::swap(&mut l, &mut h);
    }
    let b = |k: u8, n: u32| match k % 3 {
        0 => Included(n),
        1 => Excluded(n),
        _ => Unbounded,
    };
    let (a, z) = (b(kinds, l), b(kinds / 3, h));
    if l == h && matches!((a, z), (Excluded(_), Excluded(_))) {
        return None;
    }
    Some((a, z))
}

pub struct Transcript {
    pub seen: Vec<u32>,
    /// where each step's answers begin
    pub starts: Vec<usize>,
    pub peak: usize,
    pub end: usize,
}

pub fn perform(ops: &[Op], dom: u32, norm: fn(u32) -> u32, s: &mut dyn Sut) -> Transcript {
    let mut t = Transcript { seen: vec![], starts: vec![], peak: 0, end: 0 };
    let mut tick = 0u32;
    let opt = |o: Option<u32>| o.map(|x| x ^ 0x5000_0000).unwrap_or(u32::MAX);
    for op in ops {
        t.starts.push(t.seen.len());
        refuel(3 * s.len() + 5000);
        tick += 1;
        let pairs = |tick: &mut u32, ks: Vec<u32>| -> Vec<(u32, u32)> {
            ks.into_iter()
                .map(|k| {
                    *tick += 1;
                    (k, *tick)
                })
                .collect()
        };
        match op {
            Op::Ins(k, api) => t.seen.push(opt(s.insert(domain(dom, *k as u32), tick, *api))),
            Op::Rem(k, api) => t.seen.push(opt(s.remove(domain(dom, *k as u32), *api))),
            Op::Upd(k, api) => t.seen.push(opt(s.update(domain(dom, *k as u32), tick, *api))),
            Op::InsRun(k, n, st, o, api) => {
                for k in keys(dom, *k, *n, *st, *o) {
                    tick += 1;
                    t.seen.push(opt(s.insert(k, tick, *api)));
                }
            }
            Op::RemRun(k, n, st, o, api) => {
                for k in keys(dom, *k, *n, *st, *o) {
                    t.seen.push(opt(s.remove(k, *api)));
                }
            }
            Op::Pop(high, n) => {
                for _ in 0..(*n).min(400) {
                    match s.pop(*high) {
                        Some((k, x)) => t.seen.extend([k, x]),
                        None => {
                            t.seen.push(u32::MAX);
                            break;
                        }
                    }
                }
            }
            Op::Load(k, n, st) => {
                let mut ks = keys(dom, *k, *n, *st, 0);
                ks.sort();
                ks.dedup();
                let p = pairs(&mut tick, ks);
                s.load(&p);
            }
            Op::Collect(k, n, st, o) => {
                let p = pairs(&mut tick, keys(dom, *k, *n, *st, *o));
                s.collect(&p);
            }
            Op::Extend(k, n, st, o) => {
                let p = pairs(&mut tick, keys(dom, *k, *n, *st, *o));
                s.extend(&p);
            }
            Op::Merge(how, k, n, st, build) => {
                let mut ks = keys(dom, *k, *n, *st, 0);
                ks.sort();
                ks.dedup();
                let p = pairs(&mut tick, ks);
                s.merge(&p, *how, *build);
            }
            Op::Fork => s.fork(),
            Op::Back => s.back(),
            Op::Range(l, h, kinds, script) | Op::RangeMut(l, h, kinds, script) => {
                if let Some((a, z)) = limits(dom, *l, *h, *kinds) {
                    let w = matches!(op, Op::RangeMut(..)).then(|| tick);
                    for (k, x) in s.range(a, z, *script, w) {
                        t.seen.extend([k, x]);
                    }
                }
            }
            Op::Iter(script) => {
                for (k, x) in s.range(Unbounded, Unbounded, *script, None) {
                    t.seen.extend([k, x]);
                }
            }
            Op::Eat(a, b) => {
                let (v, left) = s.eat(*a as usize, *b as usize);
                for (k, x) in v {
                    t.seen.extend([k, x]);
                }
                t.seen.push(left as u32);
            }
            Op::Gets(k, n) => {
                for i in 0..*n as u32 {
                    t.seen.push(opt(s.get(domain(dom, *k as u32 + i))));
                }
            }
            Op::Drain(high) => {
                while let Some((k, x)) = s.pop(*high) {
                    t.seen.extend([k, x]);
                }
            }
            Op::Equal => {
                let (e, o) = s.equal();
                t.seen.extend([e as u32, o as u32]);
            }
            Op::Shown => t.seen.push(s.shown() as u32),
        }
        t.seen.push(s.len() as u32);
        t.peak = t.peak.max(s.len());
    }
    t.starts.push(t.seen.len());
    refuel(3 * s.len() + 5000);
    for (k, x) in s.range(Unbounded, Unbounded, 0, None) {
        t.seen.extend([k, x]);
    }
    t.end = s.len();
    let _ = norm;
    t
}

/// Where two transcripts of the same history part.
pub fn differ(ops: &[Op], got: &Transcript, want: &Transcript) -> R {
    if got.seen == want.seen {
        return Ok(());
    }
    for i in 0..got.starts.len() {
        let (a, b) = (got.starts[i], want.starts[i]);
        let (az, bz) = (
            got.starts.get(i + 1).copied().unwrap_or(got.seen.len()),
            want.starts.get(i + 1).copied().unwrap_or(want.seen.len()),
        );
        let (x, y) = (&got.seen[a..az], &want.seen[b..bz]);
        if x != y {
            let p = x.iter().zip(y).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "step {} {:?}: answer {} is {:?}, expected {:?} ({} answers, expected {})",
                i,
                ops.get(i),
                p,
                x.get(p),
                y.get(p),
                x.len(),
                y.len()
            ));
        }
    }
    Err("transcripts differ".into())
}

pub struct Plain {
    pub map: BTreeMap<u32, u32>,
    pub other: BTreeMap<u32, u32>,
    pub norm: fn(u32) -> u32,
}
impl Plain {
    pub fn new(norm: fn(u32) -> u32) -> Self {
        Plain { map: BTreeMap::new(), other: BTreeMap::new(), norm }
    }
}
fn take<T>(it: &mut dyn DoubleEndedIterator<Item = T>, script: u8) -> Vec<T> {
    let mut out = vec![];
    let mut i = 0;
    loop {
        let x = if script >> (i % 8) & 1 == 0 { it.next() } else { it.next_back() };
        match x {
            Some(x) => out.push(x),
            None => return out,
        }
        i += 1;
    }
}
impl Sut for Plain {
    fn insert(&mut self, k: u32, x: u32, _: u8) -> Option<u32> {
        self.map.insert(k, (self.norm)(x))
    }
    fn remove(&mut self, k: u32, _: u8) -> Option<u32> {
        self.map.remove(&k)
    }
    fn update(&mut self, k: u32, x: u32, _: u8) -> Option<u32> {
        let n = (self.norm)(x);
        self.map.get_mut(&k).map(|v| std::mem::replace(v, n))
    }
    fn get(&self, k: u32) -> Option<u32> {
        self.map.get(&k).copied()
    }
    fn pop(&mut self, high: bool) -> Option<(u32, u32)> {
        if high {
            self.map.pop_last()
        } else {
            self.map.pop_first()
        }
    }
    fn len(&self) -> usize {
        self.map.len()
    }
    fn load(&mut self, ps: &[(u32, u32)]) {
        self.collect(ps)
    }
    fn collect(&mut self, ps: &[(u32, u32)]) {
        self.map.clear();
        self.extend(ps)
    }
    fn extend(&mut self, ps: &[(u32, u32)]) {
        for (k, x) in ps {
            self.insert(*k, *x, 0);
        }
    }
    fn merge(&mut self, other: &[(u32, u32)], how: u8, _: u8) {
        let left = how % 2 == 0;
        for (k, x) in other {
            if !left || !self.map.contains_key(k) {
                self.insert(*k, *x, 0);
            }
        }
    }
    fn fork(&mut self) {
        self.other = self.map.clone()
    }
    fn back(&mut self) {
        std::mem::swap(&mut self.map, &mut self.other)
    }
    fn range(&mut self, lo: Bound<u32>, hi: Bound<u32>, script: u8, write: Option<u32>) -> Vec<(u32, u32)> {
        let norm = self.norm;
        match write {
            None => take(&mut self.map.range((lo, hi)).map(|(k, v)| (*k, *v)), script),
            Some(w) => take(&mut self.map.range_mut((lo, hi)).map(|(k, v)| (*k, std::mem::replace(v, norm(w ^ *k)))), script),
        }
    }
    fn eat(&mut self, front: usize, back: usize) -> (Vec<(u32, u32)>, usize) {
        let mut it = self.map.clone().into_iter();
        let mut out: Vec<_> = it.by_ref().take(front).collect();
        out.extend(it.by_ref().rev().take(back));
        (out, it.len())
    }
    fn equal(&self) -> (bool, i8) {
        (self.map == self.other, self.map.iter().cmp(self.other.iter()) as i8)
    }
    fn shown(&self) -> usize {
        0
    }
}

pub struct Tree<K: Key, V: Val, C: TreeConfig<K, V> + Sizes> {
    tree: PalmTree<K, V, C>,
    other: PalmTree<K, V, C>,
}
impl<K: Key, V: Val, C: TreeConfig<K, V> + Sizes> Tree<K, V, C> {
    pub fn new() -> Self {
        Tree { tree: PalmTree::new(), other: PalmTree::new() }
    }
}
fn mk<K: Key, V: Val>(ps: &[(u32, u32)]) -> impl Iterator<Item = (K, V)> + '_ {
    ps.iter().map(|(k, x)| (K::mk(*k, 0), V::mk(*x)))
}
impl<K: Key, V: Val, C: TreeConfig<K, V> + Sizes> Sut for Tree<K, V, C> {
    fn insert(&mut self, k: u32, x: u32, api: u8) -> Option<u32> {
        let (key, v) = (K::mk(k, 0), V::mk(x));
        match api % 5 {
            0 | 1 => self.tree.insert(key, v).map(|v| v.x()),
            2 => self.tree.insert_recursive(key, v).map(|v| v.x()),
            3 => match self.tree.entry(key) {
                Entry::Vacant(e) => {
                    e.insert(v);
                    None
                }
                Entry::Occupied(mut e) => Some(e.insert(v).x()),
            },
            _ => match self.tree.entry(key) {
                Entry::Vacant(e) => {
                    let r = e.insert(V::mk(x ^ 1));
                    *r = v;
                    None
                }
                Entry::Occupied(e) => Some(std::mem::replace(e.into_mut(), v).x()),
            },
        }
    }
    fn remove(&mut self, k: u32, api: u8) -> Option<u32> {
        let key = K::mk(k, 0);
        match api % 3 {
            0 => self.tree.remove(&key).map(|(k2, v)| {
                assert_eq!(k2.n(), k, "key removed");
                v.x()
            }),
            1 => match self.tree.entry(key) {
                Entry::Vacant(_) => None,
                Entry::Occupied(e) => Some(e.remove().x()),
            },
            _ => match self.tree.entry(key) {
                Entry::Vacant(_) => None,
                Entry::Occupied(e) => {
                    let (k2, v) = e.remove_entry();
                    assert_eq!(k2.n(), k, "key removed");
                    Some(v.x())
                }
            },
        }
    }
    fn update(&mut self, k: u32, x: u32, api: u8) -> Option<u32> {
        let key = K::mk(k, 0);
        let v = V::mk(x);
        if api % 2 == 0 {
            self.tree.get_mut(&key).map(|w| std::mem::replace(w, v).x())
        } else if self.tree.get(&key).is_some() {
            Some(std::mem::replace(&mut self.tree[&key], v).x())
        } else {
            None
        }
    }
    fn get(&self, k: u32) -> Option<u32> {
        let key = K::mk(k, 0);
        let a = self.tree.get(&key).map(|v| v.x());
        assert_eq!(a, self.tree.get_linear(&key).map(|v| v.x()), "get and get_linear of {}", k);
        a
    }
    fn pop(&mut self, high: bool) -> Option<(u32, u32)> {
        let r = if high { self.tree.remove_highest() } else { self.tree.remove_lowest() };
        r.map(|(k, v)| (k.n(), v.x()))
    }
    fn len(&self) -> usize {
        assert_eq!(self.tree.is_empty(), self.tree.len() == 0);
        self.tree.len()
    }
    fn load(&mut self, ps: &[(u32, u32)]) {
        self.tree = PalmTree::load(mk(ps))
    }
    fn collect(&mut self, ps: &[(u32, u32)]) {
        self.tree = mk(ps).collect()
    }
    fn extend(&mut self, ps: &[(u32, u32)]) {
        self.tree.extend(mk::<K, V>(ps))
    }
    fn merge(&mut self, other: &[(u32, u32)], how: u8, build: u8) {
        let o: PalmTree<K, V, C> = if build % 2 == 0 { PalmTree::load(mk(other)) } else { mk(other).collect() };
        let me = &mut self.tree;
        let now = |me: &mut PalmTree<K, V, C>| std::mem::take(me);
        match (how % 2 == 0, how / 2 % 3) {
            (true, 0) => me.append_left(o),
            (true, 1) => *me = PalmTree::merge_left(now(me), o),
            (true, _) => *me = PalmTree::load(PalmTree::merge_left_iter(now(me), o)),
            (false, 0) => me.append_right(o),
            (false, 1) => *me = PalmTree::merge_right(now(me), o),
            (false, _) => *me = PalmTree::load(PalmTree::merge_right_iter(now(me), o)),
        }
    }
    fn fork(&mut self) {
        self.other = self.tree.clone()
    }
    fn back(&mut self) {
        std::mem::swap(&mut self.tree, &mut self.other)
    }
    fn range(&mut self, lo: Bound<u32>, hi: Bound<u32>, script: u8, write: Option<u32>) -> Vec<(u32, u32)> {
        let b = |b: Bound<u32>| match b {
            Included(n) => Included(K::mk(n, 0)),
            Excluded(n) => Excluded(K::mk(n, 0)),
            Unbounded => Unbounded,
        };
        let whole = matches!((lo, hi), (Unbounded, Unbounded)) && script % 3 == 0;
        let f = |(k, v): (&K, &V)| (k.n(), v.x());
        match write {
            None if whole => take(&mut self.tree.iter().map(f), script),
            None => take(&mut self.tree.range((b(lo), b(hi))).map(f), script),
            Some(w) => {
                let f = |(k, v): (&K, &mut V)| (k.n(), std::mem::replace(v, V::mk(w ^ k.n())).x());
                if whole {
                    take(&mut self.tree.iter_mut().map(f), script)
                } else {
                    take(&mut self.tree.range_mut((b(lo), b(hi))).map(f), script)
                }
            }
        }
    }
    fn eat(&mut self, front: usize, back: usize) -> (Vec<(u32, u32)>, usize) {
        let mut it = self.tree.clone().into_iter();
        let f = |(k, v): (K, V)| (k.n(), v.x());
        let mut out: Vec<_> = it.by_ref().take(front).map(f).collect();
        out.extend(it.by_ref().rev().take(back).map(f));
        (out, it.len())
    }
    fn equal(&self) -> (bool, i8) {
        let f = |(k, v): (&K, &V)| (k.n(), v.x());
        (self.tree == self.other, self.tree.iter().map(f).cmp(self.other.iter().map(f)) as i8)
    }
    fn shown(&self) -> usize {
        // How entries are written differs between types; that it can be written does not.
        let _ = format!("{:?}", self.tree);
        0
    }
}
