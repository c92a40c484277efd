//! Generated histories: recipes that bring a tree (and its model) into some reachable state.

use crate::engine::{fuel, R};
use crate::types::*;
use palmtree::{Entry, PalmTree, TreeConfig};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;


/// The reference model: key number -> (instance tag of the stored key, value number).
pub type Model = BTreeMap<u32, (u32, u32)>;

/// A size relative to the node capacities, so that node-full boundaries are hit at every level.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Size {
    Raw(u16),
    Leaf(u8, i8),
    Branch(u8, i8),
    Deep(u8, i8),
    /// a whole level-three tree
    Deeper(u8, i8),
}
impl Size {
    pub fn get<C: Sizes>(&self, max: usize) -> usize {
        let f = |base: usize, m: u8, d: i8| {
            let m = (m % 5) as i64 + 1;
            // a multiple too large for this check falls back to fewer of the unit, never to an arbitrary clip
            let mut v = base as i64 * m + d as i64;
            if v > max as i64 {
                v = base as i64 + d as i64;
            }
            v.clamp(0, i64::MAX) as usize
        };
        let r = match *self {
            Size::Raw(x) => x as usize % (max.min(4 * C::L * C::B) + 1),
            Size::Leaf(m, d) => f(C::L, m, d),
            Size::Branch(m, d) => f(C::L * C::B, m, d),
            Size::Deep(m, d) => f(C::L * C::B * C::B, m, d),
            Size::Deeper(m, d) => f(C::L * C::B * C::B * C::B, m, d),
        };
        if r > max {
            r % (max + 1)
        } else {
            r
        }
    }
}
pub fn size() -> BoxedStrategy<Size> {
    prop_oneof![
        3 => (0u16..40).prop_map(Size::Raw),
        2 => any::<u16>().prop_map(Size::Raw),
        3 => (0u8..5, -2i8..3).prop_map(|(m, d)| Size::Leaf(m, d)),
        3 => (0u8..5, -2i8..3).prop_map(|(m, d)| Size::Branch(m, d)),
        3 => (0u8..5, -2i8..3).prop_map(|(m, d)| Size::Deep(m, d)),
        1 => (0u8..5, -2i8..3).prop_map(|(m, d)| Size::Deeper(m, d)),
    ]
    .boxed()
}

/// How many consecutive entries a run touches.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Len {
    Few(u8),
    Leafs(u8, i8),
    Branches(u8, i8),
}
impl Len {
    pub fn get<C: Sizes>(&self, max: usize) -> usize {
        let r = match *self {
            Len::Few(n) => n as usize,
            Len::Leafs(m, d) => ((C::L * (m as usize % 4 + 1)) as i64 + d as i64).max(0) as usize,
            Len::Branches(m, d) => ((C::L * C::B * (m as usize % 3 + 1)) as i64 + d as i64).max(0) as usize,
        };
        r.min(max)
    }
}
pub fn len() -> BoxedStrategy<Len> {
    prop_oneof![
        3 => (1u8..12).prop_map(Len::Few),
        3 => (0u8..4, -2i8..3).prop_map(|(m, d)| Len::Leafs(m, d)),
        2 => (0u8..3, -2i8..3).prop_map(|(m, d)| Len::Branches(m, d)),
    ]
    .boxed()
}

/// How a key is picked in the current state.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Sel {
    /// any key of the domain
    Any(u32),
    /// a present key, the first at or after a point
    Near(u32),
    /// next to a present key
    NearOff(u32, i8),
    /// a key removed earlier
    Ghost(u16),
    GhostOff(u16, i8),
    Above(u8),
    Below(u8),
    Max,
    Min,
}
pub fn sel() -> BoxedStrategy<Sel> {
    prop_oneof![
        3 => any::<u32>().prop_map(Sel::Any),
        4 => any::<u32>().prop_map(Sel::Near),
        3 => (any::<u32>(), -2i8..3).prop_map(|(r, d)| Sel::NearOff(r, d)),
        3 => any::<u16>().prop_map(Sel::Ghost),
        2 => (any::<u16>(), -2i8..3).prop_map(|(r, d)| Sel::GhostOff(r, d)),
        1 => (0u8..4).prop_map(Sel::Above),
        1 => (0u8..4).prop_map(Sel::Below),
        1 => Just(Sel::Max),
        1 => Just(Sel::Min),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum InsApi {
    Insert,
    Recursive,
    Entry,
    EntryMut,
}
pub fn ins_api() -> BoxedStrategy<InsApi> {
    prop_oneof![
        4 => Just(InsApi::Insert),
        3 => Just(InsApi::Recursive),
        1 => Just(InsApi::Entry),
        1 => Just(InsApi::EntryMut),
    ]
    .boxed()
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum RemApi {
    Remove,
    Entry,
    EntryPair,
}
pub fn rem_api() -> BoxedStrategy<RemApi> {
    prop_oneof![4 => Just(RemApi::Remove), 1 => Just(RemApi::Entry), 1 => Just(RemApi::EntryPair)].boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Build {
    Empty,
    Load(Size, u8),
    Asc(Size, u8, InsApi),
    Desc(Size, u8, InsApi),
    Shuffled(Size, u8, u32, InsApi),
    Collect(Size, u8, u32),
    FromMap(Size, u8),
}
pub fn build() -> BoxedStrategy<Build> {
    prop_oneof![
        1 => Just(Build::Empty),
        4 => (size(), 1u8..6).prop_map(|(s, k)| Build::Load(s, k)),
        2 => (size(), 1u8..6, ins_api()).prop_map(|(s, k, a)| Build::Asc(s, k, a)),
        2 => (size(), 1u8..6, ins_api()).prop_map(|(s, k, a)| Build::Desc(s, k, a)),
        3 => (size(), 1u8..6, any::<u32>(), ins_api()).prop_map(|(s, k, p, a)| Build::Shuffled(s, k, p, a)),
        1 => (size(), 1u8..6, any::<u32>()).prop_map(|(s, k, p)| Build::Collect(s, k, p)),
        1 => (size(), 1u8..6).prop_map(|(s, k)| Build::FromMap(s, k)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Mut {
    Ins(Sel, InsApi),
    Rem(Sel, RemApi),
    Upd(Sel),
    /// insert a run of keys starting somewhere
    InsRun(Sel, Len, u8, bool, InsApi),
    /// remove a run of consecutive present keys
    RemRun(Sel, Len, bool, RemApi),
    /// remove all but every m-th
    KeepEvery(u8, u8, bool),
    /// of every `period` leaf-sized groups keep one
    KeepGroups(u8, u8, bool),
    PopLow(Len),
    PopHigh(Len),
    Append(Len, InsApi),
    Prepend(Len, InsApi),
    Clear(u8),
    CloneReplace,
    Reload,
    MergeIn(Sel, Len, u8),
}
pub fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        8 => (sel(), ins_api()).prop_map(|(s, a)| Mut::Ins(s, a)),
        6 => (sel(), rem_api()).prop_map(|(s, a)| Mut::Rem(s, a)),
        1 => sel().prop_map(Mut::Upd),
        4 => (sel(), len(), 1u8..6, any::<bool>(), ins_api()).prop_map(|(s, l, k, r, a)| Mut::InsRun(s, l, k, r, a)),
        5 => (sel(), len(), any::<bool>(), rem_api()).prop_map(|(s, l, r, a)| Mut::RemRun(s, l, r, a)),
        1 => (2u8..9, any::<u8>(), any::<bool>()).prop_map(|(m, p, r)| Mut::KeepEvery(m, p, r)),
        1 => (2u8..5, any::<u8>(), any::<bool>()).prop_map(|(m, p, r)| Mut::KeepGroups(m, p, r)),
        1 => len().prop_map(Mut::PopLow),
        2 => len().prop_map(Mut::PopHigh),
        2 => (len(), ins_api()).prop_map(|(l, a)| Mut::Append(l, a)),
        1 => (len(), ins_api()).prop_map(|(l, a)| Mut::Prepend(l, a)),
        1 => any::<u8>().prop_map(Mut::Clear),
        1 => Just(Mut::CloneReplace),
        1 => Just(Mut::Reload),
        1 => (sel(), len(), any::<u8>()).prop_map(|(s, l, k)| Mut::MergeIn(s, l, k)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Recipe {
    pub build: Build,
    pub muts: Vec<Mut>,
}
pub fn recipe(max_muts: usize) -> BoxedStrategy<Recipe> {
    (build(), vec(mutation(), 0..=max_muts))
        .prop_map(|(build, muts)| Recipe { build, muts })
        .boxed()
}

/// Permutation of 0..n determined by `seed`.
pub fn shuffled(n: usize, seed: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let mut s = seed as u64 | 1 << 40;
    for i in (1..n).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, ((s >> 33) % (i as u64 + 1)) as usize);
    }
    v
}

pub struct Ctx<K, V, C: TreeConfig<K, V>> {
    pub tree: PalmTree<K, V, C>,
    pub model: Model,
    pub ghosts: Vec<u32>,
    /// keys lie in lo..hi
    pub lo: u32,
    pub hi: u32,
    pub tick: u32,
    pub max: usize,
    /// most entries the tree ever had, and number of elementary operations so far
    pub peak: usize,
    pub work: usize,
    /// where generated keys start
    pub base: u32,
    /// whether return values are compared with the model
    pub strict: bool,
}

pub fn refuel(n: usize) {
    fuel(40_000_000 + n as i64 * 20_000);
}

#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($arg:tt)*) => {{
        let (g, w) = (&$got, &$want);
        if g != w {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), g, w));
        }
    }};
}

impl<K: Key, V: Val, C: TreeConfig<K, V> + Sizes> Ctx<K, V, C> {
    pub fn new(max: usize, strict: bool) -> Self {
        Ctx {
            tree: PalmTree::new(),
            model: Model::new(),
            ghosts: vec![],
            lo: 1000,
            hi: 1256,
            tick: 1,
            max: max.min(K::DOM as usize),
            peak: 0,
            work: 0,
            base: 1000,
            strict,
        }
    }

    pub fn from_recipe(r: &Recipe, max: usize, strict: bool) -> R<Self> {
        let mut c = Self::new(max, strict);
        c.build(&r.build)?;
        for m in &r.muts {
            c.apply(m)?;
        }
        Ok(c)
    }

    /// A second tree beside another: keys shifted, instances numbered apart.
    pub fn from_recipe_at(r: &Recipe, max: usize, strict: bool, base: u32, tick: u32) -> R<Self> {
        let mut c = Self::new(max, strict);
        c.base = base;
        c.tick = tick;
        c.lo = base;
        c.hi = base + 256;
        c.build(&r.build)?;
        for m in &r.muts {
            c.apply(m)?;
        }
        Ok(c)
    }

    /// Take over a tree and what it should hold.
    pub fn adopt(tree: PalmTree<K, V, C>, model: Model, max: usize, tick: u32) -> Self {
        let mut c = Self::new(max.max(model.len()), true);
        c.tree = tree;
        c.tick = tick;
        if let (Some((a, _)), Some((b, _))) = (model.iter().next(), model.iter().next_back()) {
            c.lo = a.saturating_sub(8);
            c.hi = b + 8;
        }
        c.peak = model.len();
        c.model = model;
        c
    }
    pub fn norm(n: u32) -> u32 {
        if K::DOM == u32::MAX {
            n
        } else {
            n % K::DOM
        }
    }
    pub fn next_tick(&mut self) -> u32 {
        self.tick += 8;
        self.tick
    }
    fn tick(&mut self) -> u32 {
        self.tick += 1;
        self.tick
    }
    fn note(&mut self, n: usize) {
        self.work += n;
        self.peak = self.peak.max(self.model.len());
    }
    fn ghost(&mut self, n: u32) {
        if self.ghosts.len() < 256 {
            self.ghosts.push(n);
        } else {
            let i = (self.tick as usize * 7919) % 256;
            self.ghosts[i] = n;
        }
    }

    /// The key number a selector stands for now.
    pub fn pick(&self, s: &Sel) -> u32 {
        let span = self.hi.wrapping_sub(self.lo).max(1);
        let near = |r: u32| {
            let p = self.lo.wrapping_add(r % span);
            self.model
                .range(Self::norm(p)..)
                .next()
                .or_else(|| self.model.iter().next())
                .map(|(k, _)| *k)
                .unwrap_or(p)
        };
        let off = |n: u32, d: i8| (n as i64 + d as i64).clamp(0, u32::MAX as i64 - 1) as u32;
        let ghost = |g: u16| {
            if self.ghosts.is_empty() {
                near(g as u32)
            } else {
                self.ghosts[g as usize % self.ghosts.len()]
            }
        };
        let max = || self.model.keys().next_back().copied().unwrap_or(self.hi);
        let min = || self.model.keys().next().copied().unwrap_or(self.lo);
        let n = match *s {
            Sel::Any(r) => self.lo.wrapping_add(r % span),
            Sel::Near(r) => near(r),
            Sel::NearOff(r, d) => off(near(r), d),
            Sel::Ghost(g) => ghost(g),
            Sel::GhostOff(g, d) => off(ghost(g), d),
            Sel::Above(d) => off(max(), d as i8),
            Sel::Below(d) => off(min(), -(d as i8)),
            Sel::Max => max(),
            Sel::Min => min(),
        };
        Self::norm(n)
    }

    pub fn ins(&mut self, n: u32, api: InsApi) -> R {
        let n = Self::norm(n);
        let t = self.tick();
        let present = self.model.contains_key(&n);
        if !present && self.model.len() >= self.max {
            return Ok(());
        }
        refuel(0);
        let (tag, x) = (K::norm_tag(t), V::norm(t));
        let key = K::mk(n, t);
        let val = V::mk(t);
        let old = match api {
            InsApi::Insert => self.tree.insert(key, val),
            InsApi::Recursive => self.tree.insert_recursive(key, val),
            InsApi::Entry => match self.tree.entry(key) {
                Entry::Vacant(e) => {
                    e.insert(val);
                    None
                }
                Entry::Occupied(mut e) => Some(e.insert(val)),
            },
            InsApi::EntryMut => match self.tree.entry(key) {
                Entry::Vacant(e) => {
                    let r = e.insert(V::mk(t.wrapping_add(1)));
                    *r = val;
                    None
                }
                Entry::Occupied(e) => Some(std::mem::replace(e.into_mut(), val)),
            },
        };
        let want = match self.model.get_mut(&n) {
            Some(e) => {
                let o = e.1;
                e.1 = x;
                Some(o)
            }
            None => {
                self.model.insert(n, (tag, x));
                None
            }
        };
        self.lo = self.lo.min(n);
        self.hi = self.hi.max(n.saturating_add(1));
        self.note(1);
        if self.strict {
            same!(old.map(|v| v.x()), want, "{:?} of key {} returned", api, n);
            same!(self.tree.len(), self.model.len(), "len after {:?} of key {}", api, n);
        }
        Ok(())
    }

    pub fn rem(&mut self, n: u32, api: RemApi) -> R {
        let n = Self::norm(n);
        let t = self.tick();
        refuel(0);
        let got: Option<(u32, u32, u32)> = match api {
            RemApi::Remove => self.tree.remove(&K::mk(n, t)).map(|(k, v)| (k.n(), k.tag(), v.x())),
            RemApi::Entry => match self.tree.entry(K::mk(n, t)) {
                Entry::Vacant(_) => None,
                Entry::Occupied(e) => {
                    let tag = e.key().tag();
                    Some((n, tag, e.remove().x()))
                }
            },
            RemApi::EntryPair => match self.tree.entry(K::mk(n, t)) {
                Entry::Vacant(_) => None,
                Entry::Occupied(e) => {
                    let (k, v) = e.remove_entry();
                    Some((k.n(), k.tag(), v.x()))
                }
            },
        };
        let want = self.model.remove(&n).map(|(tag, x)| (n, tag, x));
        if want.is_some() {
            self.ghost(n);
        }
        self.note(1);
        if self.strict {
            same!(got, want, "{:?} of key {} returned", api, n);
            same!(self.tree.len(), self.model.len(), "len after {:?} of key {}", api, n);
        }
        Ok(())
    }

    pub fn upd(&mut self, n: u32) -> R {
        let n = Self::norm(n);
        let t = self.tick();
        refuel(self.shared_copy());
        let got = self.tree.get_mut(&K::mk(n, t)).map(|v| std::mem::replace(v, V::mk(t)).x());
        let want = self.model.get_mut(&n).map(|e| std::mem::replace(&mut e.1, V::norm(t)));
        if self.strict {
            same!(got, want, "get_mut of key {}", n);
        }
        Ok(())
    }

    pub fn pop(&mut self, high: bool) -> R {
        refuel(self.shared_copy());
        let got = if high { self.tree.remove_highest() } else { self.tree.remove_lowest() };
        let want = if high { self.model.pop_last() } else { self.model.pop_first() };
        if let Some((n, _)) = want {
            self.ghost(n);
        }
        self.note(1);
        if self.strict {
            same!(
                got.map(|(k, v)| (k.n(), k.tag(), v.x())),
                want.map(|(n, (t, x))| (n, t, x)),
                "remove_{}",
                if high { "highest" } else { "lowest" }
            );
            same!(self.tree.len(), self.model.len(), "len after removing an end");
        }
        Ok(())
    }

    pub fn shared_copy(&self) -> usize {
        self.model.len()
    }

    fn keys_plan(&mut self, n: usize, stride: u8) -> Vec<u32> {
        let stride = (stride as u32).max(1);
        let n = if K::DOM == u32::MAX { n } else { n.min(K::DOM as usize) };
        let stride = if K::DOM == u32::MAX { stride } else { (K::DOM / (n as u32).max(1)).clamp(1, stride) };
        let base = if K::DOM == u32::MAX { self.base } else { 0 };
        self.lo = if K::DOM == u32::MAX { base - 8 } else { 0 };
        self.hi = (base + n as u32 * stride + 16).min(K::DOM);
        if n < 64 {
            self.hi = (self.hi + 64).min(K::DOM);
        }
        (0..n as u32).map(|i| base + i * stride).collect()
    }

    pub fn pairs(&mut self, ks: &[u32]) -> Vec<(K, V)> {
        ks.iter()
            .map(|n| {
                let t = self.tick();
                (K::mk(*n, t), V::mk(t))
            })
            .collect()
    }

    pub fn build(&mut self, b: &Build) -> R {
        let max = self.max;
        match b {
            Build::Empty => {}
            Build::Load(s, k) | Build::FromMap(s, k) => {
                let ks = self.keys_plan(s.get::<C>(max), *k);
                let ps = self.pairs(&ks);
                self.model = ps.iter().map(|(k, v)| (k.n(), (k.tag(), v.x()))).collect();
                refuel(ps.len());
                self.tree = if let Build::Load(..) = b {
                    PalmTree::load(ps)
                } else {
                    PalmTree::from(ps.into_iter().collect::<BTreeMap<K, V>>())
                };
                self.note(ks.len());
            }
            Build::Asc(s, k, a) => {
                for n in self.keys_plan(s.get::<C>(max), *k) {
                    self.ins(n, *a)?;
                }
            }
            Build::Desc(s, k, a) => {
                for n in self.keys_plan(s.get::<C>(max), *k).into_iter().rev() {
                    self.ins(n, *a)?;
                }
            }
            Build::Shuffled(s, k, p, a) => {
                let ks = self.keys_plan(s.get::<C>(max), *k);
                for i in shuffled(ks.len(), *p) {
                    self.ins(ks[i], *a)?;
                }
            }
            Build::Collect(s, k, p) => {
                let ks = self.keys_plan(s.get::<C>(max), *k);
                let ks: Vec<u32> = shuffled(ks.len(), *p).into_iter().map(|i| ks[i]).collect();
                let ps = self.pairs(&ks);
                self.model = ps.iter().map(|(k, v)| (k.n(), (k.tag(), v.x()))).collect();
                refuel(ps.len());
                self.tree = ps.into_iter().collect();
                self.note(ks.len());
            }
        }
        if self.strict {
            same!(self.tree.len(), self.model.len(), "len after {:?}", b);
        }
        Ok(())
    }

    pub fn apply(&mut self, m: &Mut) -> R {
        match m {
            Mut::Ins(s, a) => self.ins(self.pick(s), *a),
            Mut::Rem(s, a) => self.rem(self.pick(s), *a),
            Mut::Upd(s) => self.upd(self.pick(s)),
            Mut::InsRun(s, l, k, rev, a) => {
                let n = l.get::<C>(self.max);
                let start = self.pick(s);
                for i in 0..n as u32 {
                    let d = i * (*k as u32).max(1);
                    let key = if *rev { start.saturating_sub(d) } else { start.saturating_add(d) };
                    self.ins(key, *a)?;
                }
                Ok(())
            }
            Mut::RemRun(s, l, rev, a) => {
                let n = l.get::<C>(self.max);
                let start = self.pick(s);
                let ks: Vec<u32> = if *rev {
                    self.model.range(..=start).rev().take(n).map(|(k, _)| *k).collect()
                } else {
                    self.model.range(start..).take(n).map(|(k, _)| *k).collect()
                };
                for k in ks {
                    self.rem(k, *a)?;
                }
                Ok(())
            }
            Mut::KeepEvery(m, p, rev) => {
                let m = (*m as usize).max(2);
                self.remove_where(*rev, |i| i % m != *p as usize % m)
            }
            Mut::KeepGroups(m, p, rev) => {
                let m = (*m as usize).max(2);
                self.remove_where(*rev, |i| (i / C::L) % m != *p as usize % m)
            }
            Mut::PopLow(l) => {
                for _ in 0..l.get::<C>(self.max) {
                    self.pop(false)?;
                }
                Ok(())
            }
            Mut::PopHigh(l) => {
                for _ in 0..l.get::<C>(self.max) {
                    self.pop(true)?;
                }
                Ok(())
            }
            Mut::Append(l, a) => {
                for _ in 0..l.get::<C>(self.max) {
                    self.ins(self.pick(&Sel::Above(1)), *a)?;
                }
                Ok(())
            }
            Mut::Prepend(l, a) => {
                for _ in 0..l.get::<C>(self.max) {
                    self.ins(self.pick(&Sel::Below(1)), *a)?;
                }
                Ok(())
            }
            Mut::Clear(w) => match w % 4 {
                0 => self.remove_where(false, |_| true),
                1 => self.remove_where(true, |_| true),
                2 => {
                    while !self.model.is_empty() {
                        self.pop(false)?;
                    }
                    Ok(())
                }
                _ => {
                    while !self.model.is_empty() {
                        self.pop(true)?;
                    }
                    Ok(())
                }
            },
            Mut::CloneReplace => {
                refuel(self.model.len());
                self.tree = self.tree.clone();
                Ok(())
            }
            Mut::Reload => {
                refuel(self.model.len());
                let t = std::mem::take(&mut self.tree);
                let v: Vec<(K, V)> = t.into_iter().take(self.model.len() + 1).collect();
                if self.strict {
                    same!(v.len(), self.model.len(), "entries of consuming iteration");
                }
                refuel(self.model.len());
                self.tree = PalmTree::load(v);
                Ok(())
            }
            Mut::MergeIn(s, l, w) => {
                let n = l.get::<C>(self.max.saturating_sub(self.model.len()));
                let start = self.pick(s);
                let mut ks: Vec<u32> = (0..n as u32).map(|i| Self::norm(start.saturating_add(i * 2))).collect();
                ks.sort_unstable();
                ks.dedup();
                let ps = self.pairs(&ks);
                let right_wins = w % 2 == 0;
                let add: Vec<(u32, (u32, u32))> = ps.iter().map(|(k, v)| (k.n(), (k.tag(), v.x()))).collect();
                let other = PalmTree::load(ps);
                refuel(self.model.len() + n);
                if right_wins {
                    self.tree.append_right(other);
                } else {
                    self.tree.append_left(other);
                }
                for (k, e) in add {
                    if right_wins || !self.model.contains_key(&k) {
                        self.model.insert(k, e);
                        self.lo = self.lo.min(k);
                        self.hi = self.hi.max(k + 1);
                    }
                }
                self.note(n);
                if self.strict {
                    same!(self.tree.len(), self.model.len(), "len after appending a tree");
                }
                Ok(())
            }
        }
    }

    fn remove_where(&mut self, rev: bool, f: impl Fn(usize) -> bool) -> R {
        let mut ks: Vec<u32> =
            self.model.keys().enumerate().filter(|(i, _)| f(*i)).map(|(_, k)| *k).collect();
        if rev {
            ks.reverse();
        }
        for k in ks {
            self.rem(k, RemApi::Remove)?;
        }
        Ok(())
    }

    /// The model's entries in order: (key number, tag, value).
    pub fn entries(&self) -> Vec<(u32, u32, u32)> {
        self.model.iter().map(|(n, (t, x))| (*n, *t, *x)).collect()
    }

    /// Keys worth probing when the domain is too large to probe whole.
    pub fn probes(&self, cap: usize) -> Vec<u32> {
        let mut v = vec![self.lo, self.lo.saturating_sub(1), self.hi, self.hi + 1];
        v.extend(self.ghosts.iter().rev().take(cap));
        let step = (self.model.len() / cap.max(1)).max(1);
        let off = self.tick as usize % step;
        for (k, _) in self.model.iter().skip(off).step_by(step) {
            v.extend([k.saturating_sub(1), *k, k.saturating_add(1)]);
        }
        if let Some((k, _)) = self.model.iter().next_back() {
            v.extend([*k, k.saturating_add(1)]);
        }
        for k in &mut v {
            *k = Self::norm(*k);
        }
        v
    }

    /// Compare every lookup with the model.
    pub fn audit_get(&self, full: bool) -> R {
        same!(self.tree.len(), self.model.len(), "len");
        same!(self.tree.is_empty(), self.model.is_empty(), "is_empty");
        let probe = |n: u32| -> R {
            refuel(0);
            let k = K::mk(n, 0);
            let want = self.model.get(&n).map(|e| e.1);
            same!(self.tree.get(&k).map(|v| v.x()), want, "get of key {}", n);
            Ok(())
        };
        let span = (self.hi - self.lo) as usize;
        if full && span <= 3 * self.model.len() + 400 {
            for n in self.lo.saturating_sub(2)..=self.hi.saturating_add(2) {
                probe(Self::norm(n))?;
            }
        } else {
            for n in self.probes(if full { 4000 } else { 12 }) {
                probe(n)?;
            }
        }
        Ok(())
    }

    /// Compare a whole forward iteration with the model.
    pub fn audit_iter(&self) -> R {
        refuel(self.model.len());
        same!(self.tree.len(), self.model.len(), "len");
        let mut it = self.tree.iter();
        for (i, (n, (t, x))) in self.model.iter().enumerate() {
            match it.next() {
                None => return Err(format!("iteration ended after {} of {} entries", i, self.model.len())),
                Some((k, v)) => same!((k.n(), k.tag(), v.x()), (*n, *t, *x), "entry {} of iteration", i),
            }
        }
        if let Some((k, _)) = it.next() {
            return Err(format!("iteration yields surplus key {:?} after {} entries", k, self.model.len()));
        }
        Ok(())
    }

    /// Look everything up, iterate, then take the tree apart entry by entry.
    pub fn finish(mut self, how: u32) -> R {
        self.strict = true;
        self.audit_get(true)?;
        self.audit_iter()?;
        let n = self.model.len();
        if n > 20_000 {
            return Ok(());
        }
        match how % 4 {
            0 => {
                let ks: Vec<u32> = self.model.keys().copied().collect();
                for i in shuffled(n, how) {
                    self.rem(ks[i], RemApi::Remove)?;
                }
            }
            1 => {
                while !self.model.is_empty() {
                    self.pop(false)?;
                }
            }
            2 => {
                while !self.model.is_empty() {
                    self.pop(true)?;
                }
            }
            _ => {
                let mut hi = false;
                while !self.model.is_empty() {
                    self.pop(hi)?;
                    hi = !hi;
                }
            }
        }
        self.pop(false)?;
        self.pop(true)?;
        self.audit_get(false)?;
        self.audit_iter()
    }
}

/// Whether a recipe's outcome spans several leaves, has been thinned, and so on (for classification).
pub fn levels<C: Sizes>(entries: usize) -> usize {
    let mut cap = C::L;
    let mut l = 1;
    while cap < entries {
        cap *= C::B;
        l += 1;
    }
    l
}
