//! C17: lookups, updates and iteration cost what a balanced tree should, in key comparisons.

use palmtree::{Entry, PalmTree, Shared, Tree64, TreeConfig, Unique};
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::ops::Bound;

struct C17;

thread_local!(static COUNT: Cell<u64> = Cell::new(0));
fn count() -> u64 {
    COUNT.with(|c| c.get())
}

/// A key that counts how often it is compared.
#[derive(Clone, Copy, Debug)]
struct CK(u32);
impl PartialEq for CK {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for CK {}
impl PartialOrd for CK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CK {
    fn cmp(&self, o: &Self) -> Ordering {
        COUNT.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Order {
    Up,
    Down,
    Shuffled(u32),
    /// in turns from both ends inwards, or from the middle outwards
    Inward,
    Outward,
    /// every m-th first, then the ones after those, ...
    Stride(u16),
    BitReversed,
    /// blocks in random order, each ascending or descending
    Blocks(u16, u32, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Phase {
    Load(u32, u8),
    /// insert keys at a place of the key space, so many, with gaps, in an order
    Insert { at: u32, n: u32, gap: u8, order: Order, api: u8 },
    /// just below the current k-th key from the top, again and again
    Squeeze { at: u32, n: u16, below: bool, api: u8 },
    Remove { at: u32, n: u32, order: Order, api: u8 },
    /// keep every m-th
    Thin { m: u16, from: u16, order: Order },
    Pop(bool, u32),
    Lookup(u16, u32),
    Ranges(u16, u32),
    Iterate(u8),
    Merge { at: u32, n: u32, gap: u8, how: u8 },
    Extend { at: u32, n: u32, gap: u8, order: Order },
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    /// sizes are taken modulo this
    scale: u32,
    phases: Vec<Phase>,
}

fn arrange(n: usize, o: &Order) -> Vec<usize> {
    let up = 0..n;
    match *o {
        Order::Up => up.collect(),
        Order::Down => up.rev().collect(),
        Order::Shuffled(s) => shuffled(n, s),
        Order::Inward => up.map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        Order::Outward => {
            let v = arrange(n, &Order::Inward);
            v.into_iter().rev().collect()
        }
        Order::Stride(m) => {
            let m = m as usize % 97 + 2;
            (0..m).flat_map(|r| (r..n).step_by(m)).collect()
        }
        Order::BitReversed => {
            let bits = (usize::BITS - n.leading_zeros()).max(1);
            (0..1usize << bits).map(|i| i.reverse_bits() >> (usize::BITS - bits)).filter(|i| *i < n).collect()
        }
        Order::Blocks(len, seed, down) => {
            let len = len as usize % 300 + 2;
            let blocks = (n + len - 1) / len;
            let mut v = vec![];
            for b in shuffled(blocks, seed) {
                let r = b * len..((b + 1) * len).min(n);
                if down {
                    v.extend(r.rev())
                } else {
                    v.extend(r)
                }
            }
            v
        }
    }
}

fn lg(n: usize) -> f64 {
    ((n + 2) as f64).log2()
}

/// What a tree of these node sizes may cost after so many operations.
struct Limit {
    search: u64,
    /// one insertion that splits its way down
    split: u64,
}
fn limit<C: Sizes>(ops: usize) -> Limit {
    // Every level but the last two has nodes of at least half their size; searching one is a binary search.
    let leaves = 2 * ops / C::L + 1;
    let levels = lg(leaves) / lg((C::B / 2).max(2) - 2) + 2.0;
    let node = lg(C::B - 2).ceil() + 2.0;
    let leaf = lg(C::L - 2).ceil() + 4.0;
    // An update may look before it searches, and so search twice; worst seen is 0.58 of one such sum.
    let search = 1.6 * (levels * node + leaf);
    Limit { search: search as u64, split: (search * (levels + 2.0)) as u64 }
}

struct Run<C: TreeConfig<CK, u32> + Sizes> {
    tree: PalmTree<CK, u32, C>,
    keys: BTreeSet<u32>,
    ops: usize,
    worst: f64,
    worst_range: f64,
    worst_insert: f64,
    tick: u32,
}

impl<C: TreeConfig<CK, u32> + Sizes> Run<C> {
    /// Cost of one operation, against what a search may cost.
    fn search<T>(&mut self, what: &str, k: u32, f: impl FnOnce(&mut PalmTree<CK, u32, C>) -> T) -> R<T> {
        let l = limit::<C>(self.ops);
        let c = count();
        let r = f(&mut self.tree);
        let used = count() - c;
        self.worst = self.worst.max(used as f64 / l.search as f64);
        self.ops += 1;
        if used > l.search {
            return Err(format!(
                "{} of key {} took {} comparisons in a tree of {} entries after {} operations (node sizes {} and {}), expected at most {}",
                what, k, used, self.keys.len(), self.ops, C::L, C::B, l.search
            ));
        }
        Ok(r)
    }
    fn insert(&mut self, k: u32, api: u8) -> R<u64> {
        let l = limit::<C>(self.ops);
        self.tick += 1;
        let t = self.tick;
        let c = count();
        match api % 3 {
            0 => {
                self.tree.insert(CK(k), t);
            }
            1 => {
                self.tree.insert_recursive(CK(k), t);
            }
            _ => match self.tree.entry(CK(k)) {
                Entry::Vacant(e) => {
                    e.insert(t);
                }
                Entry::Occupied(mut e) => {
                    e.insert(t);
                }
            },
        }
        let used = count() - c;
        self.keys.insert(k);
        self.ops += 1;
        self.worst_insert = self.worst_insert.max(used as f64 / l.split as f64);
        if used > l.split {
            return Err(format!(
                "inserting key {} took {} comparisons in a tree of {} entries after {} operations (node sizes {} and {}), expected at most {}",
                k, used, self.keys.len(), self.ops, C::L, C::B, l.split
            ));
        }
        Ok(used)
    }
    /// Many insertions cost no more than searches on average.
    fn inserts(&mut self, ks: &[u32], api: u8, what: &str) -> R {
        let mut sum = 0;
        for (i, k) in ks.iter().enumerate() {
            if i % 64 == 0 {
                fuel(60_000_000);
            }
            sum += self.insert(*k, api)?;
        }
        let l = limit::<C>(self.ops);
        if ks.len() >= 100 && sum > ks.len() as u64 * l.search {
            return Err(format!(
                "{} of {} keys took {} comparisons, {} each; expected at most {} each",
                what,
                ks.len(),
                sum,
                sum / ks.len() as u64,
                l.search
            ));
        }
        Ok(())
    }
    fn bulk(&self, what: &str, used: u64, per: u64, n: usize) -> R {
        let l = limit::<C>(self.ops);
        if used > per * n as u64 + 4 * l.search {
            return Err(format!("{} of {} entries took {} comparisons, expected at most {} each", what, n, used, per));
        }
        Ok(())
    }
}

fn place(at: u32, i: usize, gap: u8) -> u32 {
    (at % 1000) * 4000 + i as u32 * (gap as u32 % 7 + 1)
}

fn run<C: TreeConfig<CK, u32> + Sizes>(case: &Case, st: &mut Stats) -> R {
    let mut r = Run::<C> { tree: PalmTree::new(), keys: BTreeSet::new(), ops: 0, worst: 0.0, worst_range: 0.0, worst_insert: 0.0, tick: 0 };
    let scale = case.scale;
    let size = |n: u32| (n % scale + 1) as usize;
    let (mut lookups, mut removed, mut peak) = (0u64, 0u64, 0);
    for (pi, p) in case.phases.iter().enumerate() {
        let n0 = r.keys.len();
        fuel(60_000_000 + 50_000 * n0 as i64);
        let res: R = (|| {
            match p {
                Phase::Load(n, gap) => {
                    let n = size(*n);
                    fuel(60_000_000 + 50_000 * n as i64);
                    let ks: Vec<u32> = (0..n).map(|i| place(0, i, *gap)).collect();
                    let c = count();
                    r.tree = PalmTree::load(ks.iter().map(|k| (CK(*k), 0)));
                    let used = count() - c;
                    r.ops += n;
                    r.keys = ks.into_iter().collect();
                    r.bulk("loading", used, 3, n)
                }
                Phase::Insert { at, n, gap, order, api } => {
                    let n = size(*n);
                    let ks: Vec<u32> = arrange(n, order).into_iter().map(|i| place(*at, i, *gap)).collect();
                    r.inserts(&ks, *api, "insertion")
                }
                Phase::Squeeze { at, n, below, api } => {
                    // keep inserting next to one key: halve the gap to its neighbour
                    let mut k = if r.keys.is_empty() { 1 << 20 } else { *r.keys.iter().nth(*at as usize % r.keys.len()).unwrap() };
                    let mut ks = vec![];
                    for _ in 0..*n % 400 {
                        let next = if *below { k.checked_sub(1) } else { k.checked_add(1) };
                        match next {
                            Some(x) => k = x,
                            None => break,
                        }
                        ks.push(k);
                    }
                    r.inserts(&ks, *api, "insertion beside a key")
                }
                Phase::Remove { at, n, order, api } => {
                    let n = size(*n).min(r.keys.len());
                    let from = if r.keys.is_empty() { 0 } else { *at as usize % r.keys.len() };
                    let ks: Vec<u32> = r.keys.iter().copied().skip(from).take(n).collect();
                    for (i, j) in arrange(ks.len(), order).into_iter().enumerate() {
                        if i % 64 == 0 {
                            fuel(60_000_000);
                        }
                        let k = ks[j];
                        let there = if api % 2 == 0 {
                            r.search("removal", k, |t| t.remove(&CK(k)).is_some())?
                        } else {
                            r.search("removal", k, |t| match t.entry(CK(k)) {
                                Entry::Occupied(e) => {
                                    e.remove();
                                    true
                                }
                                _ => false,
                            })?
                        };
                        same!(there, true, "removal of {}", k);
                        r.keys.remove(&k);
                        removed += 1;
                    }
                    Ok(())
                }
                Phase::Thin { m, from, order } => {
                    let m = *m as usize % 80 + 2;
                    let ks: Vec<u32> = r.keys.iter().copied().enumerate().filter(|(i, _)| (i + *from as usize) % m != 0).map(|x| x.1).collect();
                    for (i, j) in arrange(ks.len(), order).into_iter().enumerate() {
                        if i % 64 == 0 {
                            fuel(60_000_000);
                        }
                        let k = ks[j];
                        r.search("removal", k, |t| t.remove(&CK(k)).is_some())?;
                        r.keys.remove(&k);
                        removed += 1;
                    }
                    Ok(())
                }
                Phase::Pop(high, n) => {
                    for i in 0..size(*n).min(r.keys.len()) {
                        if i % 64 == 0 {
                            fuel(60_000_000);
                        }
                        let k = if *high { r.keys.pop_last() } else { r.keys.pop_first() }.unwrap();
                        let got = r.search("removal from an end", k, |t| {
                            if *high {
                                t.remove_highest()
                            } else {
                                t.remove_lowest()
                            }
                        })?;
                        same!(got.map(|e| e.0 .0), Some(k), "entry removed from an end");
                        removed += 1;
                    }
                    Ok(())
                }
                Phase::Lookup(n, seed) => {
                    let ks: Vec<u32> = r.keys.iter().copied().collect();
                    for i in 0..*n as u32 % 500 {
                        if i % 64 == 0 {
                            fuel(60_000_000);
                        }
                        let x = (i.wrapping_mul(2654435761).wrapping_add(*seed)) as usize;
                        let k = if ks.is_empty() { x as u32 } else { ks[x % ks.len()].wrapping_add(x as u32 % 3).wrapping_sub(1) };
                        let want = r.keys.contains(&k);
                        let before = r.ops;
                        let got = match x % 3 {
                            0 => r.search("lookup", k, |t| t.get(&CK(k)).is_some())?,
                            1 => r.search("mutable lookup", k, |t| t.get_mut(&CK(k)).is_some())?,
                            _ => r.search("entry", k, |t| matches!(t.entry(CK(k)), Entry::Occupied(_)))?,
                        };
                        // Reading is no operation the tree could use as an excuse.
                        r.ops = before;
                        same!(got, want, "presence of {}", k);
                        lookups += 1;
                    }
                    Ok(())
                }
                Phase::Ranges(n, seed) => {
                    let ks: Vec<u32> = r.keys.iter().copied().collect();
                    for i in 0..*n as u32 % 200 {
                        if i % 64 == 0 {
                            fuel(60_000_000);
                        }
                        let x = (i.wrapping_mul(2654435761).wrapping_add(*seed)) as usize;
                        let pick = |y: usize| if ks.is_empty() { y as u32 } else { ks[y % ks.len()].saturating_add(y as u32 % 2) };
                        let (a, b) = (pick(x), pick(x / 7));
                        let (a, b) = (a.min(b), a.max(b));
                        let l = limit::<C>(r.ops).search;
                        let take = x % 20;
                        // (an empty range between equal excluded bounds may not be asked for)
                        let lo = match x / 20 % 5 {
                            0 => Bound::Unbounded,
                            1 | 2 => Bound::Excluded(CK(a)),
                            _ => Bound::Included(CK(a)),
                        };
                        let hi = match x / 100 % 5 {
                            0 => Bound::Unbounded,
                            1 | 2 if a < b => Bound::Excluded(CK(b)),
                            _ => Bound::Included(CK(b)),
                        };
                        let ends = [lo, hi].iter().filter(|b| !matches!(b, Bound::Unbounded)).count() as u64;
                        let plain = |b: &Bound<CK>| match b {
                            Bound::Unbounded => Bound::Unbounded,
                            Bound::Included(k) => Bound::Included(k.0),
                            Bound::Excluded(k) => Bound::Excluded(k.0),
                        };
                        let (mut seen, want) = (0u64, r.keys.range((plain(&lo), plain(&hi))).take(take).count() as u64);
                        let c = count();
                        let made;
                        match x % 4 {
                            0 => {
                                let i = r.tree.range((lo, hi));
                                made = count();
                                i.take(take).for_each(|_| seen += 1)
                            }
                            1 => {
                                let i = r.tree.range((lo, hi));
                                made = count();
                                i.rev().take(take).for_each(|_| seen += 1)
                            }
                            2 => {
                                let i = r.tree.range_mut((lo, hi));
                                made = count();
                                i.take(take).for_each(|_| seen += 1)
                            }
                            _ => {
                                let i = r.tree.range_mut((lo, hi));
                                made = count();
                                i.rev().take(take).for_each(|_| seen += 1)
                            }
                        }
                        let (made, walked) = (made - c, count() - made);
                        same!(seen, want, "entries of a range");
                        // a search for each end and a comparison of the two
                        r.worst_range = r.worst_range.max(made as f64 / (ends * l + 4) as f64);
                        if made > ends * l + 4 {
                            return Err(format!(
                                "finding the ends {:?} and {:?} of a range in a tree of {} entries after {} operations took {} comparisons (node sizes {} and {}), expected at most {}",
                                lo, hi, r.keys.len(), r.ops, made, C::L, C::B, ends * l + 4
                            ));
                        }
                        if walked > 3 * (seen + 1) {
                            return Err(format!("iterating over {} entries of a range took {} comparisons, expected at most 3 each", seen, walked));
                        }
                        lookups += 1;
                    }
                    Ok(())
                }
                Phase::Iterate(how) => {
                    let n = r.keys.len();
                    let c = count();
                    let seen = match how % 5 {
                        0 => r.tree.iter().count(),
                        1 => r.tree.iter().rev().count(),
                        2 => r.tree.iter_mut().count(),
                        3 => r.tree.clone().into_iter().count(),
                        _ => r.tree.clone().into_iter().rev().count(),
                    };
                    let used = count() - c;
                    same!(seen, n, "entries iterated");
                    r.bulk("iteration", used, 3, n)
                }
                Phase::Merge { at, n, gap, how } => {
                    let n = size(*n);
                    fuel(60_000_000 + 50_000 * (n + n0) as i64);
                    let ks: Vec<u32> = (0..n).map(|i| place(*at, i, *gap)).collect();
                    let o: PalmTree<CK, u32, C> = PalmTree::load(ks.iter().map(|k| (CK(*k), 0)));
                    let total = n + r.keys.len();
                    let c = count();
                    let me = std::mem::take(&mut r.tree);
                    r.tree = match how % 5 {
                        0 => PalmTree::merge_left(me, o),
                        1 => PalmTree::merge_right(me, o),
                        2 => {
                            let mut me = me;
                            me.append_left(o);
                            me
                        }
                        3 => {
                            let mut me = me;
                            me.append_right(o);
                            me
                        }
                        _ => me + o,
                    };
                    let used = count() - c;
                    r.ops += total;
                    r.keys.extend(ks);
                    r.bulk("merging", used, 6, total)
                }
                Phase::Extend { at, n, gap, order } => {
                    let n = size(*n);
                    fuel(60_000_000 + 50_000 * (n + n0) as i64);
                    let ks: Vec<u32> = arrange(n, order).into_iter().map(|i| place(*at, i, *gap)).collect();
                    let c = count();
                    r.tree.extend(ks.iter().map(|k| (CK(*k), 1u32)));
                    let used = count() - c;
                    r.ops += n;
                    r.keys.extend(ks);
                    r.bulk("extension", used, limit::<C>(r.ops).search, n)
                }
                Phase::Clone => {
                    let c = count();
                    r.tree = r.tree.clone();
                    let used = count() - c;
                    r.bulk("cloning", used, 1, r.keys.len())
                }
            }
        })();
        res.map_err(|e| format!("phase {} {:?}: {}", pi, p, e))?;
        peak = peak.max(r.keys.len());
        same!(r.tree.len(), r.keys.len(), "length after phase {}", pi);
    }
    st.nontrivial = peak > C::L * C::B && (lookups + removed) > 20;
    st.class_if(peak > 10_000, "over 10000 entries");
    st.class_if(removed > 100, "thinned");
    st.max("entries", peak as u64);
    st.max("dearest search, percent of the limit", (r.worst * 100.0) as u64);
    st.max("dearest range, percent of the limit", (r.worst_range * 100.0) as u64);
    st.max("dearest insertion, percent of the limit", (r.worst_insert * 100.0) as u64);
    st.add("operations", r.ops as u64);
    Ok(())
}

fn order() -> BoxedStrategy<Order> {
    prop_oneof![
        3 => Just(Order::Up),
        3 => Just(Order::Down),
        3 => any::<u32>().prop_map(Order::Shuffled),
        1 => Just(Order::Inward),
        1 => Just(Order::Outward),
        1 => any::<u16>().prop_map(Order::Stride),
        1 => Just(Order::BitReversed),
        2 => (any::<u16>(), any::<u32>(), any::<bool>()).prop_map(|(l, s, d)| Order::Blocks(l, s, d)),
    ]
    .boxed()
}

fn phase() -> BoxedStrategy<Phase> {
    let a = || any::<u32>();
    let g = || any::<u8>();
    prop_oneof![
        2 => (a(), g()).prop_map(|(n, g)| Phase::Load(n, g)),
        6 => (a(), a(), g(), order(), g()).prop_map(|(at, n, gap, order, api)| Phase::Insert { at, n, gap, order, api }),
        2 => (a(), any::<u16>(), any::<bool>(), g()).prop_map(|(at, n, below, api)| Phase::Squeeze { at, n, below, api }),
        4 => (a(), a(), order(), g()).prop_map(|(at, n, order, api)| Phase::Remove { at, n, order, api }),
        2 => (any::<u16>(), any::<u16>(), order()).prop_map(|(m, from, order)| Phase::Thin { m, from, order }),
        1 => (any::<bool>(), a()).prop_map(|(h, n)| Phase::Pop(h, n)),
        5 => (any::<u16>(), a()).prop_map(|(n, s)| Phase::Lookup(n, s)),
        3 => (any::<u16>(), a()).prop_map(|(n, s)| Phase::Ranges(n, s)),
        2 => g().prop_map(Phase::Iterate),
        2 => (a(), a(), g(), g()).prop_map(|(at, n, gap, how)| Phase::Merge { at, n, gap, how }),
        1 => (a(), a(), g(), order()).prop_map(|(at, n, gap, order)| Phase::Extend { at, n, gap, order }),
        1 => Just(Phase::Clone),
    ]
    .boxed()
}

impl Prop for C17 {
    const ID: &'static str = "C17";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let scale = if tier == Tier::Quick {
            prop_oneof![4 => Just(400u32), 4 => Just(3_000), 2 => Just(20_000)].boxed()
        } else {
            prop_oneof![3 => Just(1_000u32), 4 => Just(20_000), 2 => Just(300_000)].boxed()
        };
        (0u8..12, scale, vec(phase(), 1..=9)).prop_map(|(cfg, scale, phases)| Case { cfg, scale, phases }).boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        match case.cfg {
            0 => run::<L4B4<Unique>>(case, st),
            1 => run::<L5B5<Shared>>(case, st),
            2 => run::<L16B16<Unique>>(case, st),
            3 | 4 => run::<Tree64<Unique>>(case, st),
            5 => run::<L33B17<Unique>>(case, st),
            6 => run::<L200B200<Unique>>(case, st),
            7 => run::<L5B100<Unique>>(case, st),
            8 => run::<L1000B5<Unique>>(case, st),
            9 => run::<L4B300<Shared>>(case, st),
            10 => run::<L300B4<Shared>>(case, st),
            _ => run::<L256B256<Unique>>(case, st),
        }
    }
}

fn main() {
    palmtree_verif::main::<C17>()
}
