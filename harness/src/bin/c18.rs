//! C18: trees grow to any size and height, keep working, shrink to nothing and grow again.

use palmtree::{Entry, PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ops::Bound;

struct C18;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Order {
    Up,
    Down,
    Shuffled(u32),
    Inward,
    Outward,
    Stride(u16),
    /// blocks from high to low, each ascending, or the other way round
    Blocks(u16, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Phase {
    Load(u32, u8),
    Insert { at: u16, n: u32, gap: u8, order: Order, api: u8 },
    Extend { at: u16, n: u32, gap: u8, order: Order },
    Merge { at: u16, n: u32, gap: u8, how: u8 },
    Remove { at: u32, n: u32, order: Order, api: u8 },
    Thin { m: u16, from: u16, order: Order },
    Pop(bool, u32),
    /// remove everything
    Clear(Order),
    Clone,
    Write(u32, bool),
    Iterate(Script),
    Consume(Script),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    /// sizes are below this power of two, and above this one
    hi: u8,
    lo: u8,
    phases: Vec<Phase>,
    seed: u32,
    end: Order,
}

fn arrange(n: usize, o: &Order) -> Vec<usize> {
    let up = 0..n;
    match *o {
        Order::Up => up.collect(),
        Order::Down => up.rev().collect(),
        Order::Shuffled(s) => shuffled(n, s),
        Order::Inward => up.map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        Order::Outward => {
            let mut v = arrange(n, &Order::Inward);
            v.reverse();
            v
        }
        Order::Stride(m) => {
            let m = m as usize % 97 + 2;
            (0..m).flat_map(|r| (r..n).step_by(m)).collect()
        }
        Order::Blocks(len, up) => {
            let len = len as usize % 300 + 2;
            let mut v: Vec<usize> = Vec::with_capacity(n);
            let mut s = n;
            while s > 0 {
                let from = s.saturating_sub(len);
                v.extend(from..s);
                s = from;
            }
            if up {
                v.reverse()
            }
            v
        }
    }
}

type M = BTreeMap<u32, u32>;

struct Run<'a, C: TreeConfig<u32, u32> + Sizes> {
    t: PalmTree<u32, u32, C>,
    m: M,
    tick: u32,
    case: &'a Case,
    peak: usize,
    changes: u64,
}

fn place(at: u16, i: usize, gap: u8) -> u32 {
    1 + (at as u32 % 64) * 30_000_000 + i as u32 * (gap as u32 % 5 + 1)
}
fn ent((k, v): (&u32, &u32)) -> Ent {
    (*k, 0, *v)
}
fn room(n: usize) {
    fuel(100_000_000 + n as i64 * 20_000);
}

impl<'a, C: TreeConfig<u32, u32> + Sizes> Run<'a, C> {
    fn size(&self, n: u32) -> usize {
        // evenly spread over the orders of magnitude
        let (lo, hi) = (self.case.lo.min(self.case.hi) as u32, self.case.hi as u32);
        let p = lo + n % (hi - lo + 1);
        let base = 1usize << p;
        base + (n as usize / 64) % base
    }
    fn ent(&self) -> Vec<Ent> {
        self.m.iter().map(ent).collect()
    }
    fn put(&mut self, k: u32, api: u8) -> R {
        self.tick += 1;
        let (v, t) = (self.tick, &mut self.t);
        let got = match api % 4 {
            0 | 3 => t.insert(k, v),
            1 => t.insert_recursive(k, v),
            _ => match t.entry(k) {
                Entry::Vacant(e) => {
                    e.insert(v);
                    None
                }
                Entry::Occupied(mut e) => Some(e.insert(v)),
            },
        };
        same!(got, self.m.insert(k, v), "inserting {} into {} entries", k, self.m.len());
        self.changes += 1;
        Ok(())
    }
    fn del(&mut self, k: u32, api: u8) -> R {
        let got = if api % 2 == 0 {
            self.t.remove(&k).map(|e| e.1)
        } else {
            match self.t.entry(k) {
                Entry::Occupied(e) => Some(e.remove_entry().1),
                Entry::Vacant(_) => None,
            }
        };
        same!(got, self.m.remove(&k), "removing {} from {} entries", k, self.m.len());
        self.changes += 1;
        Ok(())
    }
    fn gone(&mut self, ks: &[u32], order: &Order, api: u8) -> R {
        for (i, j) in arrange(ks.len(), order).into_iter().enumerate() {
            if i % 256 == 0 {
                room(256);
            }
            self.del(ks[j], api)?;
            if i % 4099 == 0 {
                self.sample(i as u32, 3)?;
            }
        }
        Ok(())
    }
    /// Look at a few places: present and absent keys, ranges with all kinds of bounds from there.
    fn sample(&mut self, seed: u32, n: usize) -> R {
        same!(self.t.len(), self.m.len(), "length");
        let (lo, hi) = match (self.m.keys().next(), self.m.keys().next_back()) {
            (Some(a), Some(b)) => (*a, *b),
            _ => (0, 100),
        };
        let mut x = seed | 1;
        let mut next = || {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            x ^ x >> 15
        };
        for _ in 0..n {
            room(64);
            let r = next();
            let any = lo.saturating_sub(2) + (next() as u64 % ((hi - lo) as u64 + 5)) as u32;
            // at a present key, beside one, or anywhere
            let k = match r % 4 {
                0 => self.m.range(any..).next().map(|e| *e.0).unwrap_or(any),
                1 => self.m.range(any..).next().map(|e| *e.0 + 1).unwrap_or(any),
                2 => self.m.range(any..).next().map(|e| e.0.saturating_sub(1)).unwrap_or(any),
                _ => any,
            };
            same!(self.t.get(&k), self.m.get(&k), "get {}", k);
            same!(self.t.get_mut(&k).map(|v| *v), self.m.get(&k).copied(), "get_mut {}", k);
            let width = [0, 1, 3, 40, 3000][r as usize / 4 % 5];
            let k2 = k.saturating_add(width);
            let a = match r / 32 % 3 {
                0 => Bound::Included(k),
                1 if width > 0 => Bound::Excluded(k),
                1 => Bound::Included(k),
                _ => Bound::Unbounded,
            };
            let b = match r / 128 % 3 {
                0 => Bound::Included(k2),
                1 if width > 0 => Bound::Excluded(k2),
                1 => Bound::Included(k2),
                _ => Bound::Unbounded,
            };
            let take = r as usize / 512 % 60;
            let want: Vec<Ent> = self.m.range((a, b)).take(take).map(ent).collect();
            let got: Vec<Ent> = self.t.range((a, b)).take(take).map(ent).collect();
            cmp_seq(&format!("range {:?}", (a, b)), &got, want.iter())?;
            let want: Vec<Ent> = self.m.range((a, b)).rev().take(take).map(ent).collect();
            let got: Vec<Ent> = self.t.range_mut((a, b)).rev().take(take).map(|(k, v)| (*k, 0, *v)).collect();
            cmp_seq(&format!("range_mut {:?} from the back", (a, b)), &got, want.iter())?;
        }
        Ok(())
    }
    fn phase(&mut self, p: &Phase, st: &mut Stats) -> R {
        room(self.m.len());
        match p {
            Phase::Load(n, gap) => {
                let n = self.size(*n);
                room(n);
                self.m = (0..n).map(|i| (place(0, i, *gap), i as u32)).collect();
                self.t = PalmTree::load((0..n).map(|i| (place(0, i, *gap), i as u32)));
                self.changes += n as u64;
            }
            Phase::Insert { at, n, gap, order, api } => {
                let n = self.size(*n);
                for (i, j) in arrange(n, order).into_iter().enumerate() {
                    if i % 256 == 0 {
                        room(256);
                    }
                    self.put(place(*at, j, *gap), *api)?;
                    if i % 4099 == 0 {
                        self.sample(i as u32, 3)?;
                    }
                }
            }
            Phase::Extend { at, n, gap, order } => {
                let n = self.size(*n);
                room(n);
                let ps: Vec<(u32, u32)> = arrange(n, order).into_iter().map(|j| (place(*at, j, *gap), j as u32)).collect();
                self.t.extend(ps.iter().copied());
                self.m.extend(ps);
                self.changes += n as u64;
            }
            Phase::Merge { at, n, gap, how } => {
                let n = self.size(*n);
                room(n + self.m.len());
                let ps = (0..n).map(|j| (place(*at, j, *gap), j as u32 | 1 << 31));
                let o: PalmTree<u32, u32, C> = PalmTree::load(ps.clone());
                let me = std::mem::take(&mut self.t);
                self.t = match how % 5 {
                    0 => PalmTree::merge_left(me, o),
                    1 => PalmTree::merge_right(me, o),
                    2 => {
                        let mut me = me;
                        me.append_left(o);
                        me
                    }
                    3 => {
                        let mut me = me;
                        me.append_right(o);
                        me
                    }
                    _ => me + o,
                };
                if how % 5 == 0 || how % 5 == 2 {
                    for (k, v) in ps {
                        self.m.entry(k).or_insert(v);
                    }
                } else {
                    self.m.extend(ps);
                }
                self.changes += n as u64;
            }
            Phase::Remove { at, n, order, api } => {
                let n = self.size(*n).min(self.m.len());
                let from = if self.m.is_empty() { 0 } else { *at as usize % self.m.len() };
                let ks: Vec<u32> = self.m.keys().copied().skip(from).take(n).collect();
                self.gone(&ks, order, *api)?;
            }
            Phase::Thin { m, from, order } => {
                let m = *m as usize % 80 + 2;
                let ks: Vec<u32> = self.m.keys().copied().enumerate().filter(|(i, _)| (i + *from as usize) % m != 0).map(|x| x.1).collect();
                self.gone(&ks, order, 0)?;
            }
            Phase::Pop(high, n) => {
                for i in 0..self.size(*n).min(self.m.len() + 1) {
                    if i % 256 == 0 {
                        room(256);
                    }
                    let (got, want) = if *high {
                        (self.t.remove_highest(), self.m.pop_last())
                    } else {
                        (self.t.remove_lowest(), self.m.pop_first())
                    };
                    same!(got, want, "removing from an end of {} entries", self.m.len());
                    self.changes += 1;
                }
            }
            Phase::Clear(order) => {
                let ks: Vec<u32> = self.m.keys().copied().collect();
                self.gone(&ks, order, 1)?;
                same!(self.t.is_empty(), true, "emptiness when all is removed");
                same!(self.t.iter().next(), None, "first entry when all is removed");
            }
            Phase::Clone => {
                let c = self.t.clone();
                let old = std::mem::replace(&mut self.t, c);
                same!(old.len(), self.m.len(), "length of what was cloned");
            }
            Phase::Write(x, back) => {
                for (i, (k, v)) in self.m.iter_mut().enumerate() {
                    *v = *k ^ *x ^ i as u32;
                }
                let n = self.m.len();
                let mut it = self.t.iter_mut();
                for i in 0..n {
                    let (k, v, j) = if *back {
                        match it.next_back() {
                            Some((k, v)) => (k, v, n - 1 - i),
                            None => return Err(format!("iter_mut ended after {} of {} entries", i, n)),
                        }
                    } else {
                        match it.next() {
                            Some((k, v)) => (k, v, i),
                            None => return Err(format!("iter_mut ended after {} of {} entries", i, n)),
                        }
                    };
                    *v = *k ^ *x ^ j as u32;
                }
                same!(it.next().is_none(), true, "end of iter_mut");
            }
            Phase::Iterate(sc) => {
                let exp = self.ent();
                let (mut met, mut cloned) = (false, false);
                run_cloning::<C, _>(self.t.iter(), &exp, sc, &mut ent, &mut met, &mut cloned)?;
                st.class("iterated by a script");
            }
            Phase::Consume(sc) => {
                let exp = self.ent();
                let mut met = false;
                run_plain::<C, _>(self.t.clone().into_iter(), &exp, true, sc, &mut |(k, v)| (k, 0, v), &mut met)?;
                st.class("consumed by a script");
            }
        }
        Ok(())
    }
}

fn run<C: TreeConfig<u32, u32> + Sizes>(case: &Case, st: &mut Stats) -> R {
    let mut r = Run::<C> { t: PalmTree::new(), m: M::new(), tick: 0, case, peak: 0, changes: 0 };
    for (i, p) in case.phases.iter().enumerate() {
        let res = r.phase(p, st).and_then(|_| r.sample(case.seed ^ i as u32, 60));
        res.map_err(|e| format!("phase {} {:?}: {}", i, p, e))?;
        r.peak = r.peak.max(r.m.len());
        if r.m.len() > 700_000 {
            break;
        }
    }
    room(r.m.len());
    let exp = r.ent();
    let got: Vec<Ent> = r.t.iter().map(ent).collect();
    cmp_seq("all entries", &got, exp.iter())?;
    let got: Vec<Ent> = r.t.iter().rev().map(ent).collect();
    cmp_seq("all entries from the back", &got, exp.iter().rev())?;
    drop((got, exp));
    // down to nothing, and up again
    let ks: Vec<u32> = r.m.keys().copied().collect();
    r.gone(&ks, &case.end, case.seed as u8)?;
    same!(r.t.len(), 0, "length when all is removed");
    same!(r.t.iter().next().is_none() && r.t.iter_mut().next_back().is_none(), true, "nothing is left");
    drop(ks);
    r.phase(&Phase::Insert { at: case.seed as u16, n: 0, gap: 1, order: case.end.clone(), api: case.seed as u8 }, st)?;
    r.sample(case.seed, 40)?;
    room(r.m.len());
    let got: Vec<Ent> = r.t.into_iter().map(|(k, v)| (k, 0, v)).collect();
    let exp: Vec<Ent> = r.m.iter().map(ent).collect();
    cmp_seq("all entries, after growing again", &got, exp.iter())?;
    st.nontrivial = r.peak > 20_000 && r.changes > 20_000;
    st.class_if(r.peak > 64 * 64 * 64 && C::L == 64 && C::B == 64, "four levels at node size 64");
    st.class_if(r.peak > 1 << 17 && C::L < 6 && C::B < 6, "over 2^17 entries at the smallest node sizes");
    st.class_if(r.peak > 1 << 18 && C::L < 6 && C::B < 6, "over 2^18 entries at the smallest node sizes");
    st.max("entries", r.peak as u64);
    st.add("changes", r.changes);
    Ok(())
}

/// A tree of five levels at node size 64, against arithmetic.
fn giant(case: &Case, st: &mut Stats) -> R {
    let n = (1u32 << 24) + case.seed % 2_000_003;
    fuel(i64::MAX / 2);
    let mut t: PalmTree<u32, u32, Tree64<Unique>> = PalmTree::load((0..n).map(|i| (i * 3, i)));
    same!(t.len(), n as usize, "length");
    let mut x = case.seed;
    for _ in 0..2000 {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let i = (x >> 3) % n;
        same!(t.get(&(i * 3)), Some(&i), "get");
        same!(t.get(&(i * 3 + 1)), None, "get");
        let got: Vec<u32> = t.range(i * 3 + 1..).take(70).map(|e| *e.1).collect();
        let want: Vec<u32> = (i + 1..n).take(70).collect();
        same!(got, want, "range");
        let got: Vec<u32> = t.range(..i * 3).rev().take(70).map(|e| *e.1).collect();
        let want: Vec<u32> = (0..i).rev().take(70).collect();
        same!(got, want, "range from the back");
        same!(t.insert(i * 3 + 2, 7), None, "insert");
        same!(t.remove(&(i * 3 + 2)), Some((i * 3 + 2, 7)), "remove");
    }
    for i in 0..1000 {
        same!(t.insert(3 * n + i, i), None, "insert above");
    }
    same!(t.iter().count(), n as usize + 1000, "entries iterated");
    same!(t.iter().rev().take(1001).last().map(|e| *e.1), Some(n - 1), "entries iterated from the back");
    for i in 0..100_000 {
        same!(t.remove_lowest(), Some((i * 3, i)), "lowest");
    }
    for i in 0..1000 {
        same!(t.remove_highest(), Some((3 * n + 999 - i, 999 - i)), "highest");
    }
    st.class("five levels at node size 64");
    st.max("entries", n as u64);
    st.nontrivial = true;
    Ok(())
}

/// Nodes of more entries than sixteen bits can count, against a sorted map; filled in order and changed all over.
fn wide<C: TreeConfig<u32, u32> + Sizes>(case: &Case, st: &mut Stats) -> R {
    fuel(i64::MAX / 2);
    let n = 40_000 + case.seed % 520_000;
    let mut m: M = (0..n).map(|i| (i * 3, i)).collect();
    let mut t: PalmTree<u32, u32, C> = if case.hi == 13 {
        let mut t = PalmTree::new();
        for i in 0..n {
            same!(t.insert(i * 3, i), None, "insert at the end");
        }
        t
    } else {
        PalmTree::load((0..n).map(|i| (i * 3, i)))
    };
    let mut x = case.seed | 1;
    for round in 0..300 * case.phases.len() as u32 {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        // near the end, near the beginning, or anywhere
        let k = match x >> 30 {
            0 => 3 * n - 3 - (x >> 4) % 1000,
            1 => (x >> 4) % 1000,
            _ => (x >> 3) % (3 * n + 5),
        };
        same!(t.get(&k), m.get(&k), "get {}", k);
        let got: Vec<(u32, u32)> = t.range(k..).take(9).map(|e| (*e.0, *e.1)).collect();
        let want: Vec<(u32, u32)> = m.range(k..).take(9).map(|e| (*e.0, *e.1)).collect();
        same!(got, want, "range from {}", k);
        let got: Vec<(u32, u32)> = t.range_mut(..=k).rev().take(9).map(|e| (*e.0, *e.1)).collect();
        let want: Vec<(u32, u32)> = m.range(..=k).rev().take(9).map(|e| (*e.0, *e.1)).collect();
        same!(got, want, "range_mut from the back of {}", k);
        match x >> 26 & 7 {
            0..=2 => same!(t.insert(k, round), m.insert(k, round), "insert {}", k),
            3 => same!(t.insert_recursive(k, round), m.insert(k, round), "insert_recursive {}", k),
            4 => {
                if let (Some(a), Some(b)) = (t.get_mut(&k), m.get_mut(&k)) {
                    *a = round;
                    *b = round;
                }
            }
            5 => same!(t.remove_highest(), m.pop_last(), "highest"),
            6 => same!(t.remove_lowest(), m.pop_first(), "lowest"),
            _ => {
                // everything of a window, so that some leaves go
                let ks: Vec<u32> = m.range(k..).take(12).map(|e| *e.0).collect();
                for k in ks {
                    same!(t.remove(&k).map(|e| e.1), m.remove(&k), "remove {}", k);
                }
            }
        }
        same!(t.len(), m.len(), "length");
    }
    let exp: Vec<Ent> = m.iter().map(ent).collect();
    let got: Vec<Ent> = t.iter().map(ent).collect();
    cmp_seq("all entries", &got, exp.iter())?;
    let got: Vec<Ent> = t.iter_mut().rev().map(|(k, v)| (*k, 0, *v)).collect();
    cmp_seq("all entries from the back", &got, exp.iter().rev())?;
    let mut it = t.into_iter();
    let (mut lo, mut hi) = (0, exp.len());
    while lo < hi {
        same!(it.len(), hi - lo, "remaining length");
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let (got, at) = if x >> 31 == 0 {
            lo += 1;
            (it.next(), lo - 1)
        } else {
            hi -= 1;
            (it.next_back(), hi)
        };
        same!(got, Some((exp[at].0, exp[at].2)), "entry {}", at);
    }
    same!(it.next(), None, "end");
    st.class(if C::L > 1000 { "leaves of over 2^16 entries" } else { "branches of over 2^16 children" });
    st.max("entries", n as u64);
    st.nontrivial = n as usize > C::L && n > 70_000;
    Ok(())
}

fn order() -> BoxedStrategy<Order> {
    prop_oneof![
        3 => Just(Order::Up),
        4 => Just(Order::Down),
        3 => any::<u32>().prop_map(Order::Shuffled),
        1 => Just(Order::Inward),
        1 => Just(Order::Outward),
        1 => any::<u16>().prop_map(Order::Stride),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(l, u)| Order::Blocks(l, u)),
    ]
    .boxed()
}

/// Nodes are made on the stack.
fn with_stack(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || catch(f)).unwrap();
        match h.join().unwrap() {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        }
    })
}

fn phase() -> BoxedStrategy<Phase> {
    let a = || any::<u32>();
    let h = || any::<u16>();
    let g = || any::<u8>();
    prop_oneof![
        2 => (a(), g()).prop_map(|(n, g)| Phase::Load(n, g)),
        7 => (h(), a(), g(), order(), g()).prop_map(|(at, n, gap, order, api)| Phase::Insert { at, n, gap, order, api }),
        1 => (h(), a(), g(), order()).prop_map(|(at, n, gap, order)| Phase::Extend { at, n, gap, order }),
        1 => (h(), a(), g(), g()).prop_map(|(at, n, gap, how)| Phase::Merge { at, n, gap, how }),
        2 => (a(), a(), order(), g()).prop_map(|(at, n, order, api)| Phase::Remove { at, n, order, api }),
        1 => (h(), h(), order()).prop_map(|(m, from, order)| Phase::Thin { m, from, order }),
        1 => (any::<bool>(), a()).prop_map(|(h, n)| Phase::Pop(h, n)),
        1 => order().prop_map(Phase::Clear),
        1 => Just(Phase::Clone),
        1 => (a(), any::<bool>()).prop_map(|(x, b)| Phase::Write(x, b)),
        2 => script(6).prop_map(Phase::Iterate),
        2 => script(6).prop_map(Phase::Consume),
    ]
    .boxed()
}

impl Prop for C18 {
    const ID: &'static str = "C18";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let (big, giants) = if tier == Tier::Quick { (3, 0) } else { (5, 1) };
        let scale = prop_oneof![1 => Just((13u8, 9u8)), 1 => Just((16, 12)), big => Just((18, 17))];
        let cfg = prop_oneof![40 => 0u8..9, 2 => 9u8..11, giants => Just(99u8)];
        (cfg, scale, vec(phase(), 1..=5), any::<u32>(), order())
            .prop_map(|(cfg, (hi, lo), phases, seed, end)| Case { cfg, hi, lo, phases, seed, end })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        match case.cfg {
            0 | 1 => run::<L4B4<Unique>>(case, st),
            2 => run::<L4B4<Shared>>(case, st),
            3 => run::<L5B4<SyncShared>>(case, st),
            4 => run::<L4B5<Unique>>(case, st),
            5 | 6 => run::<Tree64<Unique>>(case, st),
            7 => run::<L64B4<Unique>>(case, st),
            8 => run::<L5B5<Unique>>(case, st),
            9 => with_stack(|| wide::<L128KB4<Unique>>(case, st)),
            10 => with_stack(|| wide::<L4B128K<Unique>>(case, st)),
            _ => giant(case, st),
        }
    }
}

fn main() {
    palmtree_verif::main::<C18>()
}
