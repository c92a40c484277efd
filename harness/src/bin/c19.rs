//! C19: safe calls touch only memory that is theirs. What the calls answer is not judged here, only what becomes of
//! memory: by the registry of instances, the checking allocator, AddressSanitizer, or the interpreter (see ../../check.py).

use palmtree::{Entry, PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use palmtree_verif::tracked::{self, TK, TV, ZV};
use palmtree_verif::world::*;
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::Hash;
use std::ops::{Bound, RangeBounds};

struct C19;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    Act(Act),
    Iter(u8, Script),
    Range(u8, Bounds, Script),
    RangeMut(u8, Bounds, Script),
    Into(u8, Script),
    Merge(u8, u8, u8),
    Look(u8, u8),
    /// every bound kind between two keys
    Sweep(u8, Sel, i8),
    /// a range whose bounds are others every time they are asked for
    Fickle(u8, Bounds, Bounds, u8, bool),
    /// a tree of its own, built by load, collect or extend from keys in any order and with a wrong length hint,
    /// and what can be done to it
    Rough(Vec<u16>, u8, Vec<(u8, u16)>),
}

/// Bounds that change with every question.
struct Shifty<K>(Cell<usize>, [(Bound<K>, Bound<K>); 2]);
impl<K> RangeBounds<K> for Shifty<K> {
    fn start_bound(&self) -> Bound<&K> {
        let n = self.0.get();
        self.0.set(n + 1);
        self.1[n / 2 % 2].0.as_ref()
    }
    fn end_bound(&self) -> Bound<&K> {
        let n = self.0.get();
        self.0.set(n + 1);
        self.1[n / 2 % 2].1.as_ref()
    }
}

/// An iterator with a wrong length hint, which goes on after its end.
struct Liar<I>(I, u8);
impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 % 5 {
            0 => self.0.size_hint(),
            1 => (0, Some(0)),
            2 => (1, Some(1)),
            3 => (5000, Some(9000)),
            _ => (3, None),
        }
    }
}

/// Take what a mutable iterator has to give, from both ends, and write to all of it at the end.
fn hoard<'a, K: Key, V: Val>(it: &mut dyn DoubleEndedIterator<Item = (&'a K, &'a mut V)>, how: u8, most: usize) -> R {
    let mut out: Vec<&'a mut V> = vec![];
    for i in 0..most {
        let back = match how % 4 {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            _ => i % 5 > 1,
        };
        let Some((k, v)) = (if back { it.next_back() } else { it.next() }) else { break };
        let _ = (k.n(), k.tag(), v.x());
        out.push(v);
    }
    let mut at: Vec<usize> = out.iter().map(|v| &**v as *const V as usize).collect();
    at.sort_unstable();
    if !V::ZST && at.windows(2).any(|w| w[1] - w[0] < std::mem::size_of::<V>()) {
        return Err("torn value: handed out twice for writing".into());
    }
    for v in out {
        let x = v.x();
        *v = V::mk(x);
    }
    Ok(())
}

/// Do anything to a tree about which nothing is known.
fn rough<K: Key, V: Val, C: TreeConfig<K, V> + Sizes>(keys: &[u16], how: u8, ops: &[(u8, u16)]) -> R {
    let most = 4 * keys.len() + 100;
    let key = |n: u16| K::mk(Ctx::<K, V, C>::norm(n as u32), n as u32);
    let src = Liar(keys.iter().map(|n| (key(*n), V::mk(*n as u32))), how / 4);
    refuel(most);
    let mut t: PalmTree<K, V, C> = match how % 4 {
        0 | 1 => PalmTree::load(src),
        2 => src.collect(),
        _ => {
            let mut t = PalmTree::new();
            t.extend(src);
            t
        }
    };
    let mut others = vec![];
    let mut torn = Ok(());
    for (op, n) in ops {
        refuel(2 * most);
        // a panic is as good an answer as any
        let r = catch(|| {
            let k = key(*n);
            match op % 22 {
                0 | 1 => drop(t.insert(k, V::mk(1))),
                2 => drop(t.insert_recursive(k, V::mk(1))),
                3 | 4 => drop(t.remove(&k)),
                5 => drop(t.remove_lowest()),
                6 => drop(t.remove_highest()),
                7 => drop((t.get(&k).map(|v| v.x()), t.get_linear(&k).map(|v| v.x()))),
                8 => drop(t.get_mut(&k).map(|v| *v = V::mk(2))),
                9 => return hoard::<K, V>(&mut t.iter_mut(), op / 22, most),
                10 => return hoard::<K, V>(&mut t.range_mut(&k..), op / 22, most),
                11 => return hoard::<K, V>(&mut t.range_mut(..=&k), op / 22, most),
                12 => {
                    let mut it = t.range(&k..);
                    for i in 0..most {
                        let e = if i % 3 < (*op / 22) as usize { it.next_back() } else { it.next() };
                        let Some((k, v)) = e else { break };
                        let _ = (k.n(), v.x());
                    }
                }
                13 => drop(t.iter().rev().take(most).map(|(k, v)| (k.n(), v.x())).count()),
                14 => others.push(t.clone()),
                15 => {
                    if let Some(o) = others.pop() {
                        let o = std::mem::replace(&mut t, o);
                        o.into_iter().take(most / (1 + *op as usize / 22)).for_each(|(k, v)| drop((k.n(), v.x())));
                    }
                }
                16 => {
                    if let Some(o) = others.pop() {
                        let mut it = o.into_iter();
                        for i in 0..most {
                            let e = if i % 3 < (*op / 22) as usize { it.next_back() } else { it.next() };
                            let Some((k, v)) = e else { break };
                            let _ = (k.n(), v.x());
                        }
                    }
                }
                17 => {
                    if let Some(o) = others.pop() {
                        match op / 22 % 4 {
                            0 => t.append_left(o),
                            1 => t.append_right(o),
                            2 => t = std::mem::take(&mut t) + o,
                            _ => PalmTree::merge_left_iter(t.clone(), o).take(most).for_each(|(k, v)| drop((k.n(), v.x()))),
                        }
                    }
                }
                18 => match t.entry(k) {
                    Entry::Occupied(e) if *op > 100 => drop(e.remove_entry()),
                    Entry::Occupied(e) => *e.into_mut() = V::mk(3),
                    Entry::Vacant(e) => *e.insert(V::mk(4)) = V::mk(5),
                },
                19 => drop(format!("{:?} {}", t, t.len())),
                20 => drop(t == t.clone()),
                _ => drop((&t).into_iter().take(most).map(|(k, v)| (k.n(), v.x())).last()),
            }
            Ok(())
        });
        if let Ok(Err(e)) = r {
            torn = torn.and(Err(e));
        }
        tracked::check()?;
    }
    refuel(4 * most);
    drop(t);
    drop(others);
    torn
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    max: u16,
    recipe: Recipe,
    acts: Vec<Do>,
}

fn act1<K: Key, V: Val, C: TreeConfig<K, V> + Sizes>(w: &mut World<K, V, C>, d: &Do) -> R {
    let n = w.all.len();
    let ix = |i: &u8| *i as usize % n;
    let mut met = false;
    let mut map = |(k, v): (&K, &V)| (k.n(), k.tag(), v.x());
    match d {
        Do::Act(a) => w.act(a),
        Do::Iter(i, s) => {
            let c = &w.all[ix(i)];
            let exp = c.entries();
            refuel(exp.len());
            run_cloning::<C, _>(c.tree.iter(), &exp, s, &mut map, &mut met, &mut false)
        }
        Do::Range(i, b, s) => {
            let c = &w.all[ix(i)];
            let (x, y) = b.keys(c);
            if invalid(b.lo, x, b.hi, y) {
                let _ = catch(|| c.tree.range((bounds::bound::<K>(b.lo, x), bounds::bound::<K>(b.hi, y))).count());
                return Ok(());
            }
            let exp: Vec<_> = c.entries().into_iter().filter(|e| inside(e.0, b.lo, x, b.hi, y)).collect();
            refuel(c.model.len());
            with_range!(b.form, b.lo, x, b.hi, y, K, |r| run_cloning::<C, _>(c.tree.range(r), &exp, s, &mut map, &mut met, &mut false))
        }
        Do::RangeMut(i, b, s) => {
            let c = &mut w.all[ix(i)];
            let (x, y) = b.keys(c);
            if invalid(b.lo, x, b.hi, y) {
                return Ok(());
            }
            let exp: Vec<_> = c.entries().into_iter().filter(|e| inside(e.0, b.lo, x, b.hi, y)).collect();
            refuel(c.model.len());
            let mut map = |(k, v): (&K, &mut V)| {
                let x = v.x();
                *v = V::mk(x);
                (k.n(), k.tag(), x)
            };
            with_range!(b.form, b.lo, x, b.hi, y, K, |r| run_plain::<C, _>(c.tree.range_mut(r), &exp, false, s, &mut map, &mut met))
        }
        Do::Into(i, s) => {
            let o = w.fork(ix(i))?;
            let exp = o.entries();
            refuel(2 * exp.len());
            let mut map = |(k, v): (K, V)| (k.n(), k.tag(), v.x());
            run_plain::<C, _>(o.tree.into_iter(), &exp, true, s, &mut map, &mut met)
        }
        Do::Merge(i, j, how) => {
            let (a, b) = (w.fork(ix(i))?, w.fork(ix(j))?);
            refuel(2 * (a.model.len() + b.model.len()));
            let len = a.model.keys().chain(b.model.keys()).collect::<std::collections::BTreeSet<_>>().len();
            let got = match how % 2 {
                0 => a.tree + b.tree,
                _ => {
                    let mut t = a.tree;
                    t += b.tree;
                    t
                }
            };
            same!(got.iter().map(|(k, v)| (k.tag(), v.x())).count(), len, "entries of a sum");
            Ok(())
        }
        Do::Look(i, j) => {
            let (a, b) = (&w.all[ix(i)], &w.all[ix(j)]);
            refuel(4 * (a.model.len() + b.model.len()));
            let _ = a.tree == b.tree;
            let _ = format!("{:?} {:?}", a.tree, a.tree.iter());
            a.audit_get(true)?;
            a.audit_iter()
        }
        Do::Fickle(i, b1, b2, how, mutable) => {
            let c = &mut w.all[ix(i)];
            let most = 2 * c.model.len() + 20;
            let r = |b: &Bounds| {
                let (x, y) = b.keys(&*c);
                (bounds::bound::<K>(b.lo, x), bounds::bound::<K>(b.hi, y))
            };
            let r = Shifty(Cell::new(*how as usize % 4), [r(b1), r(b2)]);
            refuel(2 * most);
            if *mutable {
                // values are written anew
                let mut t = c.tree.clone();
                hoard::<K, V>(&mut t.range_mut(r), how / 4, most)
            } else {
                let mut it = c.tree.range(r);
                for j in 0..most {
                    match if j % 4 < *how as usize / 4 { it.next() } else { it.next_back() } {
                        Some(e) => drop(map(e)),
                        None => break,
                    }
                }
                Ok(())
            }
        }
        Do::Rough(keys, how, ops) => rough::<K, V, C>(keys, *how, ops),
        Do::Sweep(i, s, d) => {
            let c = &w.all[ix(i)];
            let x = c.pick(s);
            let y = Ctx::<K, V, C>::norm((x as i64 + *d as i64).max(0) as u32);
            let (x, y) = (x.min(y), x.max(y));
            for lo in KINDS {
                for hi in KINDS {
                    if invalid(lo, x, hi, y) {
                        continue;
                    }
                    refuel(c.model.len());
                    let r = || (bounds::bound::<K>(lo, x), bounds::bound::<K>(hi, y));
                    let n = c.model.keys().filter(|k| inside(**k, lo, x, hi, y)).count();
                    let mut it = c.tree.range(r());
                    let mut m = 0;
                    while let Some(e) = if m % 2 == 0 { it.next_back() } else { it.next() } {
                        let _ = map(e);
                        m += 1;
                    }
                    same!(m, n, "entries of a range");
                }
            }
            Ok(())
        }
    }
}

/// Not what was answered, but whether memory was in order.
fn judge(what: &str, r: Result<R, String>, st: &mut Stats) -> R<bool> {
    tracked::check().map_err(|e| format!("{}: {}", what, e))?;
    match r {
        Ok(Ok(())) => Ok(true),
        Ok(Err(e)) | Err(e) => {
            if e.contains("torn value") || e.contains("misaligned ") || e.contains("unsafe precondition") {
                return Err(format!("{}: {}", what, e));
            }
            st.class("an answer was wrong (not judged here)");
            Ok(false)
        }
    }
}

fn run<K: Key + Hash, V: Val, C: TreeConfig<K, V> + Sizes>(case: &Case, st: &mut Stats, max: usize) -> R {
    tracked::reset();
    let max = max.min(case.max as usize);
    let mut made = None;
    let r = catch(|| {
        made = Some(Ctx::<K, V, C>::from_recipe(&case.recipe, max, false)?);
        Ok(())
    });
    if !judge("building", r, st)? {
        return Ok(());
    }
    let c = made.unwrap();
    let mut most = c.model.len();
    let mut w = World::new(c, false);
    for (i, d) in case.acts.iter().enumerate() {
        let r = catch(|| act1(&mut w, d));
        let what = format!("step {} {:?}", i, d);
        if !judge(&what, r, st)? {
            break;
        }
        most = most.max(w.held());
    }
    // Read and drop everything.
    let r = catch(|| {
        for c in &w.all {
            refuel(2 * c.model.len());
            let mut h = DefaultHasher::new();
            for (k, v) in c.tree.iter() {
                (k.n(), k.tag(), v.x()).hash(&mut h);
            }
        }
        Ok(())
    });
    judge("reading what is left", r, st)?;
    refuel(2 * w.held());
    let r = catch(|| {
        drop(w);
        Ok(())
    });
    judge("dropping what is left", r, st)?;
    st.nontrivial = most > C::L && case.acts.len() > 1;
    st.class_if(most > C::L * C::B, "three or more levels");
    st.class(if C::SHARED { "shared root" } else { "unique root" });
    st.max("entries", most as u64);
    Ok(())
}

fn key() -> BoxedStrategy<u16> {
    prop_oneof![3 => 0u16..260, 1 => any::<u16>()].boxed()
}
/// Keys in order, in nearly any order, and repeated.
fn jumble() -> BoxedStrategy<Vec<u16>> {
    let ascending = (0u16..200, 1u16..4).prop_map(|(n, s)| (0..n).map(|i| 10 + i * s).collect::<Vec<_>>());
    prop_oneof![
        1 => vec(key(), 0..120),
        1 => ascending.clone(),
        3 => (ascending, vec((any::<u16>(), any::<u16>(), key()), 1..8)).prop_map(|(mut v, swaps)| {
            for (a, b, k) in swaps {
                if !v.is_empty() {
                    let (a, b) = (a as usize % v.len(), b as usize % v.len());
                    match k % 3 {
                        0 => v.swap(a, b),
                        1 => v[a] = k,
                        _ => v[a] = v[b],
                    }
                }
            }
            v
        }),
    ]
    .boxed()
}

fn some() -> BoxedStrategy<Do> {
    let i = any::<u8>;
    prop_oneof![
        12 => act().prop_map(Do::Act),
        2 => (i(), script(6)).prop_map(|(i, s)| Do::Iter(i, s)),
        4 => (i(), bounds(), script(4)).prop_map(|(i, b, s)| Do::Range(i, b, s)),
        3 => (i(), bounds(), script(4)).prop_map(|(i, b, s)| Do::RangeMut(i, b, s)),
        3 => (i(), script(6)).prop_map(|(i, s)| Do::Into(i, s)),
        1 => (i(), i(), i()).prop_map(|(i, j, h)| Do::Merge(i, j, h)),
        1 => (i(), i()).prop_map(|(i, j)| Do::Look(i, j)),
        2 => (i(), sel(), -1i8..12).prop_map(|(i, s, d)| Do::Sweep(i, s, d)),
        2 => (i(), bounds(), bounds(), i(), any::<bool>()).prop_map(|(i, b, c, h, m)| Do::Fickle(i, b, c, h, m)),
        2 => (jumble(), i(), vec((i(), key()), 0..30)).prop_map(|(k, h, o)| Do::Rough(k, h, o)),
    ]
    .boxed()
}

impl Prop for C19 {
    const ID: &'static str = "C19";
    const FUEL_IS_VIOLATION: bool = false;
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 10 } else { 30 };
        let max = prop_oneof![3 => 12u16..60, 1 => 60u16..300, 1 => Just(700u16)];
        (0u8..14, max, recipe(4), vec(some(), 1..=n)).prop_map(|(cfg, max, recipe, acts)| Case { cfg, max, recipe, acts }).boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        match case.cfg {
            0 => run::<TK, TV, L4B4<Unique>>(case, st, 700),
            1 => run::<TK, TV, L5B4<Unique>>(case, st, 700),
            2 => run::<TK, TV, L4B5<Shared>>(case, st, 500),
            3 => run::<TK, TV, L5B5<SyncShared>>(case, st, 500),
            4 => run::<u32, Box<u32>, L4B4<Unique>>(case, st, 700),
            5 => run::<String, String, L4B4<Shared>>(case, st, 500),
            6 => run::<Box<u32>, u32, L6B4<SyncShared>>(case, st, 500),
            7 => run::<u32, Big, L5B5<Shared>>(case, st, 500),
            8 => run::<AlKey, Al, L4B4<Unique>>(case, st, 500),
            9 => run::<AlKey, Al, L5B4<SyncShared>>(case, st, 500),
            10 => run::<u8, (), L4B4<Unique>>(case, st, 256),
            11 => run::<TK, ZV, L5B4<Unique>>(case, st, 500),
            12 => run::<u8, u32, L4B4<Shared>>(case, st, 256),
            _ => run::<TK, TV, Tree64<Unique>>(case, st, 700),
        }
    }
}

fn main() {
    palmtree_verif::main::<C19>()
}
