//! C13: panicking or inconsistent keys and values never corrupt memory.

use palmtree::{PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use palmtree_verif::engine::catch;
use palmtree_verif::tracked::{self, Call, Inst, TK, TV, ZV};
use palmtree_verif::world::*;
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;

struct C13;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    /// the n-th call of a kind panics
    Panic(u8, u32),
    /// comparisons n.. lie, so many of them, in some way
    Lie(u32, u32, u8),
    /// two of them: comparisons lie first, then a callback panics
    Both(u32, u32, u8, u8, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    World(Act),
    Load(Vec<u16>),
    Collect(Vec<u16>),
    Extend(u8, Vec<u16>),
    FromMap(Vec<u16>),
    Compare(u8, u8),
    Show(u8),
    Lookups(u8, Vec<u16>),
    Ranges(u8, u16, u16, u8),
    IntoVec(u8, u16, u16),
    Plus(u8, u8),
    /// insert through a held vacant entry, or remove through a held occupied one
    TakeOut(u8, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    /// the fault may already strike while the recipe is followed
    early: bool,
    fault: Fault,
    acts: Vec<Step>,
    /// what goes on after it, on what is left
    after: Vec<Step>,
    ends: Vec<u8>,
}

fn arm(f: &Fault) {
    let call = |c: u8| [Call::Cmp, Call::KeyClone, Call::ValClone, Call::KeyDrop, Call::ValDrop, Call::Feed, Call::Look][c as usize % 7];
    match *f {
        Fault::Panic(c, n) => tracked::arm(call(c), n as u64 + 1),
        Fault::Lie(a, n, how) => tracked::lie(a as u64, n as u64 + 1, how),
        Fault::Both(a, n, how, c, m) => {
            tracked::lie(a as u64, n as u64 + 1, how);
            tracked::arm(call(c), m as u64 + 1);
        }
    }
}

type Seen = HashMap<(bool, u32), usize>;

fn note(seen: &mut Seen, key: bool, id: u32, at: usize) -> R {
    match seen.insert((key, id), at) {
        Some(was) if was != at => Err(format!(
            "one {} (instance {}) is exposed in two places at once",
            if key { "key" } else { "value" },
            id
        )),
        _ => Ok(()),
    }
}
fn spot<K: Key + Inst, V: Val + Inst>(seen: &mut Seen, k: &K, v: &V) -> R {
    let _ = (k.n(), v.x());
    if let Some(id) = k.inst() {
        note(seen, true, id, k as *const _ as usize)?;
    }
    match v.inst() {
        Some(id) => note(seen, false, id, v as *const _ as usize),
        None => Ok(()),
    }
}

/// Step a mutable iterator from both ends in some way, keeping all it hands out: no entry may come twice.
fn once<'a, K: Key, V: Val>(it: &mut dyn DoubleEndedIterator<Item = (&'a K, &'a mut V)>, how: u8, limit: usize) -> R {
    let mut out: Vec<&'a mut V> = vec![];
    for i in 0..limit {
        let g = match how % 4 {
            0 => it.next(),
            1 => it.next_back(),
            2 if i % 2 == 0 => it.next(),
            2 => it.next_back(),
            _ if i % 7 < 4 => it.next_back(),
            _ => it.next(),
        };
        match g {
            Some((k, v)) => {
                let _ = (k.n(), v.x());
                out.push(v);
            }
            None => break,
        }
    }
    let mut at: Vec<usize> = out.iter().map(|v| *v as *const V as usize).collect();
    at.sort_unstable();
    if std::mem::size_of::<V>() > 0 && at.windows(2).any(|w| w[0] == w[1]) {
        return Err("a mutable iterator hands out one value twice".into());
    }
    Ok(())
}

/// Read all that can be read. Only corruption counts; a panic is an answer as well.
fn expose<K: Key + Inst, V: Val + Inst, C: TreeConfig<K, V> + Sizes>(t: &mut PalmTree<K, V, C>, top: usize, full: bool) -> R {
    refuel(top);
    let mut r: R = Ok(());
    let mut seen = Seen::new();
    let limit = 4 * top + 200;
    // The same instance must not be found in two places.
    let mut step = |f: &mut dyn FnMut(&mut Seen, &mut PalmTree<K, V, C>) -> R| {
        refuel(top);
        if let Ok(Err(e)) = catch(|| f(&mut seen, t)) {
            if r.is_ok() {
                r = Err(e)
            }
        }
    };
    step(&mut |s, t| t.iter().take(limit).try_for_each(|(k, v)| spot(s, k, v)));
    step(&mut |s, t| {
        let mut it = t.iter();
        for _ in 0..limit {
            match it.next_back() {
                Some((k, v)) => spot(s, k, v)?,
                None => break,
            }
        }
        Ok(())
    });
    step(&mut |s, t| t.iter_mut().take(limit).try_for_each(|(k, v)| spot(s, k, v)));
    step(&mut |_, t| once(&mut t.iter_mut(), 2, limit));
    if full {
        step(&mut |_, t| {
            let _ = (t.len(), t.is_empty());
            let ks: Vec<u32> = t.iter().take(limit).map(|(k, _)| k.n()).collect();
            let every = ks.len() / 40 + 1;
            for n in ks.iter().step_by(every) {
                for n in n.saturating_sub(1)..=n + 1 {
                    let k = K::mk(n, 0);
                    for g in [t.get(&k), t.get_linear(&k)] {
                        g.map(|v| v.x());
                    }
                    t.get_mut(&k).map(|v| v.x());
                    t.range(&k..).take(3).for_each(|(k, v)| drop((k.n(), v.x())));
                    t.range(..=&k).rev().take(3).for_each(|(k, v)| drop((k.n(), v.x())));
                }
            }
            Ok(())
        });
        step(&mut |_, t| once(&mut t.iter_mut(), 3, limit));
    }
    r?;
    tracked::check()
}

fn pairs<K: Key, V: Val>(v: &[u16], t: &mut u32) -> Vec<(K, V)> {
    v.iter()
        .map(|n| {
            *t += 1;
            (K::mk(1000 + *n as u32 % 2000, *t), V::mk(*t))
        })
        .collect()
}

/// Hand them out one by one; each step is a place to fail.
fn fed<T>(v: Vec<T>) -> impl Iterator<Item = T> {
    v.into_iter().map(|x| {
        tracked::callback(Call::Feed);
        x
    })
}

/// One step, whose answers do not matter.
fn step<K: Key + Inst, V: Val + Inst, C: TreeConfig<K, V> + Sizes>(w: &mut World<K, V, C>, s: &Step, t: &mut u32) -> R {
    let n = w.all.len();
    if n == 0 {
        return Ok(());
    }
    let ix = |i: &u8| *i as usize % n;
    let top = w.all.iter().map(|c| c.peak).max().unwrap();
    refuel(2 * top);
    let adopt = |w: &mut World<K, V, C>, tree: PalmTree<K, V, C>| {
        // Contents are anyone's guess: an empty model will do, acts then pick keys of the domain.
        let mut c = Ctx::adopt(tree, Default::default(), 700, 500_000_000);
        c.lo = 990;
        c.hi = 3010;
        c.peak = 2000;
        if w.all.len() < 6 {
            w.all.push(c)
        } else {
            w.all[0] = c
        }
    };
    match s {
        Step::World(a) => return w.act(a),
        Step::Load(v) => {
            let mut v = v.clone();
            v.sort();
            v.dedup_by_key(|n| *n % 2000);
            v.sort_by_key(|n| *n % 2000);
            let p = pairs(&v, t);
            adopt(w, PalmTree::load(fed(p)))
        }
        Step::Collect(v) => {
            let p = pairs(v, t);
            adopt(w, fed(p).collect())
        }
        Step::Extend(i, v) => {
            let p = pairs(v, t);
            w.all[ix(i)].tree.extend(fed(p))
        }
        Step::FromMap(v) => {
            let p: BTreeMap<K, V> = pairs(v, t).into_iter().collect();
            adopt(w, p.into())
        }
        Step::Compare(i, j) => {
            let (a, b) = (&w.all[ix(i)].tree, &w.all[ix(j)].tree);
            let _ = a == b;
            let mut h = DefaultHasher::new();
            a.iter().for_each(|(k, _)| k.hash(&mut h));
        }
        Step::Show(i) => drop(format!("{:?}", w.all[ix(i)].tree)),
        Step::Lookups(i, v) => {
            let tree = &mut w.all[ix(i)].tree;
            for n in v {
                let k = K::mk(1000 + *n as u32 % 2000, 0);
                tree.get(&k).map(|v| v.x());
                tree.get_linear(&k).map(|v| v.x());
                tree.get_mut(&k).map(|v| v.x());
            }
        }
        Step::Ranges(i, a, b, how) => {
            let tree = &mut w.all[ix(i)].tree;
            let (a, b) = (K::mk(1000 + *a as u32 % 2000, 0), K::mk(1000 + *b as u32 % 2000, 0));
            let (a, b) = if a.n() <= b.n() { (a, b) } else { (b, a) };
            let lim = 4 * top + 200;
            let eat = |it: &mut dyn DoubleEndedIterator<Item = (u32, u32)>| {
                for i in 0..lim {
                    let g = match how / 8 % 3 {
                        0 => it.next(),
                        1 => it.next_back(),
                        _ if i % 2 == 0 => it.next(),
                        _ => it.next_back(),
                    };
                    if g.is_none() {
                        break;
                    }
                }
            };
            match how % 8 {
                0 => eat(&mut tree.range(&a..&b).map(|(k, v)| (k.n(), v.x()))),
                1 => eat(&mut tree.range(&a..=&b).map(|(k, v)| (k.n(), v.x()))),
                2 => eat(&mut tree.range(&a..).map(|(k, v)| (k.n(), v.x()))),
                3 => eat(&mut tree.range(..=&b).map(|(k, v)| (k.n(), v.x()))),
                4 => return once(&mut tree.range_mut(&a..&b), how / 8, lim),
                5 => return once(&mut tree.range_mut(&a..=&b), how / 8, lim),
                6 => return once(&mut tree.range_mut(&a..), how / 8, lim),
                _ => return once(&mut tree.range_mut(..&b), how / 8, lim),
            }
        }
        Step::IntoVec(i, front, back) => {
            let c = w.fork(ix(i))?;
            let mut it = c.tree.into_iter();
            for (k, v) in it.by_ref().take(*front as usize) {
                let _ = (k.n(), v.x());
            }
            for (k, v) in it.by_ref().rev().take(*back as usize) {
                let _ = (k.n(), v.x());
            }
        }
        Step::Plus(i, j) => {
            let (a, b) = (w.fork(ix(i))?, w.fork(ix(j))?);
            let s = a.tree + b.tree;
            adopt(w, s)
        }
        Step::TakeOut(i, n) => {
            let tree = &mut w.all[ix(i)].tree;
            *t += 1;
            match n % 4 {
                0 => drop(tree.remove_lowest().map(|(k, v)| (k.n(), v.x()))),
                1 => drop(tree.remove_highest().map(|(k, v)| (k.n(), v.x()))),
                2 => drop(tree.insert(K::mk(1000 + *n as u32 % 2000, *t), V::mk(*t)).map(|v| v.x())),
                _ => drop(tree.insert_recursive(K::mk(1000 + *n as u32 % 2000, *t), V::mk(*t)).map(|v| v.x())),
            }
        }
    }
    Ok(())
}

fn run<K: Key + Inst, V: Val + Inst, C: TreeConfig<K, V> + Sizes>(case: &Case, st: &mut Stats, max: usize) -> R {
    tracked::reset();
    let mut t = 600_000_000u32;
    if case.early {
        arm(&case.fault);
    }
    let w = catch(|| {
        let mut c = Ctx::<K, V, C>::new(max, false);
        let r: R = (|| {
            c.build(&case.recipe.build)?;
            for m in &case.recipe.muts {
                c.apply(m)?;
            }
            Ok(())
        })();
        let _ = r;
        World::new(c, false)
    });
    tracked::check().map_err(|e| format!("while building: {}", e))?;
    let mut w = match w {
        Ok(w) => w,
        Err(_) => World::new(Ctx::<K, V, C>::new(max, false), false),
    };
    let size = w.all[0].model.len();
    if !case.early {
        arm(&case.fault);
    }
    let mut struck_in = None;
    let mut panics = 0;
    for (i, a) in case.acts.iter().enumerate() {
        let r = catch(|| step(&mut w, a, &mut t));
        panics += r.is_err() as u64;
        tracked::check().map_err(|e| format!("in step {} {:?}: {}", i, a, e))?;
        let struck = tracked::fired() || tracked::lies_told() > 0;
        if struck && struck_in.is_none() {
            struck_in = Some(i);
        }
        if struck {
            // With the fault still on: a first look, in which it may strike again.
            for c in &mut w.all {
                let top = c.peak;
                expose(&mut c.tree, top, false).map_err(|e| format!("reading after step {} {:?}: {}", i, a, e))?;
            }
        }
        if tracked::fired() {
            break;
        }
    }
    let (fired, lies) = (tracked::fired(), tracked::lies_told());
    tracked::disarm();
    let all = |w: &mut World<K, V, C>, when: &str| -> R {
        for (i, c) in w.all.iter_mut().enumerate() {
            let top = c.peak;
            expose(&mut c.tree, top, true).map_err(|e| format!("reading tree {} {}: {}", i, when, e))?;
        }
        Ok(())
    };
    all(&mut w, "after the fault")?;
    for (i, a) in case.after.iter().enumerate() {
        let r = catch(|| step(&mut w, a, &mut t));
        panics += r.is_err() as u64;
        tracked::check().map_err(|e| format!("in step {} {:?} after the fault: {}", i, a, e))?;
    }
    all(&mut w, "after going on")?;
    // Each tree goes in some way.
    let World { all, eaten, .. } = w;
    for (i, mut c) in all.into_iter().enumerate() {
        refuel(c.peak);
        let end = case.ends[i % case.ends.len()];
        let _ = catch(move || match end % 4 {
            0 => drop(c.tree),
            1 => c.tree.into_iter().for_each(|(k, v)| drop((k.n(), v.x()))),
            2 => c.tree.into_iter().rev().for_each(|(k, v)| drop((k.n(), v.x()))),
            _ => {
                for _ in 0..end {
                    if c.tree.remove_highest().is_none() {
                        break;
                    }
                }
            }
        });
        tracked::check().map_err(|e| format!("dropping tree {}: {}", i, e))?;
    }
    for e in eaten {
        refuel(1000);
        let _ = catch(move || drop(e));
        tracked::check().map_err(|e| format!("dropping a consuming iterator: {}", e))?;
    }
    st.nontrivial = size > C::L && (fired || lies > 0) && struck_in.is_some();
    st.class_if(fired, match case.fault {
        Fault::Panic(c, _) | Fault::Both(_, _, _, c, _) => {
            ["panic in comparison", "panic in key clone", "panic in value clone", "panic in key drop", "panic in value drop", "panic in an iterator drawn from", "panic in formatting, hashing or value comparison"][c as usize % 7]
        }
        _ => "panic",
    });
    st.class_if(lies > 0, "inconsistent comparisons");
    st.class_if(case.early && (fired || lies > 0) && struck_in.is_none(), "struck while building");
    st.class(if C::SHARED { "shared" } else { "unique" });
    st.class_if(size > C::L * C::B, "three or more levels");
    st.add("panics caught", panics);
    st.add("inconsistent answers", lies);
    st.max("entries", size as u64);
    Ok(())
}

fn some_step() -> BoxedStrategy<Step> {
    let i = || any::<u8>();
    let v = || prop_oneof![2 => vec(any::<u16>(), 0..12), 1 => vec(any::<u16>(), 0..80)];
    prop_oneof![
        12 => act().prop_map(Step::World),
        6 => mutation().prop_map(|m| Step::World(Act::Mutate(0, m))),
        1 => v().prop_map(Step::Load),
        1 => v().prop_map(Step::Collect),
        2 => (i(), v()).prop_map(|(i, v)| Step::Extend(i, v)),
        1 => v().prop_map(Step::FromMap),
        1 => (i(), i()).prop_map(|(i, j)| Step::Compare(i, j)),
        1 => i().prop_map(Step::Show),
        2 => (i(), v()).prop_map(|(i, v)| Step::Lookups(i, v)),
        3 => (i(), any::<u16>(), any::<u16>(), i()).prop_map(|(i, a, b, h)| Step::Ranges(i, a, b, h)),
        2 => (i(), 0u16..60, 0u16..60).prop_map(|(i, a, b)| Step::IntoVec(i, a, b)),
        1 => (i(), i()).prop_map(|(i, j)| Step::Plus(i, j)),
        3 => (i(), any::<u16>()).prop_map(|(i, n)| Step::TakeOut(i, n)),
    ]
    .boxed()
}

impl Prop for C13 {
    const ID: &'static str = "C13";
    const FUEL_IS_VIOLATION: bool = false;
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 6 } else { 14 };
        let count = || {
            prop_oneof![3 => 0u32..8, 3 => 0u32..40, 2 => 0u32..300, 1 => 0u32..3000]
        };
        let fault = prop_oneof![
            6 => (0u8..7, count()).prop_map(|(c, n)| Fault::Panic(c, n)),
            4 => (count(), count(), 0u8..6).prop_map(|(a, n, h)| Fault::Lie(a, n, h)),
            1 => (count(), count(), 0u8..6, 0u8..7, count()).prop_map(|(a, n, h, c, m)| Fault::Both(a, n, h, c, m)),
        ];
        let cfg = prop_oneof![5 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8), 2 => Just(4u8), 3 => 5u8..10];
        // a third of the trees small
        let cfg = (cfg, prop_oneof![2 => Just(0u8), 1 => Just(10u8)]).prop_map(|(c, small)| c + small);
        (
            cfg,
            recipe(4),
            prop_oneof![7 => Just(false), 1 => Just(true)],
            fault,
            vec(some_step(), 1..=n),
            vec(some_step(), 0..=n),
            vec(any::<u8>(), 1..=6),
        )
            .prop_map(|(cfg, recipe, early, fault, acts, after, ends)| Case { cfg, recipe, early, fault, acts, after, ends })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        let size = |n: usize| if case.cfg < 10 { n } else { n / 8 };
        match case.cfg % 10 {
            0 => run::<TK, TV, L4B4<Unique>>(case, st, size(500)),
            1 => run::<TK, TV, L5B4<Unique>>(case, st, size(500)),
            2 => run::<TK, TV, Tree64<Unique>>(case, st, size(3000)),
            3 => run::<TK, TV, L4B5<Shared>>(case, st, size(400)),
            4 => run::<TK, TV, L5B5<SyncShared>>(case, st, size(400)),
            5 => run::<u32, TV, L4B4<Unique>>(case, st, size(500)),
            6 => run::<TK, u32, L5B4<Unique>>(case, st, size(500)),
            7 => run::<u32, ZV, L4B5<Unique>>(case, st, size(500)),
            8 => run::<u32, TV, L4B4<Shared>>(case, st, size(400)),
            _ => run::<TK, (), L4B4<SyncShared>>(case, st, size(400)),
        }
    }
}

fn main() {
    palmtree_verif::main::<C13>()
}
