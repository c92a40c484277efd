//! C12: every key and value is dropped exactly once, and nothing leaks.

use palmtree::{Shared, SyncShared, Tree64, TreeConfig, Unique};
use palmtree_verif::tracked::{self, Inst, TK, TV, ZV};
use palmtree_verif::world::*;
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C12;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    acts: Vec<Act>,
    /// what becomes of each tree in the end
    ends: Vec<u8>,
}

/// The live instances are those the trees and iterators should hold.
fn balance<K: Key + Inst, V: Val + Inst, C: TreeConfig<K, V> + Sizes>(w: &World<K, V, C>) -> R {
    tracked::check()?;
    let held = w.held();
    let (keys, vals) = (tracked::live_keys(), tracked::live_vals());
    if V::ON && (vals > held || (!C::SHARED && vals != held)) {
        return Err(format!("{} values alive, {} held by trees and iterators", vals, held));
    }
    if K::ON && !C::SHARED && keys < held {
        return Err(format!("{} keys alive, {} entries", keys, held));
    }
    // one key per entry, and per child at most one in each branch above it
    let most: usize = 16 * (held + w.all.len());
    if keys > most && w.eaten.is_empty() {
        return Err(format!("{} keys alive for {} entries", keys, held));
    }
    Ok(())
}

fn run<K: Key + Inst, V: Val + Inst, C: TreeConfig<K, V> + Sizes>(case: &Case, st: &mut Stats, max: usize) -> R {
    tracked::reset();
    // Room for the classes, so that recording them is no allocation of the case.
    st.classes.reserve(64);
    let b0 = galloc::blocks();
    let (mut most, mut seen_empty, mut cut, mut made) = (0, false, false, 0);
    let r = (|| -> R {
        let c = Ctx::<K, V, C>::from_recipe(&case.recipe, max, false)?;
        let mut w = World::new(c, false);
        balance(&w)?;
        for (i, a) in case.acts.iter().enumerate() {
            w.act(a).map_err(|e| format!("act {} {:?}: {}", i, a, e))?;
            balance(&w).map_err(|e| format!("after act {} {:?}: {}", i, a, e))?;
            most = most.max(w.held());
        }
        w.audit(true)?;
        made = w.made;
        let n = w.eaten.len();
        for k in 0..n {
            let e = w.eaten.remove(0);
            cut |= !e.1.is_empty();
            refuel(e.1.len());
            drop(e);
            balance(&w).map_err(|e| format!("after dropping consuming iterator {}: {}", k, e))?;
        }
        let n = w.all.len();
        for k in 0..n {
            let end = case.ends.get(k).copied().unwrap_or(0);
            refuel(2 * w.all[k].model.len());
            match end % 6 {
                0 => {}
                1 | 2 => w.all[k].apply(&Mut::Clear(end / 6))?,
                3 => w.all[k].apply(&Mut::KeepEvery(7, end, true))?,
                4 => w.all[k].apply(&Mut::PopHigh(Len::Branches(1, 0)))?,
                _ => {
                    w.all[k].apply(&Mut::Clear(end / 6))?;
                    w.all[k].apply(&Mut::Ins(Sel::Any(7), InsApi::Recursive))?;
                    w.all[k].apply(&Mut::Clear(end / 6 + 1))?;
                }
            }
            balance(&w).map_err(|e| format!("after end {} of tree {}: {}", end, k, e))?;
        }
        // Only the trees stay.
        let World { all, eaten, .. } = w;
        drop(eaten);
        let mut trees: Vec<_> = all.into_iter().map(|c| (c.model.len(), c.tree)).collect();
        while let Some((len, t)) = trees.pop() {
            if trees.is_empty() {
                trees = vec![];
                let (vals, keys) = (tracked::live_vals(), tracked::live_keys());
                let blocks = galloc::blocks() - b0;
                if len == 0 {
                    seen_empty = true;
                    if vals != 0 || keys > 4 || blocks > 3 {
                        return Err(format!(
                            "an emptied tree holds {} values, {} keys and {} heap blocks",
                            vals, keys, blocks
                        ));
                    }
                } else {
                    if V::ON && vals != len {
                        return Err(format!("the last tree of {} entries holds {} values", len, vals));
                    }
                    if (K::ON && keys < len) || keys > 16 * len || blocks > 16 * len as i64 + 4 {
                        return Err(format!("a tree of {} entries holds {} keys and {} heap blocks", len, keys, blocks));
                    }
                }
            }
            refuel(len);
            drop(t);
            tracked::check()?;
        }
        Ok(())
    })();
    r?;
    tracked::check()?;
    let (keys, vals) = (tracked::live_keys(), tracked::live_vals());
    if keys > 0 || vals > 0 {
        return Err(format!("{} keys and {} values are never dropped", keys, vals));
    }
    let left = galloc::blocks() - b0;
    if left != 0 {
        return Err(format!("{} heap blocks remain after everything was dropped", left));
    }
    st.nontrivial = most > 2 * C::L && case.acts.len() > 1;
    st.class_if(seen_empty, "emptied tree measured");
    st.class_if(cut, "consuming iterator dropped part-way");
    st.class_if(made > 0, "clones");
    st.class_if(most > C::L * C::B, "three or more levels");
    st.class(if C::SHARED { "shared" } else { "unique" });
    st.class_if(!K::ON || !V::ON, "only keys or only values registered");
    st.class_if(V::ZST && V::ON, "values of no size with a destructor");
    st.max("entries", most as u64);
    Ok(())
}

impl Prop for C12 {
    const ID: &'static str = "C12";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 12 } else { 40 };
        let lone = prop_oneof![
            6 => mutation().prop_map(|m| Act::Mutate(0, m)),
            1 => (sel(), any::<u8>()).prop_map(|(s, h)| Act::Entry(0, s, h)),
            1 => (sel(), any::<bool>()).prop_map(|(s, h)| Act::Idle(0, s, h)),
            1 => script_of(0),
        ];
        let acts = prop_oneof![1 => vec(lone, 1..=n), 1 => vec(act(), 1..=n)];
        let cfg = prop_oneof![5 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8), 2 => Just(4u8), 6 => 5u8..12];
        (cfg, recipe(5), acts, vec(any::<u8>(), 1..=6))
            .prop_map(|(cfg, recipe, acts, ends)| Case { cfg, recipe, acts, ends })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        match case.cfg {
            0 => run::<TK, TV, L4B4<Unique>>(case, st, 700),
            1 => run::<TK, TV, L5B4<Unique>>(case, st, 700),
            2 => run::<TK, TV, Tree64<Unique>>(case, st, 4000),
            3 => run::<TK, TV, L4B5<Shared>>(case, st, 500),
            4 => run::<TK, TV, L5B5<SyncShared>>(case, st, 500),
            5 => run::<u32, TV, L4B4<Unique>>(case, st, 700),
            6 => run::<TK, u32, L4B5<Unique>>(case, st, 700),
            7 => run::<TK, (), L5B5<Unique>>(case, st, 700),
            8 => run::<u32, ZV, L5B4<Unique>>(case, st, 700),
            9 => run::<u32, TV, L4B4<Shared>>(case, st, 500),
            10 => run::<TK, u32, L5B4<SyncShared>>(case, st, 500),
            _ => run::<Box<u32>, Box<u32>, L4B4<Unique>>(case, st, 700),
        }
    }
}

fn main() {
    palmtree_verif::main::<C12>()
}
