//! C11: clones are independent snapshots, for every pointer kind; cloning shared trees copies nothing.

use palmtree::{Shared, SyncShared, Tree64, TreeConfig, Unique};
use palmtree_verif::counted::*;
use palmtree_verif::world::*;
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C11;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    acts: Vec<Act>,
    how: u32,
}

fn run<K: Key, V: Val, C: TreeConfig<K, V> + Sizes>(case: &Case, st: &mut Stats, max: usize, counted: bool) -> R {
    let c = Ctx::<K, V, C>::from_recipe(&case.recipe, max, false)?;
    let size = c.model.len();
    let mut w = World::new(c, counted);
    for (i, a) in case.acts.iter().enumerate() {
        w.act(a).map_err(|e| format!("act {} {:?}: {}", i, a, e))?;
        w.audit(false).map_err(|e| format!("after act {} {:?}: {}", i, a, e))?;
    }
    w.audit(true)?;
    for it in &mut w.eaten {
        World::<K, V, C>::eat(it, usize::MAX, 0)?;
    }
    w.audit(true)?;
    st.nontrivial = w.made >= 1 && w.touched_shared && size > C::L;
    st.class_if(w.made >= 3, "three or more clones");
    st.class_if(size > C::L * C::B, "three or more levels");
    st.class(if C::SHARED { "shared root" } else { "unique root" });
    st.add("clones", w.made as u64);
    let World { mut all, mut eaten, .. } = w;
    // Take them apart one after the other, the others still intact.
    while let Some(c) = all.pop() {
        c.finish(case.how)?;
        for o in &all {
            o.audit_iter()?;
        }
        eaten.pop();
    }
    Ok(())
}

impl Prop for C11 {
    const ID: &'static str = "C11";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 14 } else { 50 };
        let act = act();
        let cfg = prop_oneof![3 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8), 2 => Just(5u8), 1 => Just(6u8)];
        // The second act is a fork, so that most histories have something shared early on.
        (cfg, recipe(4), any::<u8>(), vec(act, 1..=n), any::<u32>())
            .prop_map(|(cfg, recipe, f, mut acts, how)| {
                acts.insert(0, Act::Fork(f));
                Case { cfg, recipe, acts, how }
            })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        match case.cfg {
            0 => run::<CK, CV, L4B4<Shared>>(case, st, 500, true),
            1 => run::<CK, CV, L5B4<SyncShared>>(case, st, 500, true),
            2 => run::<CK, CV, L4B4<Unique>>(case, st, 400, true),
            3 => run::<CK, CV, Tree64<Shared>>(case, st, 5000, true),
            4 => run::<Tag, u32, Tree64<SyncShared>>(case, st, 5000, false),
            5 => run::<Tag, u32, L4B5<Shared>>(case, st, 700, false),
            _ => run::<u8, String, L4B4<SyncShared>>(case, st, 256, false),
        }
    }
}

fn main() {
    palmtree_verif::main::<C11>()
}
