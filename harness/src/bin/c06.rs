//! C06: consuming iteration yields every entry once and counts exactly.

use palmtree::TreeConfig;
use palmtree_verif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C06;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    script: Script,
    /// consume a clone, the original stays
    of_clone: bool,
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        let (case, st) = (self.0, self.1);
        let c = Ctx::<K, V, C>::from_recipe(&case.recipe, max, false)?;
        let exp = c.entries();
        let lv = levels::<C>(c.peak);
        let thinned = c.model.len() * 2 < c.peak;
        refuel(exp.len());
        let mut met = false;
        let (tree, rest) = if case.of_clone {
            (c.tree.clone(), Some(c))
        } else {
            (c.tree, None)
        };
        let it = tree.into_iter();
        same!(it.len(), exp.len(), "len of a fresh consuming iterator");
        let mut map = |(k, v): (K, V)| (k.n(), k.tag(), v.x());
        run_plain::<C, _>(it, &exp, true, &case.script, &mut map, &mut met)?;
        if let Some(c) = rest {
            c.audit_iter()?;
        }
        st.nontrivial = exp.len() > C::L && met;
        st.class_if(met, "stepped from both ends");
        st.class_if(matches!(case.script.end, End::Abandon), "abandoned part-way");
        st.class_if(lv >= 3, "three or more levels");
        st.class_if(thinned, "thinned to less than half");
        st.class_if(exp.is_empty(), "empty");
        Ok(())
    }
}

impl Prop for C06 {
    const ID: &'static str = "C06";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 10 } else { 30 };
        (mix_weights(), recipe(8), script(n), any::<bool>())
            .prop_map(|(cfg, recipe, script, of_clone)| Case { cfg, recipe, script, of_clone })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        // Room for the classes, so that recording them is no allocation of the case.
        st.classes.reserve(64);
        let before = galloc::blocks();
        mix(case.cfg, Run(case, st))?;
        match galloc::blocks() - before {
            0 => Ok(()),
            n => Err(format!("{} heap blocks remain after the iterator and everything else was dropped", n)),
        }
    }
}

fn main() {
    palmtree_verif::main::<C06>()
}
