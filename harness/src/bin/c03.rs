//! C03: shared iteration visits every entry once, in order, from both ends.

use palmtree::TreeConfig;
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    scripts: Vec<Script>,
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        let (case, st) = (self.0, self.1);
        let c = Ctx::<K, V, C>::from_recipe(&case.recipe, max, false)?;
        let exp = c.entries();
        let (mut met, mut cloned) = (false, false);
        let mut map = |(k, v): (&K, &V)| (k.n(), k.tag(), v.x());
        for (i, sc) in case.scripts.iter().enumerate() {
            refuel(exp.len());
            let it = match i % 3 {
                0 => c.tree.iter(),
                1 => (&c.tree).into_iter(),
                _ => c.tree.range(..),
            };
            run_cloning::<C, _>(it, &exp, sc, &mut map, &mut met, &mut cloned)?;
        }
        c.audit_iter()?;
        c.audit_get(false)?;
        let lv = levels::<C>(c.peak);
        st.nontrivial = exp.len() > C::L && (met || cloned);
        st.class_if(met, "stepped from both ends");
        st.class_if(cloned, "cloned part-way");
        st.class_if(lv >= 3, "three or more levels");
        st.class_if(c.model.len() * 2 < c.peak, "thinned to less than half");
        st.class_if(exp.is_empty(), "empty");
        st.max("entries", exp.len() as u64);
        Ok(())
    }
}

impl Prop for C03 {
    const ID: &'static str = "C03";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 6 } else { 20 };
        (mix_weights(), recipe(8), vec(script(8), 1..=n))
            .prop_map(|(cfg, recipe, scripts)| Case { cfg, recipe, scripts })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        mix(case.cfg, Run(case, st))
    }
}

fn main() {
    palmtree_verif::main::<C03>()
}
