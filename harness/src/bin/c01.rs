//! C01: point operations behave as an ordered map under every history.

use palmtree::TreeConfig;
use palmtree_verif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C01;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    how: u32,
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        let (case, st) = (self.0, self.1);
        let mut c = Ctx::<K, V, C>::new(max, true);
        c.build(&case.recipe.build)?;
        c.audit_get(false)?;
        let mut emptied = false;
        let mut thinned = false;
        for m in &case.recipe.muts {
            let before = (c.model.len(), c.ghosts.len());
            c.apply(m)?;
            c.audit_get(false)?;
            st.class_if(emptied && c.model.len() > 0, "regrown after being emptied");
            st.class_if(thinned && c.model.len() > before.0, "regrown after thinning");
            emptied |= c.model.is_empty() && before.0 > 0;
            thinned |= before.0 > c.model.len() + C::L;
            st.class_if(
                matches!(m, Mut::Ins(_, InsApi::Recursive) | Mut::InsRun(.., InsApi::Recursive)),
                "recursive insertion",
            );
        }
        let lv = levels::<C>(c.peak);
        st.nontrivial = lv >= 3 && case.recipe.muts.len() >= 2 && !c.ghosts.is_empty();
        st.class_if(lv >= 3, "three or more levels");
        st.class_if(lv >= 5, "five or more levels");
        st.class_if(thinned, "thinned");
        st.add("point operations", c.work as u64);
        st.max("entries", c.peak as u64);
        st.max("levels", lv as u64);
        for n in c.probes(3) {
            if c.model.contains_key(&n) {
                continue;
            }
            let k = K::mk(n, 0);
            refuel(c.model.len());
            if catch(|| c.tree[&k].x()).is_ok() {
                return Err(format!("indexing with absent key {} does not panic", n));
            }
            if catch(|| c.tree[&k] = V::mk(1)).is_ok() {
                return Err(format!("mutable indexing with absent key {} does not panic", n));
            }
            break;
        }
        c.finish(case.how)
    }
}

impl Prop for C01 {
    const ID: &'static str = "C01";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 14 } else { 40 };
        (mix_weights(), recipe(n), any::<u32>()).prop_map(|(cfg, recipe, how)| Case { cfg, recipe, how }).boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        mix(case.cfg, Run(case, st))
    }
}

fn main() {
    palmtree_verif::main::<C01>()
}
