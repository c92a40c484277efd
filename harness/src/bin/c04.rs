//! C04: range queries return exactly the entries inside the bounds.

use palmtree::TreeConfig;
use palmtree_verif::bounds::Kind as BK;
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C04;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    ranges: Vec<(Bounds, Script)>,
    /// try every pair of bounds around this many consecutive keys
    sweep: Option<(Sel, u8)>,
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Run<'a> {
    fn one<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(
        c: &Ctx<K, V, C>,
        all: &[Ent],
        (lo, a, hi, b, form): (BK, u32, BK, u32, u8),
        sc: &Script,
        flags: &mut [bool; 2],
    ) -> R<bool> {
        let name = || format!("range({:?} {}, {:?} {})", lo, a, hi, b);
        refuel(all.len());
        if invalid(lo, a, hi, b) {
            let r = catch(|| with_range!(form, lo, a, hi, b, K, |r| c.tree.range(r).next().map(|(k, _)| k.n())));
            return match r {
                Ok(got) => Err(format!("{} does not panic, yields {:?}", name(), got)),
                Err(_) => Ok(false),
            };
        }
        let i = all.partition_point(|e| e.0 < a);
        let j = all.partition_point(|e| e.0 <= b);
        let x = match lo {
            BK::No => 0,
            BK::In => i,
            BK::Ex => all.partition_point(|e| e.0 <= a),
        };
        let y = match hi {
            BK::No => all.len(),
            BK::In => j,
            BK::Ex => all.partition_point(|e| e.0 < b),
        };
        let exp = &all[x..y.max(x)];
        let mut map = |(k, v): (&K, &V)| (k.n(), k.tag(), v.x());
        let it = match catch(|| with_range!(form, lo, a, hi, b, K, |r| c.tree.range(r))) {
            Ok(it) => it,
            Err(e) => return Err(format!("{} panics: {}", name(), e)),
        };
        let [met, cloned] = flags;
        run_cloning::<C, _>(it, exp, sc, &mut map, met, cloned).map_err(|e| format!("{}: {}", name(), e))?;
        Ok(exp.len() < all.len() || exp.is_empty())
    }
}
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        let (case, st) = (self.0, self.1);
        let c = Ctx::<K, V, C>::from_recipe(&case.recipe, max, false)?;
        let all = c.entries();
        let mut proper = 0;
        let mut flags = [false; 2];
        let (mut panics, mut absent, mut ghost) = (0, 0, 0);
        for (b, sc) in &case.ranges {
            let (x, y) = b.keys(&c);
            panics += invalid(b.lo, x, b.hi, y) as u64;
            absent += (!c.model.contains_key(&x) || !c.model.contains_key(&y)) as u64;
            ghost += (c.ghosts.contains(&x) || c.ghosts.contains(&y)) as u64;
            proper += Self::one(&c, &all, (b.lo, x, b.hi, y, b.form), sc, &mut flags)? as u64;
        }
        if let Some((at, width)) = &case.sweep {
            let at = c.pick(at);
            let w = *width as u32 % 14;
            let both = [Script { steps: vec![], end: End::Rev }, Script { steps: vec![], end: End::Fold }];
            for a in 0..=w {
                for b in 0..=w {
                    for lo in KINDS {
                        for hi in KINDS {
                            let (a, b) = (
                                Ctx::<K, V, C>::norm(at.saturating_add(a)),
                                Ctx::<K, V, C>::norm(at.saturating_add(b)),
                            );
                            let sc = &both[(a ^ b) as usize & 1];
                            if (lo == BK::No || hi == BK::No) && all.len() > 300 {
                                continue;
                            }
                            proper += Self::one(&c, &all, (lo, a, hi, b, 2), sc, &mut flags)? as u64;
                        }
                    }
                }
            }
            st.class("swept all bound pairs of a window");
        }
        c.audit_iter()?;
        c.audit_get(false)?;
        st.nontrivial = all.len() > C::L && proper > 0 && absent > 0;
        st.class_if(panics > 0, "invalid bounds");
        st.class_if(ghost > 0, "bound at a removed key");
        st.class_if(flags[0], "stepped from both ends");
        st.class_if(all.is_empty(), "empty tree");
        st.class_if(levels::<C>(c.peak) >= 3, "three or more levels");
        st.class_if(c.model.len() * 2 < c.peak, "thinned to less than half");
        st.add("ranges", case.ranges.len() as u64);
        st.add("invalid ranges", panics);
        Ok(())
    }
}

impl Prop for C04 {
    const ID: &'static str = "C04";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 24 } else { 80 };
        (
            mix_weights(),
            recipe(8),
            vec((bounds(), script(4)), 1..=n),
            prop_oneof![4 => Just(None), 1 => (sel(), any::<u8>()).prop_map(Some)],
        )
            .prop_map(|(cfg, recipe, ranges, sweep)| Case { cfg, recipe, ranges, sweep })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        mix(case.cfg, Run(case, st))
    }
}

fn main() {
    palmtree_verif::main::<C04>()
}
