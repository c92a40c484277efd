//! C05: mutable iteration hands out every entry once and its writes are the map's values.

use palmtree::TreeConfig;
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

struct C05;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pass {
    range: Option<Bounds>,
    script: Script,
    /// write at once every n-th entry, later every m-th
    now: u8,
    late: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    passes: Vec<(Pass, Option<Mut>)>,
    how: u32,
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        let (case, st) = (self.0, self.1);
        let mut c = Ctx::<K, V, C>::from_recipe(&case.recipe, max, false)?;
        let mut met = false;
        let (mut held_max, mut writes, mut invalids, mut proper) = (0, 0, 0u64, 0u64);
        for (p, between) in &case.passes {
            let t = c.next_tick();
            let (kinds, keys) = match &p.range {
                None => ((bounds::Kind::No, bounds::Kind::No), (0, 0)),
                Some(b) => ((b.lo, b.hi), b.keys(&c)),
            };
            let form = p.range.as_ref().map_or(2, |b| b.form);
            let ((lo, hi), (a, b)) = (kinds, keys);
            let all = c.entries();
            let len = all.len();
            refuel(len);
            if invalid(lo, a, hi, b) {
                invalids += 1;
                if catch(|| with_range!(form, lo, a, hi, b, K, |r| { c.tree.range_mut(r).next().is_some() })).is_ok() {
                    return Err(format!("range_mut({:?} {}, {:?} {}) does not panic", lo, a, hi, b));
                }
                continue;
            }
            let exp: Vec<Ent> = all.iter().filter(|e| inside(e.0, lo, a, hi, b)).copied().collect();
            proper += (exp.len() < len) as u64;
            let mut written: std::collections::BTreeMap<u32, u32> = Default::default();
            {
                let it = match &p.range {
                    None if form % 2 == 0 => c.tree.iter_mut(),
                    None => (&mut c.tree).into_iter(),
                    Some(_) => match catch(|| with_range!(form, lo, a, hi, b, K, |r| c.tree.range_mut(r))) {
                        Ok(it) => it,
                        Err(e) => return Err(format!("range_mut({:?} {}, {:?} {}) panics: {}", lo, a, hi, b, e)),
                    },
                };
                let held: RefCell<Vec<(&K, &mut V)>> = RefCell::new(vec![]);
                let mut i = 0u32;
                let mut map = |(k, v): (&K, &mut V)| {
                    let e = (k.n(), k.tag(), v.x());
                    i += 1;
                    if p.now > 0 && i % p.now as u32 == 0 {
                        let x = t.wrapping_add(i);
                        *v = V::mk(x);
                        written.insert(k.n(), V::norm(x));
                    }
                    // SAFETY of the harness: the references live as long as the borrow of the tree.
                    let (k, v): (&K, &mut V) = unsafe { (&*(k as *const K), &mut *(v as *mut V)) };
                    held.borrow_mut().push((k, v));
                    e
                };
                run_plain::<C, _>(it, &exp, false, &p.script, &mut map, &mut met).map_err(|e| {
                    if p.range.is_some() {
                        format!("range_mut({:?} {}, {:?} {}): {}", lo, a, hi, b, e)
                    } else {
                        e
                    }
                })?;
                let mut held = held.into_inner();
                held_max = held_max.max(held.len());
                if !V::ZST {
                    let mut at: Vec<usize> = held.iter().map(|(_, v)| &**v as *const V as usize).collect();
                    at.sort_unstable();
                    if at.windows(2).any(|w| w[1] - w[0] < std::mem::size_of::<V>()) {
                        return Err("two handed-out references overlap".into());
                    }
                }
                refuel(held.len());
                for (i, (k, v)) in held.iter_mut().enumerate().rev() {
                    if p.late > 0 && i % p.late as usize == 0 {
                        let x = t.wrapping_add(100_000 + i as u32);
                        let was = written
                            .get(&k.n())
                            .copied()
                            .unwrap_or_else(|| all[all.partition_point(|e| e.0 < k.n())].2);
                        same!(v.x(), was, "kept reference to the value of {}", k.n());
                        **v = V::mk(x);
                        written.insert(k.n(), V::norm(x));
                    }
                }
            }
            writes += written.len();
            for (n, x) in written {
                c.model.get_mut(&n).unwrap().1 = x;
            }
            same!(c.tree.len(), len, "len after mutable iteration");
            c.audit_iter()?;
            c.audit_get(false)?;
            if let Some(m) = between {
                c.apply(m)?;
            }
        }
        st.nontrivial = c.peak > C::L && writes > 1 && (met || held_max > C::L);
        st.class_if(met, "stepped from both ends");
        st.class_if(held_max > C::L, "kept references of several leaves");
        st.class_if(invalids > 0, "invalid bounds");
        st.class_if(proper > 0, "proper sub-range");
        st.class_if(levels::<C>(c.peak) >= 3, "three or more levels");
        st.add("values written", writes as u64);
        c.finish(case.how)
    }
}

impl Prop for C05 {
    const ID: &'static str = "C05";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 6 } else { 20 };
        let pass = (
            prop_oneof![1 => Just(None), 3 => bounds().prop_map(Some)],
            script(6),
            0u8..4,
            0u8..4,
        )
            .prop_map(|(range, script, now, late)| Pass { range, script, now, late });
        let between = prop_oneof![2 => Just(None), 1 => mutation().prop_map(Some)];
        (mix_weights(), recipe(6), vec((pass, between), 1..=n), any::<u32>())
            .prop_map(|(cfg, recipe, passes, how)| Case { cfg, recipe, passes, how })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        mix(case.cfg, Run(case, st))
    }
}

fn main() {
    palmtree_verif::main::<C05>()
}
