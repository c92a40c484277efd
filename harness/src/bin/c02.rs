//! C02: the entry view agrees with the map at every key.

use palmtree::{Entry, TreeConfig};
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C02;

/// What to do if the entry is occupied, and what if it is vacant.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// obtain and drop
    Ignore,
    /// read everything readable
    Look,
    /// occupied: write through get_mut, several times; vacant: insert, then write through the reference
    Write(u8),
    /// occupied: replace; vacant: insert
    Put,
    /// occupied: into_mut and write; vacant: take the key back
    Into,
    Remove,
    RemoveEntry,
    /// replace, read, update, then remove
    Churn,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    acts: Vec<(Sel, Act)>,
    how: u32,
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        let (case, st) = (self.0, self.1);
        let mut c = Ctx::<K, V, C>::from_recipe(&case.recipe, max, false)?;
        let (mut occ, mut vac, mut writes) = (0, 0, 0);
        for (sel, act) in &case.acts {
            let n = c.pick(sel);
            let t = c.next_tick();
            refuel(c.model.len());
            let want = c.model.get(&n).copied();
            let (mut val, mut x) = (V::mk(t), V::norm(t));
            let len = c.model.len();
            let mut removed = false;
            match c.tree.entry(K::mk(n, t)) {
                Entry::Occupied(mut e) => {
                    occ += 1;
                    let Some((tag, old)) = want else {
                        return Err(format!("entry of absent key {} is occupied", n));
                    };
                    same!((e.key().n(), e.key().tag()), (n, tag), "key of the occupied entry {}", n);
                    match act {
                        Act::Ignore => {}
                        Act::Look => {
                            same!(e.get().x(), old, "get of entry {}", n);
                            same!(e.get_mut().x(), old, "get_mut of entry {}", n);
                            same!(e.key().n(), n, "key of entry {}", n);
                        }
                        Act::Write(k) => {
                            writes += 1;
                            for i in 0..(*k % 3) as u32 + 1 {
                                let before = V::norm(t.wrapping_add(i));
                                *e.get_mut() = V::mk(t.wrapping_add(i));
                                same!(e.get().x(), before, "get after a write through get_mut at {}", n);
                                x = before;
                            }
                            c.model.insert(n, (tag, x));
                        }
                        Act::Put => {
                            same!(e.insert(val).x(), old, "value replaced through entry {}", n);
                            same!(e.get().x(), x, "get after insert at entry {}", n);
                            same!((e.key().n(), e.key().tag()), (n, tag), "key after insert at entry {}", n);
                            c.model.insert(n, (tag, x));
                        }
                        Act::Into => {
                            writes += 1;
                            let r = e.into_mut();
                            same!(r.x(), old, "into_mut of entry {}", n);
                            *r = val;
                            c.model.insert(n, (tag, x));
                        }
                        Act::Remove => {
                            removed = true;
                            same!(e.remove().x(), old, "value removed through entry {}", n);
                            c.model.remove(&n);
                        }
                        Act::RemoveEntry => {
                            removed = true;
                            let (k, v) = e.remove_entry();
                            same!((k.n(), k.tag(), v.x()), (n, tag, old), "pair removed through entry {}", n);
                            c.model.remove(&n);
                        }
                        Act::Churn => {
                            removed = true;
                            same!(e.insert(val).x(), old, "value replaced through entry {}", n);
                            *e.get_mut() = V::mk(t.wrapping_add(1));
                            same!(e.insert(V::mk(t)).x(), V::norm(t.wrapping_add(1)), "value replaced again");
                            let (k, v) = e.remove_entry();
                            same!((k.n(), k.tag(), v.x()), (n, tag, x), "pair removed through entry {}", n);
                            c.model.remove(&n);
                        }
                    }
                }
                Entry::Vacant(e) => {
                    vac += 1;
                    if want.is_some() {
                        return Err(format!("entry of present key {} is vacant", n));
                    }
                    same!((e.key().n(), e.key().tag()), (n, K::norm_tag(t)), "key of the vacant entry {}", n);
                    match act {
                        Act::Ignore | Act::Look | Act::Remove => {}
                        Act::Into | Act::RemoveEntry => {
                            let k = e.into_key();
                            same!((k.n(), k.tag()), (n, K::norm_tag(t)), "into_key of the vacant entry {}", n);
                        }
                        Act::Put | Act::Write(_) | Act::Churn if len < c.max => {
                            let r = e.insert(val);
                            same!(r.x(), x, "reference returned by the vacant insert at {}", n);
                            if let Act::Write(_) = act {
                                writes += 1;
                                val = V::mk(t.wrapping_add(5));
                                x = V::norm(t.wrapping_add(5));
                                *r = val;
                                same!(r.x(), x, "write through the reference of the vacant insert at {}", n);
                            }
                            c.model.insert(n, (K::norm_tag(t), x));
                            c.lo = c.lo.min(n);
                            c.hi = c.hi.max(n.saturating_add(1));
                        }
                        _ => {}
                    }
                }
            }
            if removed {
                c.ghosts.push(n);
            }
            c.peak = c.peak.max(c.model.len());
            same!(c.tree.len(), c.model.len(), "len after {:?} at {}", act, n);
            same!(c.tree.get(&K::mk(n, 0)).map(|v| v.x()), c.model.get(&n).map(|e| e.1), "get({}) after {:?}", n, act);
            c.audit_get(false)?;
            if c.model.len() < 200 {
                c.audit_iter()?;
            }
        }
        let lv = levels::<C>(c.peak);
        st.nontrivial = lv >= 2 && occ >= 2 && vac >= 2;
        st.class_if(lv >= 3, "three or more levels");
        st.class_if(writes > 0, "wrote through a reference");
        st.class_if(c.model.is_empty() && c.peak > 0, "emptied");
        st.add("occupied entries", occ);
        st.add("vacant entries", vac);
        c.finish(case.how)
    }
}

impl Prop for C02 {
    const ID: &'static str = "C02";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 40 } else { 120 };
        let act = prop_oneof![
            1 => Just(Act::Ignore),
            2 => Just(Act::Look),
            3 => any::<u8>().prop_map(Act::Write),
            4 => Just(Act::Put),
            2 => Just(Act::Into),
            3 => Just(Act::Remove),
            3 => Just(Act::RemoveEntry),
            1 => Just(Act::Churn),
        ];
        (mix_weights(), recipe(6), vec((sel(), act), 1..=n), any::<u32>())
            .prop_map(|(cfg, recipe, acts, how)| Case { cfg, recipe, acts, how })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        mix(case.cfg, Run(case, st))
    }
}

fn main() {
    palmtree_verif::main::<C02>()
}
