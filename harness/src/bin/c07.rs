//! C07: bulk construction equals inserting one by one.

use palmtree::{PalmTree, TreeConfig};
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

struct C07;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Way {
    Load,
    LoadLazy,
    FromMap,
    Collect,
    Extend,
    ExtendRef,
    ExtendTree,
}

/// Order in which the pairs of a bulk insertion come.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Order {
    Asc,
    Desc,
    Shuffled(u32),
    /// ascending, with a few keys repeated right away or later on
    Repeats(u32),
    FewKeys(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    way: Way,
    size: Size,
    stride: u8,
    order: Order,
    /// what extension starts from
    start: Recipe,
    shift: u16,
    follow: Vec<Mut>,
    how: u32,
}

/// An iterator that promises little about its length.
struct Shy<I>(I, u8);
impl<I: Iterator> Iterator for Shy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (a, b) = self.0.size_hint();
        match self.1 % 3 {
            0 => (0, None),
            1 => (a / 2, None),
            _ => (0, b.map(|b| b * 2 + 100)),
        }
    }
}

type Ext<K, V, C> = fn(&mut PalmTree<K, V, C>, &[(K, V)], bool) -> bool;

fn run<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(
    case: &Case,
    st: &mut Stats,
    max: usize,
    ext_ref: Option<Ext<K, V, C>>,
) -> R {
    let bulk = matches!(case.way, Way::Load | Way::LoadLazy | Way::FromMap | Way::Collect);
    let mut c = if bulk {
        Ctx::<K, V, C>::new(max, true)
    } else {
        let mut c = Ctx::<K, V, C>::from_recipe(&case.start, max, false)?;
        c.strict = true;
        c
    };
    let n = case.size.get::<C>(max.min(K::DOM as usize));
    let base = if K::DOM == u32::MAX { 1000 + case.shift as u32 } else { 0 };
    let stride = if K::DOM == u32::MAX { case.stride.max(1) as u32 } else { 1 };
    let mut keys: Vec<u32> = (0..n as u32).map(|i| base + i * stride).collect();
    let sorted = matches!(case.way, Way::Load | Way::LoadLazy | Way::FromMap);
    let mut repeats = false;
    if !sorted {
        match case.order {
            Order::Asc => {}
            Order::Desc => keys.reverse(),
            Order::Shuffled(s) => keys = shuffled(n, s).into_iter().map(|i| keys[i]).collect(),
            Order::Repeats(s) => {
                let sh = shuffled(n, s);
                for i in sh.iter().take(n / 7 + 1) {
                    let at = (*i * 31 + s as usize) % (keys.len() + 1);
                    if *i < keys.len() {
                        let k = keys[*i];
                        keys.insert(if s % 2 == 0 { *i } else { at }, k);
                        repeats = true;
                    }
                }
            }
            Order::FewKeys(s) => {
                let m = (s as usize % 40) + 1;
                keys = shuffled(n, s).into_iter().map(|i| base + (i % m) as u32 * stride).collect();
                repeats = n > m;
            }
        }
        if !bulk && c.model.len() + n > max + 600 {
            keys.truncate((max + 600).saturating_sub(c.model.len()));
        }
    }
    let pairs = c.pairs(&keys);
    let nums: Vec<(u32, u32, u32)> = pairs.iter().map(|(k, v)| (k.n(), k.tag(), v.x())).collect();
    // One by one: a present key keeps its instance, the last value stays.
    let before = c.model.len();
    for (n, t, x) in &nums {
        let e = c.model.entry(*n).or_insert((*t, *x));
        e.1 = *x;
    }
    refuel(pairs.len() + c.model.len());
    match case.way {
        Way::Load => c.tree = PalmTree::load(pairs),
        Way::LoadLazy => c.tree = PalmTree::load(Shy(pairs.into_iter(), case.shift as u8)),
        Way::FromMap => c.tree = PalmTree::from(pairs.into_iter().collect::<BTreeMap<K, V>>()),
        Way::Collect => c.tree = Shy(pairs.into_iter(), case.shift as u8).collect(),
        Way::Extend => c.tree.extend(Shy(pairs.into_iter(), case.shift as u8)),
        Way::ExtendRef | Way::ExtendTree => {
            if let Some(f) = ext_ref {
                if f(&mut c.tree, &pairs, case.way == Way::ExtendTree) {
                    // The pairs went through a tree of their own, which keeps the first instance and the last value.
                    st.class("extended from another tree");
                }
            } else {
                c.tree.extend(pairs)
            }
        }
    }
    if let Some((a, _)) = c.model.iter().next() {
        c.lo = a.saturating_sub(8);
        c.hi = c.model.iter().next_back().unwrap().0 + 8;
    }
    c.max = max.max(c.model.len());
    c.peak = c.peak.max(c.model.len());
    let size = c.model.len();
    same!(c.tree.len(), size, "len after {:?} of {} pairs", case.way, nums.len());
    c.audit_iter()?;
    c.audit_get(true)?;
    for m in &case.follow {
        c.apply(m)?;
        c.audit_get(false)?;
    }
    let lv = levels::<C>(size);
    st.nontrivial = lv >= 2 && (!case.follow.is_empty() || size > C::L * C::B);
    st.class(match case.way {
        Way::Load | Way::LoadLazy => "load",
        Way::FromMap => "from a standard map",
        Way::Collect => "collect",
        Way::Extend => "extend by owned pairs",
        Way::ExtendRef | Way::ExtendTree => "extend by borrowed pairs",
    });
    st.class_if(repeats, "repeated keys");
    st.class_if(!bulk && before > 0, "extended a non-empty tree");
    st.class_if(sorted && size > 0 && size % C::L == 0, "last leaf exactly full");
    st.class_if(sorted && size > 0 && size % (C::L * C::B) == 0, "last branch exactly full");
    st.class_if(sorted && size > 0 && size % (C::L * C::B * C::B) == 0, "last second-level branch exactly full");
    st.class_if(lv >= 3, "three or more levels");
    st.class_if(lv >= 4, "four or more levels");
    st.max("entries", size as u64);
    c.finish(case.how)
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        run::<K, V, C>(self.0, self.1, max, None)
    }
}
impl<'a> BodyCopy for Run<'a> {
    type Out = R;
    fn call<K: Key + Copy, V: Val + Copy, C: TreeConfig<K, V> + Sizes + 'static, D: TreeConfig<K, V> + Sizes + 'static>(
        self,
        max: usize,
    ) -> R {
        let f: Ext<K, V, C> = |t, ps, through| {
            // Only pairs without repeats can go through a tree without changing the result.
            let distinct = ps.windows(2).all(|w| w[0].0 < w[1].0);
            if through && distinct {
                let d: PalmTree<K, V, D> = PalmTree::load(ps.iter().copied());
                t.extend(&d);
                true
            } else {
                t.extend(ps.iter().map(|(k, v)| (k, v)));
                false
            }
        };
        run::<K, V, C>(self.0, self.1, max, Some(f))
    }
}

impl Prop for C07 {
    const ID: &'static str = "C07";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 8 } else { 24 };
        let way = prop_oneof![
            4 => Just(Way::Load),
            1 => Just(Way::LoadLazy),
            1 => Just(Way::FromMap),
            2 => Just(Way::Collect),
            2 => Just(Way::Extend),
            2 => Just(Way::ExtendRef),
            1 => Just(Way::ExtendTree),
        ];
        let order = prop_oneof![
            1 => Just(Order::Asc),
            1 => Just(Order::Desc),
            2 => any::<u32>().prop_map(Order::Shuffled),
            3 => any::<u32>().prop_map(Order::Repeats),
            1 => any::<u32>().prop_map(Order::FewKeys),
        ];
        let cfg = prop_oneof![3 => mix_weights(), 2 => mix_copy_weights().prop_map(|c| c + 100)];
        let shift = prop_oneof![1 => Just(0u16), 2 => 0u16..600, 1 => any::<u16>()];
        (cfg, way, size(), 1u8..5, order, recipe(4), shift, vec(mutation(), 0..=n), any::<u32>())
            .prop_map(|(cfg, way, size, stride, order, start, shift, follow, how)| Case {
                cfg,
                way,
                size,
                stride,
                order,
                start,
                shift,
                follow,
                how,
            })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        if case.cfg >= 100 {
            mix_copy(case.cfg - 100, Run(case, st))
        } else {
            mix(case.cfg, Run(case, st))
        }
    }
}

fn main() {
    palmtree_verif::main::<C07>()
}
