//! C09: merging, appending and adding build the union, the stated side winning.

use palmtree::{MergeIter, PalmTree, TreeConfig};
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C09;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Op {
    MergeLeft,
    MergeRight,
    /// as an iterator; of the entries take at most so many
    MergeLeftIter(Option<u16>),
    MergeRightIter(Option<u16>),
    AppendLeft,
    AppendRight,
    Add,
    AddAssign,
    /// borrowed operand of another configuration
    AddRef,
    AddAssignRef,
    /// the public iterator over plain vectors; whether left wins; descending
    Plain(bool, bool),
}

/// Where the right tree's keys lie.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Place {
    Same,
    /// shifted by a few keys
    Shift(i16),
    /// shifted by a share of the left tree's span, in 1/256ths
    Part(u8),
    Before,
    After,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    left: Recipe,
    right: Recipe,
    place: Place,
    /// tried on clones
    others: Vec<Op>,
    op: Op,
    follow: Vec<Mut>,
    how: u32,
}

fn union(l: &Model, r: &Model, left_wins: bool) -> Model {
    let mut m = l.clone();
    for (k, e) in r {
        if !left_wins || !m.contains_key(k) {
            m.insert(*k, *e);
        }
    }
    m
}

fn ents(m: &Model) -> Vec<Ent> {
    m.iter().map(|(n, (t, x))| (*n, *t, *x)).collect()
}

fn drain<K: Key, V: Val>(what: &str, mut it: impl Iterator<Item = (K, V)>, want: &[Ent], stop: Option<u16>) -> R {
    let n = stop.map_or(want.len(), |s| (s as usize % (want.len() + 2)).min(want.len()));
    let mut got: Vec<Ent> = vec![];
    let full = stop.is_none() || n == want.len();
    for _ in 0..n {
        let left = want.len() - got.len();
        let (a, b) = it.size_hint();
        if a > left || b.map_or(false, |b| b < left) {
            return Err(format!("{}: size_hint {:?} with {} left", what, (a, b), left));
        }
        match it.next() {
            Some((k, v)) => got.push((k.n(), k.tag(), v.x())),
            None => break,
        }
    }
    cmp_seq(what, &got, want[..n].iter())?;
    if full {
        for _ in 0..3 {
            if let Some((k, _)) = it.next() {
                return Err(format!("{}: surplus entry {:?} after all {}", what, k, want.len()));
            }
        }
    }
    Ok(())
}

type RefOp<K, V, C> = fn(&Recipe, usize, u32, PalmTree<K, V, C>, &Model, bool) -> Result<(PalmTree<K, V, C>, Model), String>;

/// Outcome of an operation: a tree to go on with, or nothing.
#[allow(clippy::type_complexity)]
fn apply<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(
    op: Op,
    l: PalmTree<K, V, C>,
    r: PalmTree<K, V, C>,
    lm: &Model,
    rm: &Model,
) -> Result<Option<(PalmTree<K, V, C>, Model)>, String> {
    refuel(lm.len() + rm.len());
    let left = union(lm, rm, true);
    let right = union(lm, rm, false);
    Ok(match op {
        Op::MergeLeft => Some((PalmTree::merge_left(l, r), left)),
        Op::MergeRight => Some((PalmTree::merge_right(l, r), right)),
        Op::MergeLeftIter(s) => {
            drain("merge_left_iter", PalmTree::merge_left_iter(l, r), &ents(&left), s)?;
            None
        }
        Op::MergeRightIter(s) => {
            drain("merge_right_iter", PalmTree::merge_right_iter(l, r), &ents(&right), s)?;
            None
        }
        Op::AppendLeft => {
            let mut l = l;
            l.append_left(r);
            Some((l, left))
        }
        Op::AppendRight => {
            let mut l = l;
            l.append_right(r);
            Some((l, right))
        }
        Op::Add | Op::AddRef => Some((l + r, right)),
        Op::AddAssign | Op::AddAssignRef => {
            let mut l = l;
            l += r;
            Some((l, right))
        }
        Op::Plain(left_wins, desc) => {
            let vl: Vec<Ent> = ents(lm);
            let vr: Vec<Ent> = ents(rm);
            let want = ents(if left_wins { &left } else { &right });
            let mk = |v: Vec<Ent>| -> Vec<(K, V)> { v.into_iter().map(|(n, t, x)| (K::mk(n, t), V::mk(x))).collect() };
            let eq = |a: &(K, V), b: &(K, V)| a.0 == b.0;
            if desc {
                let cmp = move |a: &(K, V), b: &(K, V)| if left_wins { a.0 < b.0 } else { a.0 <= b.0 };
                let mut w = want;
                w.reverse();
                let it = MergeIter::merge(mk(vl).into_iter().rev(), mk(vr).into_iter().rev(), cmp, eq);
                drain("MergeIter of descending input", it, &w, None)?;
            } else {
                let cmp = move |a: &(K, V), b: &(K, V)| if left_wins { a.0 > b.0 } else { a.0 >= b.0 };
                let it = MergeIter::merge(mk(vl).into_iter(), mk(vr).into_iter(), cmp, eq);
                drain("MergeIter of ascending input", it, &want, None)?;
            }
            None
        }
    })
}

fn run<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(
    case: &Case,
    st: &mut Stats,
    max: usize,
    by_ref: Option<RefOp<K, V, C>>,
) -> R {
    let max = max * 2 / 3;
    let l = Ctx::<K, V, C>::from_recipe(&case.left, max, false)?;
    let first = l.model.keys().next().copied().unwrap_or(1000);
    let last = l.model.keys().next_back().copied().unwrap_or(1000);
    let base = match case.place {
        Place::Same => 1000,
        Place::Shift(d) => (1000 + d as i32).max(100) as u32,
        Place::Part(p) => (first.saturating_add(((last - first) as u64 * p as u64 / 256) as u32)).max(100),
        Place::Before => 1000,
        Place::After => last + 1000,
    };
    let tick = 10_000_000;
    let mut r = Ctx::<K, V, C>::from_recipe_at(&case.right, max, false, base, tick)?;
    let mut l = l;
    if let Place::Before = case.place {
        // Exchange the roles, so that the right tree lies below.
        let r2 = Ctx::<K, V, C>::from_recipe_at(&case.left, max, false, last + 1000, 1)?;
        l = r2;
        r = Ctx::<K, V, C>::from_recipe_at(&case.right, max, false, 1000, tick)?;
    }
    let both = l.model.keys().filter(|k| r.model.contains_key(k)).count();
    st.nontrivial = l.model.len() > C::L && r.model.len() > C::L;
    st.class_if(both > 0, "keys in both");
    st.class_if(both > 0 && (both == l.model.len() || both == r.model.len()), "one within the other");
    st.class_if(l.model.is_empty() && l.peak > 0, "left emptied");
    st.class_if(r.model.is_empty() && r.peak > 0, "right emptied");
    st.class_if(l.model.is_empty() && l.peak == 0, "left never filled");
    st.class_if(r.model.is_empty() && r.peak == 0, "right never filled");
    if let (Some(a), Some(b), Some(c), Some(d)) =
        (l.model.keys().next(), l.model.keys().next_back(), r.model.keys().next(), r.model.keys().next_back())
    {
        st.class_if(b < c, "right wholly above");
        st.class_if(d < a, "right wholly below");
    }
    st.max("entries of a tree", l.model.len().max(r.model.len()) as u64);

    for op in &case.others {
        refuel(l.model.len() + r.model.len());
        let (lc, rc) = (l.tree.clone(), r.tree.clone());
        let res = if let (true, Some(f)) = (matches!(op, Op::AddRef | Op::AddAssignRef), by_ref) {
            Some(f(&case.right, max, base, lc, &l.model, *op == Op::AddAssignRef)?)
        } else {
            apply(*op, lc, rc, &l.model, &r.model)?
        };
        st.add("operations", 1);
        if let Some((t, m)) = res {
            let c = Ctx::adopt(t, m, max, 30_000_000);
            c.audit_iter()?;
            c.audit_get(false)?;
        }
        l.audit_iter()?;
        r.audit_iter()?;
    }
    st.add("operations", 1);
    st.class(match case.op {
        Op::MergeLeft => "merge_left",
        Op::MergeRight => "merge_right",
        Op::MergeLeftIter(_) => "merge_left_iter",
        Op::MergeRightIter(_) => "merge_right_iter",
        Op::AppendLeft => "append_left",
        Op::AppendRight => "append_right",
        Op::Add => "+",
        Op::AddAssign => "+=",
        Op::AddRef => "+ of a borrowed tree",
        Op::AddAssignRef => "+= of a borrowed tree",
        Op::Plain(..) => "MergeIter",
    });
    let res = if let (true, Some(f)) = (matches!(case.op, Op::AddRef | Op::AddAssignRef), by_ref) {
        Some(f(&case.right, max, base, l.tree, &l.model, case.op == Op::AddAssignRef)?)
    } else {
        apply(case.op, l.tree, r.tree, &l.model, &r.model)?
    };
    if let Some((t, m)) = res {
        let mut c = Ctx::adopt(t, m, max, 40_000_000);
        c.audit_iter()?;
        c.audit_get(true)?;
        for m in &case.follow {
            c.apply(m)?;
        }
        c.finish(case.how)?;
    }
    Ok(())
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        run::<K, V, C>(self.0, self.1, max, None)
    }
}
impl<'a> BodyCopy for Run<'a> {
    type Out = R;
    fn call<K: Key + Copy, V: Val + Copy, C: TreeConfig<K, V> + Sizes + 'static, D: TreeConfig<K, V> + Sizes + 'static>(
        self,
        max: usize,
    ) -> R {
        let f: RefOp<K, V, C> = |recipe, max, base, l, lm, assign| {
            let d = Ctx::<K, V, D>::from_recipe_at(recipe, max, false, base, 20_000_000)?;
            let want = union(lm, &d.model, false);
            refuel(want.len());
            let res = if assign {
                let mut l = l;
                l += &d.tree;
                l
            } else {
                l + &d.tree
            };
            d.audit_iter()?;
            d.audit_get(false)?;
            Ok((res, want))
        };
        run::<K, V, C>(self.0, self.1, max, Some(f))
    }
}

impl Prop for C09 {
    const ID: &'static str = "C09";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 6 } else { 20 };
        let stop = || prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)];
        let op = || {
            prop_oneof![
                3 => Just(Op::MergeLeft),
                3 => Just(Op::MergeRight),
                1 => stop().prop_map(Op::MergeLeftIter),
                1 => stop().prop_map(Op::MergeRightIter),
                2 => Just(Op::AppendLeft),
                2 => Just(Op::AppendRight),
                1 => Just(Op::Add),
                1 => Just(Op::AddAssign),
                2 => Just(Op::AddRef),
                2 => Just(Op::AddAssignRef),
                1 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Op::Plain(a, b)),
            ]
        };
        let place = prop_oneof![
            2 => Just(Place::Same),
            2 => (-20i16..20).prop_map(Place::Shift),
            1 => any::<i16>().prop_map(Place::Shift),
            3 => any::<u8>().prop_map(Place::Part),
            1 => Just(Place::Before),
            1 => Just(Place::After),
        ];
        let cfg = prop_oneof![3 => mix_weights(), 3 => mix_copy_weights().prop_map(|c| c + 100)];
        (cfg, recipe(5), recipe(5), place, vec(op(), 0..=3), op(), vec(mutation(), 0..=n), any::<u32>())
            .prop_map(|(cfg, left, right, place, others, op, follow, how)| Case {
                cfg,
                left,
                right,
                place,
                others,
                op,
                follow,
                how,
            })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        if case.cfg >= 100 {
            mix_copy(case.cfg - 100, Run(case, st))
        } else {
            mix(case.cfg, Run(case, st))
        }
    }
}

fn main() {
    palmtree_verif::main::<C09>()
}
