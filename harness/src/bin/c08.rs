//! C08: checked builds reject unordered bulk-load input, and only that.

use palmtree::{PalmTree, TreeConfig};
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct C08;

/// A defect put into ascending input.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Flaw {
    Repeat(Pos),
    Swap(Pos),
    /// a later key moved to here
    Early(Pos, u16),
    /// an earlier key moved to here
    Late(Pos, u16),
    Reverse(Pos, u8),
    /// set to any key
    Any(Pos, u16),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Pos {
    At(u32),
    Start(u8),
    End(u8),
    /// around a multiple of the leaf size
    Leaf(u16, i8),
    Branch(u16, i8),
}
impl Pos {
    fn get<C: Sizes>(&self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        let around = |unit: usize, m: u16, d: i8| {
            let m = if n > unit { m as usize % (n / unit + 1) } else { 0 };
            ((m * unit) as i64 + d as i64).clamp(0, n as i64 - 1) as usize
        };
        match *self {
            Pos::At(x) => x as usize % n,
            Pos::Start(x) => (x as usize).min(n - 1),
            Pos::End(x) => n - 1 - (x as usize).min(n - 1),
            Pos::Leaf(m, d) => around(C::L, m, d),
            Pos::Branch(m, d) => around(C::L * C::B, m, d),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    size: Size,
    stride: u8,
    flaws: Vec<Flaw>,
}

struct Run<'a>(&'a Case, &'a mut Stats);
impl<'a> Body for Run<'a> {
    type Out = R;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> R {
        let (case, st) = (self.0, self.1);
        let n = case.size.get::<C>(max.min(K::DOM as usize));
        let stride = if K::DOM == u32::MAX { case.stride.max(1) as u32 } else { 1 };
        let base = if K::DOM == u32::MAX { 1000 } else { 0 };
        let mut keys: Vec<u32> = (0..n as u32).map(|i| base + i * stride).collect();
        for f in &case.flaws {
            if keys.is_empty() {
                break;
            }
            let m = keys.len();
            match f {
                Flaw::Repeat(p) => {
                    let i = p.get::<C>(m);
                    keys.insert(i, keys[i]);
                }
                Flaw::Swap(p) => {
                    let i = p.get::<C>(m);
                    if i + 1 < m {
                        keys.swap(i, i + 1)
                    }
                }
                Flaw::Early(p, d) => {
                    let i = p.get::<C>(m);
                    let j = (i + *d as usize).min(m - 1);
                    let k = keys.remove(j);
                    keys.insert(i, k);
                }
                Flaw::Late(p, d) => {
                    let i = p.get::<C>(m);
                    let j = i.saturating_sub(*d as usize);
                    let k = keys.remove(j);
                    keys.insert(i, k);
                }
                Flaw::Reverse(p, l) => {
                    let i = p.get::<C>(m);
                    let j = (i + *l as usize).min(m);
                    keys[i..j].reverse();
                }
                Flaw::Any(p, k) => {
                    let i = p.get::<C>(m);
                    keys[i] = base + *k as u32 % (m as u32 * stride);
                }
            }
        }
        let bad: Vec<usize> = (1..keys.len()).filter(|i| keys[i - 1] >= keys[*i]).collect();
        let pairs: Vec<(K, V)> = keys.iter().enumerate().map(|(i, k)| (K::mk(*k, i as u32), V::mk(i as u32))).collect();
        refuel(pairs.len());
        let r = catch(|| PalmTree::<K, V, C>::load(pairs));
        match (&r, bad.first()) {
            (Ok(t), Some(i)) => {
                return Err(format!(
                    "load accepted {} keys although key {} ({}) follows {}; the tree says it has {} entries",
                    keys.len(),
                    i,
                    keys[*i],
                    keys[*i - 1],
                    t.len()
                ));
            }
            (Err(e), None) => return Err(format!("load rejected {} strictly ascending keys: {}", keys.len(), e)),
            (Ok(t), None) => {
                same!(t.len(), keys.len(), "len");
                let got: Vec<u32> = t.iter().map(|(k, _)| k.n()).take(keys.len() + 1).collect();
                if got != keys {
                    return Err(format!("loading {} ascending keys yields other keys", keys.len()));
                }
            }
            (Err(_), Some(_)) => {}
        }
        st.nontrivial = keys.len() >= 2 && (!bad.is_empty() || keys.len() > C::L);
        st.class(if bad.is_empty() { "ascending" } else { "not ascending" });
        st.class_if(bad.len() == 1, "exactly one bad pair");
        st.class_if(bad.iter().any(|i| i % C::L == 0), "bad pair across leaves");
        st.class_if(bad.iter().any(|i| i % (C::L * C::B) == 0), "bad pair across branches");
        st.class_if(bad.iter().any(|i| keys[i - 1] == keys[*i]), "repeated key");
        st.class_if(bad.contains(&1), "bad first pair");
        st.class_if(bad.last().map_or(false, |i| i + 1 == keys.len()), "bad last pair");
        Ok(())
    }
}

impl Prop for C08 {
    const ID: &'static str = "C08";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 3 } else { 6 };
        let pos = || {
            prop_oneof![
                2 => any::<u32>().prop_map(Pos::At),
                1 => (0u8..3).prop_map(Pos::Start),
                1 => (0u8..3).prop_map(Pos::End),
                2 => (any::<u16>(), -1i8..2).prop_map(|(m, d)| Pos::Leaf(m, d)),
                1 => (any::<u16>(), -1i8..2).prop_map(|(m, d)| Pos::Branch(m, d)),
            ]
        };
        let flaw = prop_oneof![
            3 => pos().prop_map(Flaw::Repeat),
            3 => pos().prop_map(Flaw::Swap),
            1 => (pos(), 0u16..300).prop_map(|(p, d)| Flaw::Early(p, d)),
            1 => (pos(), 0u16..300).prop_map(|(p, d)| Flaw::Late(p, d)),
            1 => (pos(), 2u8..20).prop_map(|(p, d)| Flaw::Reverse(p, d)),
            1 => (pos(), any::<u16>()).prop_map(|(p, d)| Flaw::Any(p, d)),
        ];
        let flaws = prop_oneof![2 => Just(vec![]), 5 => vec(flaw.clone(), 1..=1), 2 => vec(flaw, 1..=n)];
        (mix_weights(), size(), 1u8..4, flaws)
            .prop_map(|(cfg, size, stride, flaws)| Case { cfg, size, stride, flaws })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        mix(case.cfg, Run(case, st))
    }
}

fn main() {
    palmtree_verif::main::<C08>()
}
