//! Generated range bounds.

use crate::hist::{sel, Ctx, Sel};
use crate::types::*;
use palmtree::TreeConfig;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ops::Bound;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    In,
    Ex,
    No,
}
pub const KINDS: [Kind; 3] = [Kind::In, Kind::Ex, Kind::No];

/// Where the second bound lies relative to the first.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Far {
    Free(Sel),
    Off(i8),
    /// so many present keys further up
    Span(u16),
    Same,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Bounds {
    pub lo: Kind,
    pub hi: Kind,
    pub at: Sel,
    pub far: Far,
    /// order the two keys first, so that the range is mostly valid
    pub ordered: bool,
    pub form: u8,
}

pub fn bounds() -> BoxedStrategy<Bounds> {
    let kind = || prop_oneof![3 => Just(Kind::In), 3 => Just(Kind::Ex), 1 => Just(Kind::No)];
    let far = prop_oneof![
        4 => sel().prop_map(Far::Free),
        3 => (-3i8..6).prop_map(Far::Off),
        3 => (0u16..40).prop_map(Far::Span),
        1 => any::<u16>().prop_map(Far::Span),
        1 => Just(Far::Same),
    ];
    (kind(), kind(), sel(), far, prop_oneof![1 => Just(false), 5 => Just(true)], any::<u8>())
        .prop_map(|(lo, hi, at, far, ordered, form)| Bounds { lo, hi, at, far, ordered, form })
        .boxed()
}

impl Bounds {
    /// The two key numbers in the current state.
    pub fn keys<K: Key, V: Val, C: TreeConfig<K, V> + Sizes>(&self, c: &Ctx<K, V, C>) -> (u32, u32) {
        let a = c.pick(&self.at);
        let b = match &self.far {
            Far::Free(s) => c.pick(s),
            Far::Off(d) => Ctx::<K, V, C>::norm((a as i64 + *d as i64).max(0) as u32),
            Far::Span(n) => {
                let n = *n as usize % (c.model.len() + 1);
                c.model.range(a..).nth(n).or(c.model.iter().next_back()).map(|(k, _)| *k).unwrap_or(a)
            }
            Far::Same => a,
        };
        if self.ordered && b < a {
            (b, a)
        } else {
            (a, b)
        }
    }
}

pub fn bound<K: Key>(k: Kind, n: u32) -> Bound<K> {
    match k {
        Kind::In => Bound::Included(K::mk(n, 0)),
        Kind::Ex => Bound::Excluded(K::mk(n, 0)),
        Kind::No => Bound::Unbounded,
    }
}

/// Whether asking for this range must panic.
pub fn invalid(lo: Kind, a: u32, hi: Kind, b: u32) -> bool {
    lo != Kind::No && hi != Kind::No && (a > b || (a == b && lo == Kind::Ex && hi == Kind::Ex))
}
pub fn inside(n: u32, lo: Kind, a: u32, hi: Kind, b: u32) -> bool {
    (match lo {
        Kind::In => n >= a,
        Kind::Ex => n > a,
        Kind::No => true,
    }) && (match hi {
        Kind::In => n <= b,
        Kind::Ex => n < b,
        Kind::No => true,
    })
}

/// Call with one of the range types that can express the bounds.
#[macro_export]
macro_rules! with_range {
    ($form:expr, $lo:expr, $a:expr, $hi:expr, $b:expr, $K:ty, |$r:ident| $e:expr) => {{
        use $crate::bounds::Kind::*;
        let (a, b) = (<$K>::mk($a, 0), <$K>::mk($b, 0));
        match ($form % 3, $lo, $hi) {
            (0, In, Ex) => { let $r = a..b; $e }
            (0, In, In) => { let $r = a..=b; $e }
            (0, In, No) => { let $r = a..; $e }
            (0, No, Ex) => { let $r = ..b; $e }
            (0, No, In) => { let $r = ..=b; $e }
            (0, No, No) => { let $r = ..; $e }
            (1, _, _) => {
                let (x, y) = ($crate::bounds::bound::<$K>($lo, $a), $crate::bounds::bound::<$K>($hi, $b));
                let $r = (x.as_ref(), y.as_ref());
                $e
            }
            _ => {
                let $r = ($crate::bounds::bound::<$K>($lo, $a), $crate::bounds::bound::<$K>($hi, $b));
                $e
            }
        }
    }};
}
