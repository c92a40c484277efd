//! Key and value representations, and tree configurations, the checks run over.

use palmtree::{PointerKind, Shared, SyncShared, TreeConfig, Unique};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use typenum::{consts::*, Unsigned};

/// A key is identified by a number `n` (its order) and a tag (its instance).
pub trait Key: Ord + Clone + Debug + Hash + 'static {
    /// How many distinct keys there are.
    const DOM: u32 = u32::MAX;
    fn mk(n: u32, tag: u32) -> Self;
    fn n(&self) -> u32;
    /// The instance tag, 0 if the representation cannot carry one.
    fn tag(&self) -> u32;
    fn norm_tag(tag: u32) -> u32;
}

pub trait Val: Clone + Debug + Ord + 'static {
    const ZST: bool = false;
    fn mk(x: u32) -> Self;
    fn x(&self) -> u32;
    fn norm(x: u32) -> u32 {
        x
    }
}

impl Key for u32 {
    fn mk(n: u32, _: u32) -> Self {
        n
    }
    fn n(&self) -> u32 {
        *self
    }
    fn tag(&self) -> u32 {
        0
    }
    fn norm_tag(_: u32) -> u32 {
        0
    }
}

impl Key for u8 {
    const DOM: u32 = 256;
    fn mk(n: u32, _: u32) -> Self {
        n as u8
    }
    fn n(&self) -> u32 {
        *self as u32
    }
    fn tag(&self) -> u32 {
        0
    }
    fn norm_tag(_: u32) -> u32 {
        0
    }
}

/// Equal and ordered by `n` only; the tag tells instances apart.
#[derive(Clone, Copy, Debug)]
pub struct Tag {
    pub n: u32,
    pub tag: u32,
}
impl PartialEq for Tag {
    fn eq(&self, o: &Self) -> bool {
        self.n == o.n
    }
}
impl Eq for Tag {}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    fn cmp(&self, o: &Self) -> Ordering {
        self.n.cmp(&o.n)
    }
}
impl Hash for Tag {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.n.hash(h)
    }
}
impl Key for Tag {
    fn mk(n: u32, tag: u32) -> Self {
        Tag { n, tag }
    }
    fn n(&self) -> u32 {
        self.n
    }
    fn tag(&self) -> u32 {
        self.tag
    }
    fn norm_tag(tag: u32) -> u32 {
        tag
    }
}

/// Ordered opposite to its stored number.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rev(pub u32);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl Key for Rev {
    fn mk(n: u32, _: u32) -> Self {
        Rev(u32::MAX - n)
    }
    fn n(&self) -> u32 {
        u32::MAX - self.0
    }
    fn tag(&self) -> u32 {
        0
    }
    fn norm_tag(_: u32) -> u32 {
        0
    }
}

impl Key for String {
    fn mk(n: u32, _: u32) -> Self {
        format!("{:010}", n)
    }
    fn n(&self) -> u32 {
        self.parse().unwrap_or(u32::MAX)
    }
    fn tag(&self) -> u32 {
        0
    }
    fn norm_tag(_: u32) -> u32 {
        0
    }
}

/// Strongly aligned key, with an instance tag.
#[derive(Clone, Copy, Debug)]
#[repr(align(64))]
pub struct AlKey(pub u32, pub u32);
impl PartialEq for AlKey {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for AlKey {}
impl PartialOrd for AlKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for AlKey {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for AlKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Key for AlKey {
    fn mk(n: u32, tag: u32) -> Self {
        AlKey(n, tag)
    }
    fn n(&self) -> u32 {
        self.0
    }
    fn tag(&self) -> u32 {
        assert_eq!(self as *const _ as usize % 64, 0, "misaligned key");
        self.1
    }
    fn norm_tag(tag: u32) -> u32 {
        tag
    }
}

/// The only key of its type.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Z;
impl Key for Z {
    const DOM: u32 = 1;
    fn mk(_: u32, _: u32) -> Self {
        Z
    }
    fn n(&self) -> u32 {
        0
    }
    fn tag(&self) -> u32 {
        0
    }
    fn norm_tag(_: u32) -> u32 {
        0
    }
}

impl Val for u32 {
    fn mk(x: u32) -> Self {
        x
    }
    fn x(&self) -> u32 {
        *self
    }
}
impl Val for () {
    const ZST: bool = true;
    fn mk(_: u32) -> Self {}
    fn x(&self) -> u32 {
        0
    }
    fn norm(_: u32) -> u32 {
        0
    }
}
impl Val for String {
    fn mk(x: u32) -> Self {
        format!("v{}", x)
    }
    fn x(&self) -> u32 {
        self[1..].parse().unwrap_or(u32::MAX)
    }
}
impl Val for Box<u32> {
    fn mk(x: u32) -> Self {
        Box::new(x)
    }
    fn x(&self) -> u32 {
        **self
    }
}
/// Large value with internal redundancy.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Big(pub [u64; 9]);
impl Val for Big {
    fn mk(x: u32) -> Self {
        let mut a = [0; 9];
        for (i, v) in a.iter_mut().enumerate() {
            *v = (x as u64) << 8 | i as u64;
        }
        Big(a)
    }
    fn x(&self) -> u32 {
        let x = (self.0[0] >> 8) as u32;
        assert_eq!(*self, Big::mk(x), "torn value");
        x
    }
}
/// Strongly aligned value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(64))]
pub struct Al(pub u32);
impl Val for Al {
    fn mk(x: u32) -> Self {
        Al(x)
    }
    fn x(&self) -> u32 {
        assert_eq!(self as *const _ as usize % 64, 0, "misaligned value");
        self.0
    }
}

/// Node sizes of a configuration.
pub trait Sizes: 'static {
    const L: usize;
    const B: usize;
    const SHARED: bool;
}
pub trait Kind: PointerKind + 'static {
    const SHARED: bool;
}
impl Kind for Unique {
    const SHARED: bool = false;
}
impl Kind for Shared {
    const SHARED: bool = true;
}
impl Kind for SyncShared {
    const SHARED: bool = true;
}

macro_rules! cfgs {
    ($($name:ident: $l:ty, $b:ty;)*) => {$(
        #[derive(Debug, Clone, Copy)]
        pub struct $name<P: PointerKind>(PhantomData<P>);
        impl<K, V, P: PointerKind> TreeConfig<K, V> for $name<P> {
            type BranchSize = $b;
            type LeafSize = $l;
            type PointerKind = P;
        }
        impl<P: Kind> Sizes for $name<P> {
            const L: usize = <$l as Unsigned>::USIZE;
            const B: usize = <$b as Unsigned>::USIZE;
            const SHARED: bool = P::SHARED;
        }
    )*};
}
cfgs! {
    L4B4: U4, U4;
    L5B5: U5, U5;
    L4B5: U4, U5;
    L5B4: U5, U4;
    L6B4: U6, U4;
    L7B6: U7, U6;
    L8B8: U8, U8;
    L9B7: U9, U7;
    L16B16: U16, U16;
    L33B17: U33, U17;
    L4B64: U4, U64;
    L64B4: U64, U4;
    L4B7: U4, U7;
    L7B4: U7, U4;
    L11B13: U11, U13;
    L15B15: U15, U15;
    L32B6: U32, U6;
    L127B5: U127, U5;
    L5B100: U5, U100;
    L200B200: U200, U200;
    L4B300: U4, U300;
    L300B4: U300, U4;
    L5B129: U5, U129;
    L1000B5: U1000, U5;
    L256B256: U256, U256;
    L128KB4: U131072, U4;
    L4B128K: U4, U131072;
}
impl<P: Kind> Sizes for palmtree::Tree64<P> {
    const L: usize = 64;
    const B: usize = 64;
    const SHARED: bool = P::SHARED;
}

/// A wide key, ordered byte by byte.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Wide(pub [u8; 100]);
impl Key for Wide {
    fn mk(n: u32, _: u32) -> Self {
        let mut a = [7; 100];
        a[40..44].copy_from_slice(&n.to_be_bytes());
        a[99] = a[43] ^ 0x3c;
        Wide(a)
    }
    fn n(&self) -> u32 {
        assert_eq!(self.0[99], self.0[43] ^ 0x3c, "torn key");
        u32::from_be_bytes([self.0[40], self.0[41], self.0[42], self.0[43]])
    }
    fn tag(&self) -> u32 {
        0
    }
    fn norm_tag(_: u32) -> u32 {
        0
    }
}
/// Two parts with padding between them.
impl Key for (u8, u64) {
    fn mk(n: u32, _: u32) -> Self {
        ((n >> 8) as u8, (n & 0xff) as u64 | ((n >> 16) as u64) << 40)
    }
    fn n(&self) -> u32 {
        (self.0 as u32) << 8 | (self.1 & 0xff) as u32 | ((self.1 >> 40) as u32) << 16
    }
    fn tag(&self) -> u32 {
        0
    }
    fn norm_tag(_: u32) -> u32 {
        0
    }
}
impl Key for Box<u32> {
    fn mk(n: u32, _: u32) -> Self {
        Box::new(n)
    }
    fn n(&self) -> u32 {
        **self
    }
    fn tag(&self) -> u32 {
        0
    }
    fn norm_tag(_: u32) -> u32 {
        0
    }
}
impl Val for u8 {
    fn mk(x: u32) -> Self {
        x as u8
    }
    fn x(&self) -> u32 {
        *self as u32
    }
    fn norm(x: u32) -> u32 {
        x & 0xff
    }
}
impl Val for Option<std::rc::Rc<u32>> {
    fn mk(x: u32) -> Self {
        if x % 5 == 0 {
            None
        } else {
            Some(std::rc::Rc::new(x))
        }
    }
    fn x(&self) -> u32 {
        self.as_ref().map(|x| **x).unwrap_or(0)
    }
    fn norm(x: u32) -> u32 {
        if x % 5 == 0 {
            0
        } else {
            x
        }
    }
}
impl Val for Vec<u32> {
    fn mk(x: u32) -> Self {
        vec![x; x as usize % 4 + 1]
    }
    fn x(&self) -> u32 {
        assert!(self.iter().all(|y| *y == self[0]) && self.len() == self[0] as usize % 4 + 1, "torn value");
        self[0]
    }
}
/// A value larger than a page of a small node.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Huge(pub [u32; 300]);
impl Val for Huge {
    fn mk(x: u32) -> Self {
        Huge([x; 300])
    }
    fn x(&self) -> u32 {
        assert!(self.0[1] == self.0[0] && self.0[299] == self.0[0] && self.0[150] == self.0[0], "torn value");
        self.0[0]
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(32))]
pub struct Al32(pub u8, pub u32);
impl Val for Al32 {
    fn mk(x: u32) -> Self {
        Al32(x as u8, x)
    }
    fn x(&self) -> u32 {
        assert_eq!(self as *const _ as usize % 32, 0, "misaligned value");
        assert_eq!(self.0, self.1 as u8, "torn value");
        self.1
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(4096))]
pub struct AlPage(pub u32);
impl Val for AlPage {
    fn mk(x: u32) -> Self {
        AlPage(x)
    }
    fn x(&self) -> u32 {
        assert_eq!(self as *const _ as usize % 4096, 0, "misaligned value");
        self.0
    }
}
