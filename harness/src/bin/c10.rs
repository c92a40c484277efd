//! C10: equality, ordering, hash and debug output depend only on the entries.

use palmtree::{PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::{hash_map::DefaultHasher, BTreeMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

struct C10;

/// A partially ordered value: NaN every so often, zeros of both signs.
#[derive(Clone, Copy, Debug)]
struct Part(f64, u32);
impl PartialEq for Part {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
// Every value of a harness is ordered, but this one's total order is nobody's business.
impl Eq for Part {}
impl Ord for Part {
    fn cmp(&self, _: &Self) -> Ordering {
        unreachable!("partially ordered values compared as totally ordered")
    }
}
impl Val for Part {
    fn mk(x: u32) -> Self {
        let f = match x % 64 {
            0 => f64::NAN,
            1 => 0.0,
            2 => -0.0,
            3 => f64::INFINITY,
            _ => (x % 5) as f64,
        };
        Part(f, x)
    }
    fn x(&self) -> u32 {
        self.1
    }
}

/// Records exactly what is fed to it.
#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b)
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Perturb {
    Value(u32, u32),
    Drop(u32),
    DropLast(u8),
    DropFirst(u8),
    Add(u32, u32),
    AddLast(u32),
    ShiftKey(u32, i8),
    Clear,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Way {
    Load,
    Insert(u32),
    Recursive(u32),
    Desc,
    /// with other keys in between and around, removed again
    Thinned(u8, u32),
    /// by changing a clone of the first tree
    Edited,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    a: Recipe,
    perturb: Vec<Perturb>,
    way: Way,
    /// how far an iterator is advanced before it is printed
    look: (u32, u32),
}

fn nth(m: &Model, r: u32) -> Option<u32> {
    if m.is_empty() {
        None
    } else {
        m.keys().nth(r as usize % m.len()).copied()
    }
}

fn perturb<K: Key, V: Val>(m: &mut Model, p: &Perturb) {
    let dom = |n: u32| if K::DOM == u32::MAX { n } else { n % K::DOM };
    match p {
        Perturb::Value(r, x) => {
            if let Some(k) = nth(m, *r) {
                m.get_mut(&k).unwrap().1 = V::norm(*x)
            }
        }
        Perturb::Drop(r) => {
            if let Some(k) = nth(m, *r) {
                m.remove(&k);
            }
        }
        Perturb::DropLast(n) => (0..*n).for_each(|_| drop(m.pop_last())),
        Perturb::DropFirst(n) => (0..*n).for_each(|_| drop(m.pop_first())),
        Perturb::Add(r, x) => {
            let k = nth(m, *r).unwrap_or(1000);
            m.entry(dom(k + 1)).or_insert((K::norm_tag(7), V::norm(*x)));
        }
        Perturb::AddLast(x) => {
            let k = m.keys().next_back().copied().unwrap_or(1000);
            m.entry(dom(k + 1)).or_insert((K::norm_tag(8), V::norm(*x)));
        }
        Perturb::ShiftKey(r, d) => {
            if let Some(k) = nth(m, *r) {
                let to = dom((k as i64 + *d as i64).max(0) as u32);
                if !m.contains_key(&to) {
                    let e = m.remove(&k).unwrap();
                    m.insert(to, e);
                }
            }
        }
        Perturb::Clear => m.clear(),
    }
}

fn build<K: Key, V: Val, C: TreeConfig<K, V>>(
    m: &Model,
    way: &Way,
    a: &PalmTree<K, V, C>,
    am: &Model,
    max: usize,
) -> PalmTree<K, V, C> {
    let mk = |(n, (t, x)): (&u32, &(u32, u32))| (K::mk(*n, *t), V::mk(*x));
    let mut ps: Vec<(K, V)> = m.iter().map(mk).collect();
    refuel(4 * m.len() + am.len() + max);
    match way {
        Way::Load => PalmTree::load(ps),
        Way::Insert(s) | Way::Recursive(s) => {
            let mut t = PalmTree::new();
            for i in shuffled(ps.len(), *s) {
                let (k, v) = ps[i].clone();
                if let Way::Insert(_) = way {
                    t.insert(k, v);
                } else {
                    t.insert_recursive(k, v);
                }
            }
            t
        }
        Way::Desc => {
            ps.reverse();
            ps.into_iter().collect()
        }
        Way::Thinned(every, s) => {
            let mut all: BTreeMap<u32, (u32, u32)> = m.clone();
            let mut extra = vec![];
            let lo = m.keys().next().copied().unwrap_or(1000);
            let hi = m.keys().next_back().copied().unwrap_or(1000);
            let top = if K::DOM == u32::MAX { hi + 300 } else { K::DOM };
            let low = if K::DOM == u32::MAX { lo.saturating_sub(300) } else { 0 };
            let every = (*every as usize % 4) + 1;
            for n in (low..top).step_by(every) {
                if all.len() >= 2 * max {
                    break;
                }
                if !all.contains_key(&n) {
                    all.insert(n, (0, V::norm(99)));
                    extra.push(n);
                }
            }
            let mut t: PalmTree<K, V, C> = if s % 2 == 0 {
                PalmTree::load(all.iter().map(mk))
            } else {
                let v: Vec<(K, V)> = all.iter().map(mk).collect();
                shuffled(v.len(), *s).into_iter().map(|i| v[i].clone()).collect()
            };
            for i in shuffled(extra.len(), *s) {
                t.remove(&K::mk(extra[i], 0));
            }
            t
        }
        Way::Edited => {
            let mut t = a.clone();
            for k in am.keys().filter(|k| !m.contains_key(k)) {
                t.remove(&K::mk(*k, 0));
            }
            for (n, (tag, x)) in m {
                if am.get(n) != Some(&(*tag, *x)) {
                    if am.get(n).map_or(false, |e| e.0 != *tag) {
                        // an instance already stored would stay
                        t.remove(&K::mk(*n, 0));
                    }
                    t.insert(K::mk(*n, *tag), V::mk(*x));
                }
            }
            t
        }
    }
}

fn std_map<K: Key, V: Val>(m: &Model) -> BTreeMap<K, V> {
    m.iter().map(|(n, (t, x))| (K::mk(*n, *t), V::mk(*x))).collect()
}

struct Pair<K, V, C: TreeConfig<K, V>> {
    a: PalmTree<K, V, C>,
    b: PalmTree<K, V, C>,
    sa: BTreeMap<K, V>,
    sb: BTreeMap<K, V>,
}

fn pair<K: Key, V: Val, C: TreeConfig<K, V> + Sizes>(case: &Case, st: &mut Stats, max: usize) -> Result<Pair<K, V, C>, String> {
    let a = Ctx::<K, V, C>::from_recipe(&case.a, max, false)?;
    let mut m = a.model.clone();
    for p in &case.perturb {
        perturb::<K, V>(&mut m, p);
    }
    let b = build(&m, &case.way, &a.tree, &a.model, max);
    same!(b.len(), m.len(), "len of the second tree");
    st.nontrivial = a.model.len().max(m.len()) > C::L;
    st.class_if(a.model == m, "equal contents");
    st.class_if(a.model != m && a.model.len() == m.len(), "as many entries, different");
    let l = a.model.len().min(m.len());
    st.class_if(
        a.model.len() != m.len() && a.model.iter().take(l).eq(m.iter().take(l)),
        "one a prefix of the other",
    );
    st.class_if(a.model.is_empty() && m.is_empty(), "both empty");
    st.class(match case.way {
        Way::Load => "by load",
        Way::Insert(_) => "by insert",
        Way::Recursive(_) => "by insert_recursive",
        Way::Desc => "collected descending",
        Way::Thinned(..) => "thinned",
        Way::Edited => "by editing a clone",
    });
    st.max("entries", a.model.len().max(m.len()) as u64);
    let sa = std_map(&a.model);
    let sb = std_map(&m);
    refuel(8 * (sa.len() + sb.len()));
    Ok(Pair { a: a.tree, b, sa, sb })
}

/// An iterator prints as the map of what it has left, and printing does not advance it.
fn printed<K: Key, V: Val + PartialOrd, C: TreeConfig<K, V>>(t: &PalmTree<K, V, C>, s: &BTreeMap<K, V>, look: (u32, u32)) -> R {
    let mut it = t.iter();
    let mut rest: std::collections::VecDeque<(&K, &V)> = s.iter().collect();
    let front = look.0 as usize % (s.len() + 1);
    let back = match look.1 % 4 {
        0 => 0,
        1 => s.len() - front,
        _ => look.1 as usize % (s.len() - front + 1),
    };
    for _ in 0..front {
        it.next();
        rest.pop_front();
    }
    for _ in 0..back {
        it.next_back();
        rest.pop_back();
    }
    let want = rest.iter().copied().collect::<BTreeMap<&K, &V>>();
    same!(format!("{:?}", it), format!("{:?}", want), "{{:?}} of an iterator advanced {} and {} of {}", front, back, s.len());
    if want.len() < 50 {
        same!(format!("{:#?}", it), format!("{:#?}", want), "{{:#?}} of an iterator advanced {} and {} of {}", front, back, s.len());
    }
    let left = it.map(|(k, v)| (k.n(), k.tag(), v.x())).collect::<Vec<_>>();
    let should = rest.iter().map(|(k, v)| (k.n(), k.tag(), v.x())).collect::<Vec<_>>();
    same!(left, should, "entries left after printing an iterator");
    Ok(())
}

/// What holds for partially ordered values already.
fn partial<K: Key, V: Val + PartialOrd, C: TreeConfig<K, V>>(p: &Pair<K, V, C>, look: (u32, u32)) -> R {
    printed(&p.a, &p.sa, look)?;
    printed(&p.b, &p.sb, (look.1, look.0))?;
    let sides = [(&p.a, &p.sa), (&p.b, &p.sb)];
    for (i, (t, s)) in sides.iter().enumerate() {
        same!(format!("{:?}", t), format!("{:?}", s), "{{:?}} of tree {}", i);
        if s.len() < 400 {
            same!(format!("{:#?}", t), format!("{:#?}", s), "{{:#?}} of tree {}", i);
            same!(format!("{:04x?}", t), format!("{:04x?}", s), "{{:04x?}} of tree {}", i);
        }
        for (j, (u, v)) in sides.iter().enumerate() {
            same!(*t == *u, *s == *v, "tree {} == tree {}", i, j);
            same!(*t != *u, *s != *v, "tree {} != tree {}", i, j);
            same!(t.partial_cmp(u), s.partial_cmp(v), "partial_cmp of trees {} and {}", i, j);
            same!(*t < *u, *s < *v, "tree {} < tree {}", i, j);
            same!(*t <= *u, *s <= *v, "tree {} <= tree {}", i, j);
            same!(*t > *u, *s > *v, "tree {} > tree {}", i, j);
            same!(*t >= *u, *s >= *v, "tree {} >= tree {}", i, j);
        }
    }
    Ok(())
}

fn total<K: Key, V: Val + Ord + Hash, C: TreeConfig<K, V>>(p: &Pair<K, V, C>) -> R {
    fn hashes<T: Hash>(t: &T) -> (u64, Vec<u8>) {
        let mut d = DefaultHasher::new();
        t.hash(&mut d);
        let mut r = Recorder::default();
        t.hash(&mut r);
        (d.finish(), r.0)
    }
    let sides = [(&p.a, &p.sa), (&p.b, &p.sb)];
    for (i, (t, s)) in sides.iter().enumerate() {
        for (j, (u, v)) in sides.iter().enumerate() {
            same!(t.cmp(u), s.cmp(v), "cmp of trees {} and {}", i, j);
            if s == v {
                let (h, g) = (hashes(*t), hashes(*u));
                if h != g {
                    return Err(format!("equal trees of {} entries hash differently", s.len()));
                }
            }
        }
    }
    // Fresh trees with the same contents
    let c: PalmTree<K, V, C> = PalmTree::load(p.sb.clone());
    same!(p.b == c && c == p.b, true, "tree == the same entries loaded");
    if hashes(&p.b) != hashes(&c) {
        return Err(format!("a tree of {} entries and one with the same entries loaded hash differently", c.len()));
    }
    if p.b.is_empty() {
        let e: PalmTree<K, V, C> = PalmTree::new();
        same!(p.b == e, true, "emptied tree == new tree");
        if hashes(&p.b) != hashes(&e) {
            return Err("an emptied tree and a new one hash differently".into());
        }
    }
    Ok(())
}

fn both<K: Key, V: Val + Ord + Hash + Debug, C: TreeConfig<K, V> + Sizes>(case: &Case, st: &mut Stats, max: usize) -> R {
    let p = pair::<K, V, C>(case, st, max)?;
    partial(&p, case.look)?;
    total(&p)
}
fn only_partial<C: TreeConfig<Tag, Part> + Sizes>(case: &Case, st: &mut Stats, max: usize) -> R {
    st.class("partially ordered values");
    let p = pair::<Tag, Part, C>(case, st, max)?;
    st.class_if(p.sa.values().any(|v| v.0.is_nan()), "NaN among the values");
    partial(&p, case.look)
}

impl Prop for C10 {
    const ID: &'static str = "C10";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 6 } else { 20 };
        let x = || prop_oneof![Just(0u32), Just(1u32), 0u32..70, any::<u32>()];
        let per = prop_oneof![
            3 => (any::<u32>(), x()).prop_map(|(r, x)| Perturb::Value(r, x)),
            2 => any::<u32>().prop_map(Perturb::Drop),
            1 => (1u8..6).prop_map(Perturb::DropLast),
            1 => (1u8..6).prop_map(Perturb::DropFirst),
            2 => (any::<u32>(), x()).prop_map(|(r, x)| Perturb::Add(r, x)),
            1 => x().prop_map(Perturb::AddLast),
            2 => (any::<u32>(), -2i8..3).prop_map(|(r, d)| Perturb::ShiftKey(r, d)),
        ];
        let pers = prop_oneof![
            4 => Just(vec![]),
            4 => vec(per.clone(), 1..2),
            2 => vec(per, 2..5),
            1 => Just(vec![Perturb::Clear]),
        ];
        let way = prop_oneof![
            2 => Just(Way::Load),
            2 => any::<u32>().prop_map(Way::Insert),
            2 => any::<u32>().prop_map(Way::Recursive),
            1 => Just(Way::Desc),
            4 => (any::<u8>(), any::<u32>()).prop_map(|(a, b)| Way::Thinned(a, b)),
            2 => Just(Way::Edited),
        ];
        let cfg = prop_oneof![
            5 => Just(0u8),
            2 => Just(1u8),
            2 => Just(2u8),
            1 => Just(3u8),
            1 => Just(4u8),
            1 => Just(5u8),
            4 => Just(6u8),
            1 => Just(7u8),
        ];
        let look = (any::<u32>(), any::<u32>());
        (cfg, recipe(n), pers, way, look).prop_map(|(cfg, a, perturb, way, look)| Case { cfg, a, perturb, way, look }).boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        match case.cfg {
            0 => both::<Tag, u32, L4B4<Unique>>(case, st, 700),
            1 => both::<Rev, String, L5B5<Shared>>(case, st, 500),
            2 => both::<String, Box<u32>, L4B5<SyncShared>>(case, st, 500),
            3 => both::<Tag, u32, Tree64<Unique>>(case, st, 5000),
            4 => both::<Tag, (), L5B4<Unique>>(case, st, 700),
            5 => both::<u8, u32, L4B4<Unique>>(case, st, 256),
            6 => only_partial::<L4B4<Unique>>(case, st, 400),
            _ => only_partial::<L6B4<SyncShared>>(case, st, 400),
        }
    }
}

fn main() {
    palmtree_verif::main::<C10>()
}
