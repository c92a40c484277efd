"""C20: generated programs that borrow from trees, put to the compiler.

A case is a function that makes trees, fills them with owned or borrowed values, takes references, iterators and entries,
changes, moves and drops things and uses what it took again, all in a generated order; or one that passes such things
through a signature with generated lifetimes. It is compiled three times: with the tree, with the standard sorted map,
and with a map that has the methods of the tree but no bodies, and is as strict about lifetimes as a container with an
ordinary destructor and no variance may be. What the standard map does not allow, the tree must not; what the bodiless
map allows, the tree must.
"""
import concurrent.futures, hashlib, random, re, time
from sendsync import Rustc

COMMON = """#![allow(unused, deprecated)]
use std::collections::BTreeMap; use std::marker::PhantomData; use std::ops::{Bound, RangeBounds, Index, IndexMut};
pub fn touch<X>(_: &X) {}
pub fn touch_mut<X>(_: &mut X) {}
"""
TREE = COMMON + """
use palmtree::{PalmTree, TreeConfig, Tree64, PointerKind, Unique, Shared, SyncShared, Entry as GEntry, Iter as GIter, IterMut as GIterMut, OwnedIter as GOwned};
use typenum::consts::*;
pub struct Small<P: PointerKind>(PhantomData<P>);
impl<K, V, P: PointerKind> TreeConfig<K, V> for Small<P> { type BranchSize = U4; type LeafSize = U5; type PointerKind = P; }
pub type Cfg = %s;
pub type T<K, V> = PalmTree<K, V, Cfg>;
pub type Entry<'a, K, V> = GEntry<'a, K, V, Cfg>; pub type Iter<'a, K, V> = GIter<'a, K, V, Cfg>;
pub type IterMut<'a, K, V> = GIterMut<'a, K, V, Cfg>; pub type Owned<K, V> = GOwned<K, V, Cfg>;
pub type Rng<'a, K, V> = Iter<'a, K, V>; pub type RngMut<'a, K, V> = IterMut<'a, K, V>;
"""
STD = COMMON + """
pub type T<K, V> = BTreeMap<K, V>;
use std::collections::btree_map as b;
pub type Rng<'a, K, V> = b::Range<'a, K, V>; pub type RngMut<'a, K, V> = b::RangeMut<'a, K, V>;
pub type Entry<'a, K, V> = b::Entry<'a, K, V>; pub type Iter<'a, K, V> = b::Iter<'a, K, V>;
pub type IterMut<'a, K, V> = b::IterMut<'a, K, V>; pub type Owned<K, V> = b::IntoIter<K, V>;
pub trait More<K, V>: Sized {
    fn load<I: Iterator<Item = (K, V)>>(i: I) -> Self;
    fn insert_recursive(&mut self, k: K, v: V) -> Option<V>;
    fn remove_lowest(&mut self) -> Option<(K, V)>; fn remove_highest(&mut self) -> Option<(K, V)>;
    fn append_left(&mut self, o: Self); fn append_right(&mut self, o: Self);
    fn merge_left(a: Self, b: Self) -> Self; fn merge_right(a: Self, b: Self) -> Self;
    fn merge_left_iter(a: Self, b: Self) -> b::IntoIter<K, V>; fn merge_right_iter(a: Self, b: Self) -> b::IntoIter<K, V>;
    fn plus(self, o: Self) -> Self; fn plus_ref(self, o: &Self) -> Self; fn add_to(&mut self, o: Self); fn add_ref(&mut self, o: &Self);
    fn at_mut(&mut self, k: &K) -> &mut V;
    fn rg<R: RangeBounds<K>>(&self, r: R) -> b::Range<'_, K, V>; fn rgm<R: RangeBounds<K>>(&mut self, r: R) -> b::RangeMut<'_, K, V>;
}
impl<K, V> More<K, V> for BTreeMap<K, V> {
    fn load<I: Iterator<Item = (K, V)>>(i: I) -> Self { loop {} }
    fn insert_recursive(&mut self, k: K, v: V) -> Option<V> { loop {} }
    fn remove_lowest(&mut self) -> Option<(K, V)> { loop {} } fn remove_highest(&mut self) -> Option<(K, V)> { loop {} }
    fn append_left(&mut self, o: Self) {} fn append_right(&mut self, o: Self) {}
    fn merge_left(a: Self, b: Self) -> Self { loop {} } fn merge_right(a: Self, b: Self) -> Self { loop {} }
    fn merge_left_iter(a: Self, b: Self) -> b::IntoIter<K, V> { loop {} } fn merge_right_iter(a: Self, b: Self) -> b::IntoIter<K, V> { loop {} }
    fn plus(self, o: Self) -> Self { loop {} } fn plus_ref(self, o: &Self) -> Self { loop {} } fn add_to(&mut self, o: Self) {} fn add_ref(&mut self, o: &Self) {}
    fn at_mut(&mut self, k: &K) -> &mut V { loop {} }
    fn rg<R: RangeBounds<K>>(&self, r: R) -> b::Range<'_, K, V> { loop {} } fn rgm<R: RangeBounds<K>>(&mut self, r: R) -> b::RangeMut<'_, K, V> { loop {} }
}
"""
# The methods of the tree and what their signatures promise; dropping any of its parts may look at keys and values.
BARE = COMMON + """
pub struct Own<K, V>(PhantomData<(K, V)>, PhantomData<fn(K, V) -> (K, V)>);
impl<K, V> Drop for Own<K, V> { fn drop(&mut self) {} }
pub struct T<K, V>(Own<K, V>);
pub struct Iter<'a, K, V>(PhantomData<&'a ()>, Own<K, V>);
pub struct IterMut<'a, K, V>(PhantomData<&'a mut ()>, Own<K, V>);
pub struct Owned<K, V>(Own<K, V>);
pub type Rng<'a, K, V> = Iter<'a, K, V>; pub type RngMut<'a, K, V> = IterMut<'a, K, V>;
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
pub struct VacantEntry<'a, K, V>(&'a mut T<K, V>, Own<K, V>);
pub struct OccupiedEntry<'a, K, V>(&'a mut T<K, V>, Own<K, V>);
impl<K, V> T<K, V> {
    pub fn new() -> Self { loop {} } pub fn load<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { loop {} }
    pub fn get(&self, k: &K) -> Option<&V> { loop {} } pub fn get_mut(&mut self, k: &K) -> Option<&mut V> { loop {} }
    pub fn len(&self) -> usize { loop {} } pub fn is_empty(&self) -> bool { loop {} }
    pub fn iter(&self) -> Iter<'_, K, V> { loop {} } pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { loop {} }
    pub fn range<R: RangeBounds<K>>(&self, r: R) -> Iter<'_, K, V> { loop {} }
    pub fn range_mut<R: RangeBounds<K>>(&mut self, r: R) -> IterMut<'_, K, V> { loop {} }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { loop {} }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> { loop {} } pub fn insert_recursive(&mut self, k: K, v: V) -> Option<V> { loop {} }
    pub fn remove(&mut self, k: &K) -> Option<(K, V)> { loop {} }
    pub fn remove_lowest(&mut self) -> Option<(K, V)> { loop {} } pub fn remove_highest(&mut self) -> Option<(K, V)> { loop {} }
    pub fn append_left(&mut self, o: Self) {} pub fn append_right(&mut self, o: Self) {}
    pub fn merge_left(a: Self, b: Self) -> Self { loop {} } pub fn merge_right(a: Self, b: Self) -> Self { loop {} }
    pub fn merge_left_iter(a: Self, b: Self) -> Owned<K, V> { loop {} } pub fn merge_right_iter(a: Self, b: Self) -> Owned<K, V> { loop {} }
}
impl<K, V> Clone for T<K, V> { fn clone(&self) -> Self { loop {} } }
impl<K, V> PartialEq for T<K, V> { fn eq(&self, o: &Self) -> bool { loop {} } }
impl<'k, K, V> Index<&'k K> for T<K, V> { type Output = V; fn index(&self, k: &K) -> &V { loop {} } }
impl<'k, K, V> IndexMut<&'k K> for T<K, V> { fn index_mut(&mut self, k: &K) -> &mut V { loop {} } }
impl<K, V> Extend<(K, V)> for T<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {} }
impl<K, V> std::iter::FromIterator<(K, V)> for T<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { loop {} } }
impl<K, V> std::ops::Add for T<K, V> { type Output = Self; fn add(self, o: Self) -> Self { loop {} } }
impl<'a, K: 'a, V> std::ops::Add<&'a T<K, V>> for T<K, V> { type Output = Self; fn add(self, o: &T<K, V>) -> Self { loop {} } }
impl<K, V> std::ops::AddAssign for T<K, V> { fn add_assign(&mut self, o: Self) {} }
impl<'a, K: 'a, V> std::ops::AddAssign<&'a T<K, V>> for T<K, V> { fn add_assign(&mut self, o: &'a T<K, V>) {} }
impl<'a, K: 'a, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { loop {} } }
impl<'a, K: 'a, V: 'a> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { loop {} } }
impl<'a, K: 'a, V: 'a> DoubleEndedIterator for Iter<'a, K, V> { fn next_back(&mut self) -> Option<Self::Item> { loop {} } }
impl<'a, K: 'a, V: 'a> Iterator for IterMut<'a, K, V> { type Item = (&'a K, &'a mut V); fn next(&mut self) -> Option<Self::Item> { loop {} } }
impl<'a, K: 'a, V: 'a> DoubleEndedIterator for IterMut<'a, K, V> { fn next_back(&mut self) -> Option<Self::Item> { loop {} } }
impl<K, V> Iterator for Owned<K, V> { type Item = (K, V); fn next(&mut self) -> Option<Self::Item> { loop {} } }
impl<K, V> DoubleEndedIterator for Owned<K, V> { fn next_back(&mut self) -> Option<Self::Item> { loop {} } }
impl<K, V> IntoIterator for T<K, V> { type Item = (K, V); type IntoIter = Owned<K, V>; fn into_iter(self) -> Owned<K, V> { loop {} } }
impl<'a, K: 'a, V: 'a> IntoIterator for &'a T<K, V> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { loop {} } }
impl<'a, K: 'a, V: 'a> IntoIterator for &'a mut T<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { loop {} } }
impl<'a, K: 'a, V: 'a> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K { loop {} } pub fn into_key(self) -> K { loop {} } pub fn insert(self, v: V) -> &'a mut V { loop {} }
}
impl<'a, K: 'a, V: 'a> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K { loop {} } pub fn get(&self) -> &V { loop {} } pub fn get_mut(&mut self) -> &mut V { loop {} }
    pub fn insert(&mut self, v: V) -> V { loop {} } pub fn into_mut(self) -> &'a mut V { loop {} }
    pub fn remove(self) -> V { loop {} } pub fn remove_entry(self) -> (K, V) { loop {} }
}
"""
CFGS = ["Tree64<Unique>", "Small<Unique>", "Small<Shared>", "Tree64<SyncShared>", "Small<SyncShared>"]
SIDES = ("tree", "std", "bare")

# (tree and bare text, standard text or None if the same)
def both(t, s=None):
    # The standard range has a second type parameter, which keys that are references leave open.
    return (t, (s if s is not None else t).replace(".range(", ".rg(").replace(".range_mut(", ".rgm("))


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.v = r.choice(["String", "&str", "&str"])
        self.k = r.choice(["u32", "u32", "&str"])
        self.live = [{}]  # scopes of name -> kind
        self.out = []
        self.weird = 0

    def name(self):
        self.n += 1
        return f"x{self.n}"

    def pick(self, *kinds):
        c = [n for s in self.live for n, k in s.items() if k in kinds]
        return self.r.choice(c[-4:] if self.r.random() < 0.6 else c) if c else None

    def emit(self, t, s=None):
        ind = "    " * len(self.live)
        a, b = both(t, s)
        self.out.append((ind + a, ind + b))

    def gone(self, n):
        """What has been moved is mostly left alone afterwards."""
        if self.r.random() < 0.9:
            for s in self.live:
                s.pop(n, None)

    def let(self, kind, t, s=None):
        # Sometimes into a variable of an outer scope that is waiting for one of this kind.
        slot = self.pick("slot " + kind)
        if slot and self.r.random() < 0.4:
            a, b = both(t, s)
            self.emit(f"{slot} = {a};", f"{slot} = {b};")
            return slot
        n = self.name()
        self.live[-1][n] = kind
        a, b = both(t, s)
        self.emit(f"let mut {n} = {a};", f"let mut {n} = {b};")
        return n

    def value(self):
        if self.v == "String":
            return "String::new()"
        d = self.pick("data")
        return f"{d}.as_str()" if d and self.r.random() < 0.7 else '"a"'

    def key(self):
        if self.k == "u32":
            d = self.pick("key")
            return d if d and self.r.random() < 0.6 else str(self.r.randint(0, 9))
        d = self.pick("data")
        return f"{d}.as_str()" if d and self.r.random() < 0.7 else '"b"'

    def tree_expr(self, t=None):
        """Something that changes, reads, moves or drops a tree."""
        r = self.r
        t = t or self.pick("tree")
        o = self.pick("tree")
        k = self.key()
        val = self.value()
        p = "" if "String" in (self.v, self.k) else "&"  # borrowed trees are added if their values are Copy
        e = r.choice([
            both(f"touch(&{t}.insert({k}, {self.value()}))"), both(f"touch(&{t}.insert({k}, {self.value()}))"),
            both(f"touch(&{t}.insert_recursive({k}, {self.value()}))"),
            both(f"touch(&{t}.remove(&{k}))"), both(f"touch(&{t}.remove_lowest())"), both(f"touch(&{t}.remove_highest())"),
            both(f"touch(&{t}.get(&{k}))"), both(f"touch(&{t}.len())"), both(f"touch(&{t}.is_empty())"), both(f"touch(&{t}[&{k}])"),
            both(f"touch(&{t}.clone())"), both(f"touch(&{t}.iter().count())"),
            both(f"drop({t})"), both(f"{t} = T::new()"), both(f"std::mem::swap(&mut {t}, &mut {o})"),
            both(f"{t} = {o}"), both(f"{t}.append_left({o})"), both(f"{t}.append_right({o})"), both(f"std::ops::AddAssign::add_assign(&mut {t}, {o})", f"More::add_to(&mut {t}, {o})"),
            both(f"std::ops::AddAssign::add_assign(&mut {t}, {p}{o})", f"More::add_{'ref' if p else 'to'}(&mut {t}, {p}{o})"), both(f"{t}.extend(vec![({k}, {self.value()})])"), both(f"{t}.extend({o})"),
            both(f"touch(&({t} == {o}))"), both(f"{t}[&{k}] = {val}", f"*{t}.at_mut(&{k}) = {val}"),
            both(f"drop({t}.into_iter())"), both(f"for e in &mut {t} {{ *e.1 = {self.value()}; }}"),
        ])
        if e[0] in (f"drop({t})", f"drop({t}.into_iter())"):
            self.gone(t)
        elif re.search(r"(= |_left\(|_right\(|, |extend\()" + o + r"\)?$", e[0]) and o != t:
            self.gone(o)
        return e

    def use(self, n, k):
        r = self.r
        if k.startswith("slot "):
            k = k[5:]
        v = self.value()
        if k == "mref":
            return r.choice([f"touch(&{n})", f"if let Some(y) = {n} {{ *y = {v}; }}", f"if let Some(y) = {n}.as_mut() {{ **y = {v}; }}"])
        if k in ("iter", "imut", "owned"):
            return r.choice([f"touch(&{n}.next())", f"touch(&{n}.next_back())", f"for e in {n} {{ touch(&e); }}", f"touch(&{n})"])
        if k == "merged":
            return r.choice([f"touch(&{n}.next())", f"drop({n})", f"touch(&{n})"])
        if k == "occ":
            return r.choice([f"touch({n}.get())", f"touch(&{n}.insert({v}))", f"*{n}.get_mut() = {v}", f"drop({n}.remove())", f"touch({n}.key())",
                             f"drop({n}.remove_entry())"])
        if k == "vac":
            return r.choice([f"touch({n}.key())", f"*{n}.insert({v}) = {v}"])
        if k == "key":
            return r.choice([f"touch(&{n})", f"{n} += 1"])
        if k == "data":
            return r.choice([f"touch(&{n})", f"{n}.push('x')", f"drop({n})", f"{n} = String::new()"])
        return f"touch(&{n})"

    def any(self):
        c = [(n, k) for s in self.live for n, k in s.items() if k != "tree"]
        return self.r.choice(c) if c else None

    def step(self, depth):
        r = self.r
        t = self.pick("tree")
        if not t:
            n = self.name()
            self.live[-1][n] = "tree"
            self.emit(f"let mut {n}: T<{self.k}, {self.v}> = T::new();")
            return
        k = self.key()
        w = r.random()
        if w < 0.06:
            e = r.choice(["T::new()", f"T::load(vec![({k}, {self.value()})].into_iter())", f"vec![({k}, {self.value()})].into_iter().collect()",
                          f"{t}.clone()", f"{t}", "merge"])
            if e == "merge":
                o = self.pick("tree")
                p = "" if "String" in (self.v, self.k) else "&"
                e = r.choice([both(f"T::merge_left({t}, {o})"), both(f"T::merge_right({t}, {o})"), both(f"{t} + {o}", f"{t}.plus({o})"),
                              both(f"{t} + {p}{o}", f"{t}.plus{'_ref' if p else ''}({p}{o})")])
                if "&" not in e[0]:
                    self.gone(o)
                self.gone(t)
            else:
                if e == t:
                    self.gone(t)
                e = both(e)
            n = self.name()
            self.live[-1][n] = "tree"
            self.emit(f"let mut {n}: T<{self.k}, {self.v}> = {e[0]};", f"let mut {n}: T<{self.k}, {self.v}> = {e[1]};")
        elif w < 0.12:
            if self.k == "u32" and r.random() < 0.4:
                self.let("key", f"{r.randint(0, 9)}u32")
            else:
                self.let("data", "String::new()")
        elif w < 0.20:
            n, kind, ty = self.name(), *r.choice([("ref", f"Option<&{self.v}>"), ("mref", f"Option<&mut {self.v}>"),
                                                   ("ref", f"Option<&{self.v}>"), ("val", f"Option<{self.v}>")])
            self.live[-1][n] = "slot " + kind
            self.emit(f"let mut {n}: {ty} = None;")
        elif w < 0.29:
            self.let("ref", r.choice([f"{t}.get(&{k})", f"Some(&{t}[&{k}])", f"{t}.iter().next().map(|e| e.1)", f"{t}.range(..).next_back().map(|e| e.1)",
                                      f"(&{t}).into_iter().last().map(|e| e.1)"]))
        elif w < 0.37:
            self.let("mref", *r.choice([both(f"{t}.get_mut(&{k})"), both(f"Some(&mut {t}[&{k}])", f"Some({t}.at_mut(&{k}))"),
                                        both(f"{t}.iter_mut().next().map(|e| e.1)"), both(f"{t}.range_mut(..).next_back().map(|e| e.1)"),
                                        both(f"(&mut {t}).into_iter().last().map(|e| e.1)")]))
        elif w < 0.44:
            self.let("iter", r.choice([f"{t}.iter()", f"{t}.range({k}..)", f"{t}.range(&{k}..)", f"{t}.range((Bound::Excluded(&{k}), Bound::Unbounded))", f"(&{t}).into_iter()"]))
        elif w < 0.50:
            self.let("imut", r.choice([f"{t}.iter_mut()", f"{t}.range_mut(..{k})", f"{t}.range_mut(..=&{k})", f"(&mut {t}).into_iter()"]))
        elif w < 0.55:
            d = r.choice(["occ", "vac"])
            g = {"occ": "Entry::Occupied(o) => o", "vac": "Entry::Vacant(o) => o"}[d]
            self.let(d, f"match {t}.entry({k}) {{ {g}, _ => return }}")
        elif w < 0.58:
            self.gone(t)
            o = self.pick("tree")
            if o and r.random() < 0.5:
                self.gone(o)
                self.let("merged", r.choice([f"T::merge_left_iter({t}, {o})", f"T::merge_right_iter({t}, {o})"]))
            else:
                self.let("owned", f"{t}.into_iter()")
        elif w < 0.70:
            a = self.pick("iter", "imut", "occ", "vac", "owned", "merged", "slot ref", "ref")
            if not a:
                return
            kind = next(s[a] for s in self.live if a in s)
            if kind == "iter":
                if r.random() < 0.25:
                    self.let("iter", f"{a}.clone()")
                else:
                    self.let("ref", r.choice([f"{a}.next().map(|e| e.1)", f"{a}.next_back().map(|e| e.1)", f"{a}.nth(1).map(|e| e.1)"]))
            elif kind == "imut":
                self.let("mref", r.choice([f"{a}.next().map(|e| e.1)", f"{a}.next_back().map(|e| e.1)", f"{a}.nth(1).map(|e| e.1)"]))
            elif kind == "occ":
                self.let(*r.choice([("ref", f"Some({a}.get())"), ("mref", f"Some({a}.get_mut())"), ("mref", f"Some({a}.into_mut())"),
                                    ("val", f"Some({a}.remove())"), ("val", f"Some({a}.insert({self.value()}))"), ("kref", f"{a}.key()")]))
            elif kind == "vac":
                self.let(*r.choice([("mref", f"Some({a}.insert({self.value()}))"), ("kref", f"{a}.key()")]))
            elif kind in ("owned", "merged"):
                self.let("val", f"{a}.next().map(|e| e.1)")
            else:
                self.let("ref", f"{a}")
        elif w < 0.80:
            a, b = self.tree_expr(t)
            self.emit(a + ";", b + ";")
        elif w < 0.90:
            a = self.any()
            if a:
                self.emit(self.use(*a) + ";")
        elif depth < 2:
            heads = ["{", f"for e in &{t} {{", f"for e in {t}.iter_mut() {{", f"if let Some(z) = {t}.get(&{k}) {{",
                     f"if let Some(z) = {t}.get_mut(&{k}) {{", f"for e in {t}.range({k}..) {{", "loop {", f"if {t}.is_empty() {{",
                     f"while let Some(z) = {t}.iter_mut().next() {{", f"match {t}.entry({k}) {{ Entry::Vacant(z) => {{ touch(&z.insert({self.value()})); }} Entry::Occupied(z) => {{"]
            h = r.choice(heads)
            self.emit(h)
            self.live.append({})
            for _ in range(r.randint(1, 4)):
                self.step(depth + 1)
            for _ in range(r.randint(0, 2)):
                a = self.any()
                if a:
                    self.emit(self.use(*a) + ";")
            tail = re.search(r"\b([ez])\b", h)
            if tail and r.random() < 0.4:
                self.emit("touch(&z);" if " z)" in h or "(z)" in h else "touch(&e);")
            if h == "loop {" and r.random() < 0.6:
                self.emit("break;")
            self.live.pop()
            self.emit("} }" if h.startswith("match") else "}")


def body_case(r):
    g = Gen(r)
    for _ in range(r.randint(3, 10)):
        g.step(0)
    for n, k in list(g.live[0].items()):
        if k != "tree" and r.random() < 0.35:
            g.emit(g.use(n, k) + ";")
        elif k == "tree" and r.random() < 0.2:
            a, b = g.tree_expr(n)
            g.emit(a + ";", b + ";")
    return dict(head=both("fn {f}() {{"), lines=g.out, kind="bodies")


HANDLES = ["Iter<{l}, {k}, {v}>", "IterMut<{l}, {k}, {v}>", "Entry<{l}, {k}, {v}>", "Entry<{l}, {k}, {v}>", "Owned<{k}, {v}>", "T<{k}, {v}>", "RngMut<{l}, {k}, {v}>", "Rng<{l}, {k}, {v}>",
           "&{l} T<{k}, {v}>", "&{l} mut T<{k}, {v}>", "Option<&{l} mut {v}>", "&{l} mut Iter<{m}, {k}, {v}>", "&{l} mut IterMut<{m}, {k}, {v}>", "&{l} IterMut<{m}, {k}, {v}>",
           "&{l} mut &{m} mut T<{k}, {v}>", "&{l} mut &{m} T<{k}, {v}>", "&{l} &{m} mut T<{k}, {v}>"]
# argument, return type, expression
PASSES = [
    ("&{l} T<{k}, {v}>", "Option<&{m} {w}>", "x.get(&K1)"), ("&{l} mut T<{k}, {v}>", "Option<&{m} mut {w}>", "x.get_mut(&K1)"),
    ("&{l} mut T<{k}, {v}>", "Option<&{m} {w}>", "x.get(&K1)"), ("&{l} T<{k}, {v}>", "&{m} {w}", "&x[&K1]"),
    ("&{l} T<{k}, {v}>", "Iter<{m}, {q}, {w}>", "x.iter()"), ("&{l} mut T<{k}, {v}>", "IterMut<{m}, {q}, {w}>", "x.iter_mut()"),
    ("&{l} mut T<{k}, {v}>", "Entry<{m}, {q}, {w}>", "x.entry(K1)"), ("T<{k}, {v}>", "Owned<{q}, {w}>", "x.into_iter()"),
    ("&{l} T<{k}, {v}>", "impl Iterator<Item = (&{m} {q}, &{m} {w})>", "x.range(..)"), ("&{l} mut T<{k}, {v}>", "impl Iterator<Item = (&{m} {q}, &{m} mut {w})>", "x.range_mut(..)"),
    ("&{l} T<{k}, {v}>", "T<{q}, {w}>", "x.clone()"), ("Entry<{l}, {k}, {v}>", "&{m} mut {w}", "match x { Entry::Occupied(x) => x.into_mut(), _ => loop {} }"), ("Entry<{l}, {k}, {v}>", "&{m} {q}", "match x { Entry::Vacant(x) => x.key(), _ => loop {} }"),
    ("&{n} Entry<{l}, {k}, {v}>", "&{m} {w}", "match x { Entry::Occupied(x) => x.get(), _ => loop {} }"), ("&{n} mut Entry<{l}, {k}, {v}>", "&{m} mut {w}", "match x { Entry::Occupied(x) => x.get_mut(), _ => loop {} }"),
    ("&{n} Entry<{l}, {k}, {v}>", "&{m} {q}", "match x { Entry::Occupied(x) => x.key(), _ => loop {} }"), ("&{n} Entry<{l}, {k}, {v}>", "&{m} {q}", "match x { Entry::Vacant(x) => x.key(), _ => loop {} }"),
    ("Iter<{l}, {k}, {v}>", "Option<(&{m} {q}, &{m} {w})>", "{ let mut x = x; x.next() }"), ("&{n} mut Iter<{l}, {k}, {v}>", "Option<(&{m} {q}, &{m} {w})>", "x.next_back()"),
    ("&{n} mut IterMut<{l}, {k}, {v}>", "Option<(&{m} {q}, &{m} mut {w})>", "x.next()"), ("&{n} mut IterMut<{l}, {k}, {v}>", "Option<(&{m} {q}, &{m} mut {w})>", "x.next_back()"),
    ("&{n} Iter<{l}, {k}, {v}>", "Iter<{m}, {q}, {w}>", "x.clone()"), ("&{n} &{l} T<{k}, {v}>", "Option<&{m} {w}>", "x.get(&K1)"), ("&{n} mut &{l} mut T<{k}, {v}>", "Option<&{m} mut {w}>", "x.get_mut(&K1)"),
    ("&{n} mut &{l} mut T<{k}, {v}>", "IterMut<{m}, {q}, {w}>", "x.iter_mut()"), ("&{n} &{l} mut T<{k}, {v}>", "Iter<{m}, {q}, {w}>", "x.iter()"),
    ("(&{n} mut T<{k}, {v}>, {w})", "()", "{ x.0.insert(K1, x.1); }"), ("(&{n} mut T<{k}, {v}>, T<{q}, {w}>)", "()", "x.0.append_right(x.1)"),
    ("(&{n} mut T<{k}, {v}>, T<{q}, {w}>)", "()", "x.0.extend(x.1)"), ("(&{n} mut Entry<{l}, {k}, {v}>, {w})", "()", "{ match x.0 { Entry::Occupied(y) => { y.insert(x.1); } _ => () }; }"),
    ("(Entry<{l}, {k}, {v}>, {w})", "&{m} mut {v}", "match x.0 { Entry::Vacant(y) => y.insert(x.1), _ => loop {} }"), ("(T<{k}, {v}>, T<{q}, {w}>)", "T<{q}, {w}>", "T::merge_left(x.0, x.1)"),
    ("(&{n} mut T<{k}, {v}>, {w})", "()", "{ for e in x.0.iter_mut() { *e.1 = x.1; } }"), ("(&{n} mut IterMut<{l}, {k}, {v}>, {w})", "()", "{ x.0.next().map(|e| *e.1 = x.1); }"),
    ("(&{n} T<{k}, {v}>, &{m} {q})", "Option<&{n} {v}>", "x.0.get(x.1)"), ("(&{n} T<{k}, {v}>, &{m} {q})", "Option<&{m} {v}>", "x.0.get(x.1)"),
    ("(&{n} T<{k}, {v}>, &{m} {q})", "&{n} {v}", "&x.0[x.1]"), ("(&{n} mut T<{k}, {v}>, &{m} {q})", "Option<({q}, {w})>", "x.0.remove_lowest()"),
    ("(&{n} T<{k}, {v}>, &{m} {q})", "Rng<{n}, {k}, {v}>", "x.0.range(x.1..)"), ("(&{n} mut T<{k}, {v}>, &{m} {q})", "RngMut<{n}, {k}, {v}>", "x.0.range_mut(..=x.1)"),
    ("(&{n} mut T<{k}, {v}>, &{m} {q})", "Option<&{n} mut {v}>", "x.0.get_mut(x.1)"), ("(&{n} mut T<{k}, {v}>, &{m} {q})", "Option<&{n} {v}>", "x.0.range(x.1..).next().map(|e| e.1)"),
    ("T<{k}, {v}>", "impl Iterator<Item = ({q}, {w})>", "T::merge_left_iter(x, T::new())"), ("(T<{k}, {v}>, T<{q}, {w}>)", "impl Iterator<Item = ({q}, {w})>", "T::merge_right_iter(x.0, x.1)"),
]


def sig_case(r):
    vs = [r.choice(["u8", "u8", "&{} u8", "&{} u8", "Option<&{} u8>"]) for _ in range(1)]
    life = ["'a", "'a", "'b", "'c", "'static"]
    l, m, n = (r.choice(life[:-1] if r.random() < 0.85 else life) for _ in range(3))
    v = vs[0].format(r.choice(life))
    w = v if r.random() < 0.5 else vs[0].format(r.choice(life))
    ks, key = r.choice([("u8", "7"), ("u8", "7"), ("&{} u8", "&7")])
    k = ks.format(r.choice(life))
    q = k if r.random() < 0.5 else ks.format(r.choice(life))
    if r.random() < 0.35:
        h = r.choice(HANDLES)
        m2, n2 = r.choice(life), r.choice(life)
        arg = h.format(l=l, m=n, k=k, v=v)
        ret = h.format(l=m, m=n if r.random() < 0.5 else n2, k=q, v=w)
        expr = "x"
        kind = "handles"
    else:
        a, b, expr = r.choice(PASSES)
        arg, ret = a.format(l=l, m=m, n=n, k=k, q=q, v=v, w=w), b.format(l=l, m=m, n=n, k=k, q=q, v=v, w=w)
        kind = "signatures"
    bounds = sorted({f"{x}: {y}" for x, y in (r.sample(["'a", "'b", "'c"], 2) for _ in range(r.randint(0, 2)))})
    where = f" where {', '.join(bounds)}" if bounds else ""
    used = "<'a, 'b, 'c>"
    mut = "mut " if ".next" in expr else ""
    if "impl Iterator" in ret:
        ret += r.choice([" + 'a", " + use<'a, 'b, 'c>"]) if "T::merge" not in expr else ""
    return dict(head=both(f"fn {{f}}{used}({mut}x: {arg}) -> {ret}{where} {{{{"), lines=[both("    " + expr.replace("K1", key))], kind=kind)


# What may not be had twice, or would let two mutable references meet.
def trait_cases():
    out = []
    for h in ("IterMut<'static, u8, u8>", "Entry<'static, u8, u8>", "Owned<u8, Own1>", "Owned<u8, &'static mut u8>",
              "T<u8, &'static mut u8>", "T<u8, Own1>", "T<Own1, u8>"):
        for t in ("Clone", "Copy"):
            out.append((h, t))
    for h in ("Iter<'static, u8, u8>", "T<u8, u8>"):
        out.append((h, "Copy"))
    return out


def text(case, side, fname):
    i = 1 if side == "std" else 0
    return [case["head"][i].format(f=fname)] + [l[i] for l in case["lines"]] + ["}"]


def prelude(side, cfg):
    return {"tree": TREE % cfg, "std": STD, "bare": BARE}[side]


BORROW = {"E0381", "E0382", "E0384", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0597", "E0713", "E0716", "E0521", "E0700",
          "E0594", "E0596", "E0621", "E0626", "E0712", "E0478", "E0491", "E0309", "E0310", "E0495", "E0759", "E0195"}


def judge(cc, cases, side, cfg, name):
    """Per case: True (compiles), False (rejected for borrowing), or the error that is neither."""
    lines, at = (prelude(side, cfg)).split("\n"), []
    for i, c in enumerate(cases):
        s = len(lines) + 1
        lines += text(c, side, f"f{i}")
        at += [(s, len(lines), i)]
    src = "\n".join(lines) + "\nfn main() {}\n"
    rc, err = cc.check(src, f"{name}-{side}")
    res = [True] * len(cases)
    by_line = {}
    for s, e, i in at:
        for l in range(s, e + 1):
            by_line[l] = i
    n = 0
    for l in err.splitlines():
        m = re.match(r".*?p\.rs:(\d+):\d+: error(?:\[(E\d+)\])?: (.*)", l)
        if not m:
            continue
        n += 1
        i = by_line.get(int(m.group(1)))
        if i is None:
            return None, l
        ok = m.group(2) in BORROW or (m.group(2) is None and "lifetime may not live long enough" in m.group(3))
        if not ok:
            res[i] = l
        elif res[i] is True:
            res[i] = False
    if rc != 0 and n == 0:
        return None, err[-1500:]
    return res, ""


def mismatch(tree, std, bare):
    if any(not isinstance(x, bool) for x in (tree, std, bare)):
        return None
    if tree and not std:
        return "compiles with the tree and not with the standard map"
    if bare and std and not tree:
        return "does not compile with the tree, though its borrows are in order"
    return None


def run(res, prop, seed, tier, scratch, env, harness):
    r = random.Random(f"palmtree-{seed}-{prop}")
    n, chunk = (12000, 150) if tier == "quick" else (400000, 250)
    cc = Rustc(scratch, env, harness)
    jobs = []
    for j in range(n // chunk):
        jobs.append((j, random.Random(f"palmtree-{seed}-{prop}-{j}"), CFGS[j % len(CFGS)]))
    end = time.time() + (240 if tier == "quick" else 1800)

    def one(job):
        j, r, cfg = job
        if time.time() > end:
            return None
        cases = [body_case(r) if r.random() < 0.55 else sig_case(r) for _ in range(chunk)]
        got = {}
        for side in SIDES:
            got[side], why = judge(cc, cases, side, cfg, f"b{j}")
            if got[side] is None:
                return cfg, cases, None, f"{side}: {why}"
        return cfg, cases, list(zip(*(got[s] for s in SIDES))), ""
    hashes = set()
    failed = None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for out in ex.map(one, jobs):
            if failed or res.error:
                continue
            if out is None:
                res.stopped_early = True
                continue
            cfg, cases, got, why = out
            if got is None:
                res.error = "the programs could not be judged: " + why
                continue
            for c, g in zip(cases, got):
                res.evaluations += 1
                odd = [x for x in g if not isinstance(x, bool)]
                key = c["kind"] + (", no answer" if odd else ", accepted" if g[0] else ", rejected")
                res.classes[key] = res.classes.get(key, 0) + 1
                if odd:
                    res.inconclusive += 1
                    # The tree lacks something that the others have: that is for the build, not for this check.
                    if isinstance(g[1], bool) and isinstance(g[2], bool) and not isinstance(g[0], bool) and not res.error:
                        res.odd = getattr(res, "odd", 0) + 1
                        res.counters["rejected with the tree for other reasons"] = res.odd
                        res.samples.append({"program": text(c, "tree", "f"), "error": g[0]})
                    continue
                if g[0] != g[1]:
                    res.counters["stricter than the standard map"] = res.counters.get("stricter than the standard map", 0) + 1
                if c["kind"] != "bodies" or len(c["lines"]) > 3:
                    hashes.add("\n".join(text(c, "tree", "f")) + cfg)
                if len(res.samples) < 3 and len(c["lines"]) > 4:
                    res.samples.append({"program": text(c, "tree", "f"), "accepted": g[0], "tree": cfg})
                m = mismatch(*g)
                if m and not failed:
                    failed = (cfg, c, m)
    if not failed and not res.error:
        failed = traits(cc, res)
    if failed:
        cfg, c, m = failed
        if c["kind"] != "traits":
            c = shrink(cc, cfg, c, m)
        res.program_failure = dict(message=f"this program {m}:\n" + "\n".join(text(c, "tree", "f")), tree=cfg, case=c, expect=m)
    res.hashes |= {int(hashlib.sha256(s.encode()).hexdigest()[:15], 16) for s in hashes}


def traits(cc, res):
    """Handles that must not be duplicated."""
    probe = """pub struct Is<X: ?Sized>(PhantomData<X>);
pub trait No { const CLONE: bool = false; const COPY: bool = false; }
impl<X: ?Sized> No for Is<X> {}
impl<X: Clone> Is<X> { pub const CLONE: bool = true; }
impl<X: Copy> Is<X> { pub const COPY: bool = true; }
#[derive(PartialEq, Eq, PartialOrd, Ord)] pub struct Own1;
"""
    for cfg in CFGS:
        src = TREE % cfg + probe
        tc = trait_cases()
        for i, (h, t) in enumerate(tc):
            src += f'const C{i}: () = if <Is<{h}>>::{t.upper()} {{ panic!("case {i}!") }};\n'
        rc, err = cc.check(src + "fn main() {}\n", "traits")
        res.evaluations += len(tc)
        m = re.search(r"case (\d+)!", err)
        if m:
            h, t = tc[int(m.group(1))]
            return cfg, dict(head=both(f"// {h} is {t}: fn {{f}}() {{{{"), lines=[], kind="traits"), f"shows that {h} is {t}"
        if rc != 0:
            res.error = "the handles could not be judged: " + err[-1500:]
            return None
    return None


def shrink(cc, cfg, c, m):
    def fails(c):
        got = []
        for side in SIDES:
            g, _ = judge(cc, [c], side, cfg, "shrink")
            if g is None:
                return False
            got.append(g[0])
        return mismatch(*got) == m
    end = time.time() + 60
    go = True
    while go and time.time() < end:
        go = False
        i = 0
        while i < len(c["lines"]) and time.time() < end:
            # A line on its own, or a block with its contents, or a block without them.
            ls = c["lines"]
            cand = [ls[:i] + ls[i + 1:]]
            opened = ls[i][0].count("{") - ls[i][0].count("}")
            if opened > 0:
                d, k = 0, i
                while k < len(ls):
                    d += ls[k][0].count("{") - ls[k][0].count("}")
                    if d <= 0:
                        break
                    k += 1
                cand = [ls[:i] + ls[k + 1:], ls[:i] + ls[i + 1:k] + ls[k + 1:]]
            for q in cand:
                d = dict(c, lines=q)
                if fails(d):
                    c, go = d, True
                    break
            else:
                i += 1
    return c


def replay(rep, scratch, env, harness):
    cc = Rustc(scratch, env, harness)
    c = rep["case"]
    if c["kind"] == "traits":
        class R:
            evaluations, error = 0, None
        f = traits(cc, R)
        print("fails: " + f[2] if f else "holds")
        return 1 if f else 0
    got = [judge(cc, [c], side, rep["tree"], "replay")[0][0] for side in SIDES]
    m = mismatch(*got)
    print(f"fails: {m}" if m else f"holds {got}")
    return 1 if m else 0
