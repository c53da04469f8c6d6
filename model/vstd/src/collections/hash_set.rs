use super::hash_map::{self, HashMap, RandomState};
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::{BuildHasher, Hash};
use ::std::iter::FusedIterator;
use ::std::ops::{BitAnd, BitOr, BitXor, Sub};

pub struct HashSet<T, S = RandomState> {
    m: HashMap<T, (), S>,
}
impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self {
        HashSet { m: HashMap::new() }
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
}
impl<T, S> HashSet<T, S> {
    pub fn with_hasher(_s: S) -> Self {
        HashSet { m: HashMap::default() }
    }
    pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self {
        HashSet { m: HashMap::default() }
    }
    pub fn capacity(&self) -> usize {
        self.m.capacity()
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self.m.keys())
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn drain(&mut self) -> ::std::vec::IntoIter<T> {
        let v: Vec<T> = self.m.drain().map(|(k, _)| k).collect();
        v.into_iter()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        self.m.retain(|k, _| f(k))
    }
    pub fn extract_if<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> ::std::vec::IntoIter<T> {
        let v: Vec<T> = self.m.extract_if(|k, _| f(k)).map(|(k, _)| k).collect();
        v.into_iter()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
}
impl<T, S> HashSet<T, S>
where
    T: Eq + Hash,
    S: BuildHasher,
{
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn shrink_to(&mut self, _n: usize) {}
    pub fn contains<Q: ?Sized>(&self, v: &Q) -> bool
    where
        T: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.m.contains_key(v)
    }
    pub fn get<Q: ?Sized>(&self, v: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.m.get_key_value(v).map(|(k, _)| k)
    }
    pub fn insert(&mut self, v: T) -> bool {
        self.m.insert(v, ()).is_none()
    }
    pub fn replace(&mut self, v: T) -> Option<T> {
        let old = self.m.remove_entry(&v).map(|(k, _)| k);
        self.m.insert(v, ());
        old
    }
    pub fn remove<Q: ?Sized>(&mut self, v: &Q) -> bool
    where
        T: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.m.remove(v).is_some()
    }
    pub fn take<Q: ?Sized>(&mut self, v: &Q) -> Option<T>
    where
        T: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.m.remove_entry(v).map(|(k, _)| k)
    }
    pub fn is_subset(&self, o: &HashSet<T, S>) -> bool {
        self.len() <= o.len() && self.iter().all(|v| o.contains(v))
    }
    pub fn is_superset(&self, o: &HashSet<T, S>) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint(&self, o: &HashSet<T, S>) -> bool {
        self.iter().all(|v| !o.contains(v))
    }
    pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> Difference<'a, T, S> {
        Difference { it: self.iter(), o }
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> SymmetricDifference<'a, T, S> {
        SymmetricDifference(self.difference(o).chain(o.difference(self)))
    }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> Intersection<'a, T, S> {
        Intersection { it: self.iter(), o }
    }
    pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> Union<'a, T, S> {
        Union(self.iter().chain(o.difference(self)))
    }
}
impl<T: Clone, S> Clone for HashSet<T, S> {
    fn clone(&self) -> Self {
        HashSet { m: self.m.clone() }
    }
}
impl<T, S> PartialEq for HashSet<T, S>
where
    T: Eq + Hash,
    S: BuildHasher,
{
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|v| o.contains(v))
    }
}
impl<T, S> Eq for HashSet<T, S>
where
    T: Eq + Hash,
    S: BuildHasher,
{
}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
impl<T, S> Default for HashSet<T, S> {
    fn default() -> Self {
        HashSet { m: HashMap::default() }
    }
}
impl<T, S> FromIterator<T> for HashSet<T, S>
where
    T: Eq + Hash,
    S: BuildHasher + Default,
{
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut s = HashSet { m: HashMap::default() };
        for v in it {
            s.insert(v);
        }
        s
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T, S> Extend<T> for HashSet<T, S>
where
    T: Eq + Hash,
    S: BuildHasher,
{
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for v in it {
            self.insert(v);
        }
    }
}
impl<'a, T, S> Extend<&'a T> for HashSet<T, S>
where
    T: Eq + Hash + Copy + 'a,
    S: BuildHasher,
{
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for v in it {
            self.insert(*v);
        }
    }
}
pub struct Iter<'a, T>(hash_map::Keys<'a, T, ()>);
impl<T> Clone for Iter<'_, T> {
    fn clone(&self) -> Self {
        Iter(self.0.clone())
    }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    #[inline]
    fn next(&mut self) -> Option<&'a T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> ExactSizeIterator for Iter<'_, T> {}
impl<T> FusedIterator for Iter<'_, T> {}
pub struct IntoIter<T>(hash_map::IntoKeys<T, ()>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    #[inline]
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> FusedIterator for IntoIter<T> {}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.m.into_keys())
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
pub struct Difference<'a, T, S> {
    it: Iter<'a, T>,
    o: &'a HashSet<T, S>,
}
impl<'a, T: Eq + Hash, S: BuildHasher> Iterator for Difference<'a, T, S> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        loop {
            let v = self.it.next()?;
            if !self.o.contains(v) {
                return Some(v);
            }
        }
    }
}
pub struct Intersection<'a, T, S> {
    it: Iter<'a, T>,
    o: &'a HashSet<T, S>,
}
impl<'a, T: Eq + Hash, S: BuildHasher> Iterator for Intersection<'a, T, S> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        loop {
            let v = self.it.next()?;
            if self.o.contains(v) {
                return Some(v);
            }
        }
    }
}
pub struct Union<'a, T, S>(::std::iter::Chain<Iter<'a, T>, Difference<'a, T, S>>);
impl<'a, T: Eq + Hash, S: BuildHasher> Iterator for Union<'a, T, S> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.0.next()
    }
}
pub struct SymmetricDifference<'a, T, S>(::std::iter::Chain<Difference<'a, T, S>, Difference<'a, T, S>>);
impl<'a, T: Eq + Hash, S: BuildHasher> Iterator for SymmetricDifference<'a, T, S> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.0.next()
    }
}
macro_rules! op {
    ($tr:ident, $f:ident, $m:ident) => {
        impl<T, S> $tr<&HashSet<T, S>> for &HashSet<T, S>
        where
            T: Eq + Hash + Clone,
            S: BuildHasher + Default,
        {
            type Output = HashSet<T, S>;
            fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> {
                self.$m(o).cloned().collect()
            }
        }
    };
}
op!(BitOr, bitor, union);
op!(BitAnd, bitand, intersection);
op!(BitXor, bitxor, symmetric_difference);
op!(Sub, sub, difference);
