use ::std::borrow::Borrow;
use ::std::collections::TryReserveError;
use ::std::fmt;
use ::std::hash::{BuildHasher, Hash};
use ::std::iter::FusedIterator;
use ::std::marker::PhantomData;
use ::std::ops::Index;

pub use ::std::collections::hash_map::{DefaultHasher, RandomState};

pub struct HashMap<K, V, S = RandomState> {
    pub(crate) e: Vec<(K, V)>,
    s: PhantomData<S>,
}

impl<K, V> HashMap<K, V, RandomState> {
    #[inline]
    pub fn new() -> Self {
        HashMap { e: Vec::new(), s: PhantomData }
    }
    #[inline]
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
}

impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(_s: S) -> Self {
        HashMap { e: Vec::new(), s: PhantomData }
    }
    pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self {
        HashMap { e: Vec::new(), s: PhantomData }
    }
    pub fn capacity(&self) -> usize {
        self.e.capacity()
    }
    pub fn keys(&self) -> Keys<'_, K, V> {
        Keys(self.iter())
    }
    pub fn into_keys(self) -> IntoKeys<K, V> {
        IntoKeys(self.e.into_iter())
    }
    pub fn values(&self) -> Values<'_, K, V> {
        Values(self.iter())
    }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
        ValuesMut(self.iter_mut())
    }
    pub fn into_values(self) -> IntoValues<K, V> {
        IntoValues(self.e.into_iter())
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter(self.e.iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut(self.e.iter_mut())
    }
    pub fn len(&self) -> usize {
        self.e.len()
    }
    pub fn is_empty(&self) -> bool {
        self.e.is_empty()
    }
    pub fn drain(&mut self) -> Drain<'_, K, V> {
        Drain(self.e.drain(..))
    }
    pub fn extract_if<F>(&mut self, mut pred: F) -> ::std::vec::IntoIter<(K, V)>
    where
        F: FnMut(&K, &mut V) -> bool,
    {
        let mut out = Vec::new();
        let mut i = 0;
        while i < self.e.len() {
            let (k, v) = &mut self.e[i];
            if pred(k, v) {
                out.push(self.e.remove(i));
            } else {
                i += 1;
            }
        }
        out.into_iter()
    }
    pub fn retain<F>(&mut self, mut f: F)
    where
        F: FnMut(&K, &mut V) -> bool,
    {
        self.e.retain_mut(|(k, v)| f(k, v))
    }
    pub fn clear(&mut self) {
        self.e.clear()
    }
}

impl<K, V, S> HashMap<K, V, S>
where
    K: Eq + Hash,
    S: BuildHasher,
{
    #[inline]
    fn find<Q: ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
        Q: Eq,
    {
        let mut i = 0;
        while i < self.e.len() {
            if self.e[i].0.borrow() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub(crate) fn push_new(&mut self, k: K, v: V) -> usize {
        let p = crate::order::pos(self.e.len());
        self.e.insert(p, (k, v));
        p
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn try_reserve(&mut self, _n: usize) -> Result<(), TryReserveError> {
        Ok(())
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn shrink_to(&mut self, _n: usize) {}
    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
        match self.find(&key) {
            Some(i) => Entry::Occupied(OccupiedEntry { e: &mut self.e, i }),
            None => Entry::Vacant(VacantEntry { e: &mut self.e, key }),
        }
    }
    pub fn get<Q: ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => Some(&self.e[i].1),
            None => None,
        }
    }
    pub fn get_key_value<Q: ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => Some((&self.e[i].0, &self.e[i].1)),
            None => None,
        }
    }
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.find(k).is_some()
    }
    pub fn get_mut<Q: ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => Some(&mut self.e[i].1),
            None => None,
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(::std::mem::replace(&mut self.e[i].1, v)),
            None => {
                self.push_new(k, v);
                None
            }
        }
    }
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => Some(self.e.remove(i).1),
            None => None,
        }
    }
    pub fn remove_entry<Q: ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        match self.find(k) {
            Some(i) => Some(self.e.remove(i)),
            None => None,
        }
    }
}

impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        HashMap { e: self.e.clone(), s: PhantomData }
    }
}
impl<K, V, S> PartialEq for HashMap<K, V, S>
where
    K: Eq + Hash,
    V: PartialEq,
    S: BuildHasher,
{
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| *v == *w))
    }
}
impl<K, V, S> Eq for HashMap<K, V, S>
where
    K: Eq + Hash,
    V: Eq,
    S: BuildHasher,
{
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
impl<K, V, S> Default for HashMap<K, V, S> {
    fn default() -> Self {
        HashMap { e: Vec::new(), s: PhantomData }
    }
}
impl<K, Q: ?Sized, V, S> Index<&Q> for HashMap<K, V, S>
where
    K: Eq + Hash + Borrow<Q>,
    Q: Eq + Hash,
    S: BuildHasher,
{
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
impl<K, V, S> FromIterator<(K, V)> for HashMap<K, V, S>
where
    K: Eq + Hash,
    S: BuildHasher + Default,
{
    fn from_iter<T: IntoIterator<Item = (K, V)>>(it: T) -> Self {
        let mut m = HashMap { e: Vec::new(), s: PhantomData };
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K, V, S> Extend<(K, V)> for HashMap<K, V, S>
where
    K: Eq + Hash,
    S: BuildHasher,
{
    fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, it: T) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<'a, K, V, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S>
where
    K: Eq + Hash + Copy,
    V: Copy,
    S: BuildHasher,
{
    fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: T) {
        for (k, v) in it {
            self.insert(*k, *v);
        }
    }
}

pub struct Iter<'a, K, V>(::std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self {
        Iter(self.0.clone())
    }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some((k, v)) => Some((k, v)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Iter<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}
pub struct IterMut<'a, K, V>(::std::slice::IterMut<'a, (K, V)>);
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some((k, v)) => Some((&*k, v)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
pub struct IntoIter<K, V>(::std::vec::IntoIter<(K, V)>);
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Clone for Keys<'a, K, V> {
    fn clone(&self) -> Self {
        Keys(self.0.clone())
    }
}
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    #[inline]
    fn next(&mut self) -> Option<&'a K> {
        match self.0.next() {
            Some((k, _)) => Some(k),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K: fmt::Debug, V> fmt::Debug for Keys<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}
pub struct Values<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Clone for Values<'a, K, V> {
    fn clone(&self) -> Self {
        Values(self.0.clone())
    }
}
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    #[inline]
    fn next(&mut self) -> Option<&'a V> {
        match self.0.next() {
            Some((_, v)) => Some(v),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K, V: fmt::Debug> fmt::Debug for Values<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    #[inline]
    fn next(&mut self) -> Option<&'a mut V> {
        match self.0.next() {
            Some((_, v)) => Some(v),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
pub struct IntoKeys<K, V>(::std::vec::IntoIter<(K, V)>);
impl<K, V> Iterator for IntoKeys<K, V> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        self.0.next().map(|(k, _)| k)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
pub struct IntoValues<K, V>(::std::vec::IntoIter<(K, V)>);
impl<K, V> Iterator for IntoValues<K, V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.0.next().map(|(_, v)| v)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
pub struct Drain<'a, K, V>(::std::vec::Drain<'a, (K, V)>);
impl<K, V> Iterator for Drain<'_, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
macro_rules! exact { ($($t:ident $lt:tt),*) => { $( exact!(@ $t $lt); )* };
    (@ $t:ident own) => { impl<K, V> ExactSizeIterator for $t<K, V> {} impl<K, V> FusedIterator for $t<K, V> {} };
    (@ $t:ident rf) => { impl<'a, K, V> ExactSizeIterator for $t<'a, K, V> {} impl<'a, K, V> FusedIterator for $t<'a, K, V> {} };
}
exact!(Iter rf, IterMut rf, Keys rf, Values rf, ValuesMut rf, Drain rf, IntoIter own, IntoKeys own, IntoValues own);

impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        IntoIter(self.e.into_iter())
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}

pub enum Entry<'a, K: 'a, V: 'a> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    e: &'a mut Vec<(K, V)>,
    i: usize,
}
pub struct VacantEntry<'a, K, V> {
    e: &'a mut Vec<(K, V)>,
    key: K,
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, d: V) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => v.insert(d),
        }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => v.insert(f()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => {
                let x = f(v.key());
                v.insert(x)
            }
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(Default::default)
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => o.key(),
            Entry::Vacant(v) => v.key(),
        }
    }
    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
        match self {
            Entry::Occupied(mut o) => {
                f(o.get_mut());
                Entry::Occupied(o)
            }
            v => v,
        }
    }
    pub fn insert_entry(self, value: V) -> OccupiedEntry<'a, K, V> {
        match self {
            Entry::Occupied(mut o) => {
                o.insert(value);
                o
            }
            Entry::Vacant(v) => v.insert_entry(value),
        }
    }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.e[self.i].0
    }
    pub fn get(&self) -> &V {
        &self.e[self.i].1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.e[self.i].1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.e[self.i].1
    }
    pub fn insert(&mut self, v: V) -> V {
        ::std::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.e.remove(self.i).1
    }
    pub fn remove_entry(self) -> (K, V) {
        self.e.remove(self.i)
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn into_key(self) -> K {
        self.key
    }
    pub fn insert(self, v: V) -> &'a mut V {
        let p = crate::order::pos(self.e.len());
        self.e.insert(p, (self.key, v));
        &mut self.e[p].1
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
        let p = crate::order::pos(self.e.len());
        self.e.insert(p, (self.key, v));
        OccupiedEntry { e: self.e, i: p }
    }
}
