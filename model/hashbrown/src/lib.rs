//! Stands in for the `hashbrown` crate in the analysed program: a hash table as its documentation describes it,
//! without the memory layout. Two different keys may have the same hash, a table may be rehashed at every insertion,
//! and nothing is known about the order of the entries. Compiled, never run.
#![allow(unused_variables, invalid_reference_casting, clippy::all)]

/// Are two hash codes equal? Always for the same data, maybe for different data.
pub fn same_hash(a: u64, b: u64) -> bool { unimplemented!() }
/// The state of a hasher after more data.
pub fn mix(state: u64, data: &[u8]) -> u64 { unimplemented!() }
/// The state of a hasher after a number of the given size.
pub fn mix_int(state: u64, size: u64, data: u64) -> u64 { unimplemented!() }
/// An arbitrary answer.
pub fn maybe() -> bool { unimplemented!() }

#[derive(Clone)]
pub struct Hash(u64);
impl std::hash::Hasher for Hash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) { self.0 = mix(self.0, bytes) }
    fn write_u8(&mut self, i: u8) { self.0 = mix_int(self.0, 1, i as u64) }
    fn write_u16(&mut self, i: u16) { self.0 = mix_int(self.0, 2, i as u64) }
    fn write_u32(&mut self, i: u32) { self.0 = mix_int(self.0, 4, i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = mix_int(self.0, 8, i) }
    fn write_usize(&mut self, i: usize) { self.0 = mix_int(self.0, 8, i as u64) }
}

pub mod hash_map {
    #[derive(Clone, Default)]
    pub struct DefaultHashBuilder;
    impl std::hash::BuildHasher for DefaultHashBuilder {
        type Hasher = crate::Hash;
        fn build_hasher(&self) -> crate::Hash { crate::Hash(0) }
    }
}

pub mod raw {
    use crate::{maybe, same_hash};

    pub struct RawTable<T> { items: Vec<(u64, T)> }

    pub struct Bucket<T> { at: usize, ptr: *mut T }
    impl<T> Clone for Bucket<T> { fn clone(&self) -> Self { Bucket { at: self.at, ptr: self.ptr } } }
    impl<T> Bucket<T> {
        pub unsafe fn as_ref<'a>(&self) -> &'a T { &*self.ptr }
        pub unsafe fn as_mut<'a>(&self) -> &'a mut T { &mut *self.ptr }
        pub fn as_ptr(&self) -> *mut T { self.ptr }
    }

    impl<T> Default for RawTable<T> { fn default() -> Self { Self::new() } }

    impl<T> RawTable<T> {
        pub const fn new() -> Self { RawTable { items: Vec::new() } }
        pub fn with_capacity(n: usize) -> Self { Self::new() }
        pub fn len(&self) -> usize { self.items.len() }
        pub fn is_empty(&self) -> bool { self.items.is_empty() }
        pub fn clear(&mut self) { self.items.clear() }
        pub fn clear_no_drop(&mut self) { self.items.clear() }
        pub fn reserve(&mut self, n: usize, hasher: impl Fn(&T) -> u64) {
            if maybe() { self.rehash(hasher) }
        }
        pub fn shrink_to(&mut self, n: usize, hasher: impl Fn(&T) -> u64) {
            if maybe() { self.rehash(hasher) }
        }
        fn rehash(&mut self, hasher: impl Fn(&T) -> u64) {
            let mut i = 0;
            while i < self.items.len() {
                self.items[i].0 = hasher(&self.items[i].1);
                i += 1;
            }
        }
        fn position(&mut self, hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<usize> {
            let n = self.items.len();
            let backward = n > 1 && maybe();
            let mut k = 0;
            while k < n {
                let i = if backward { n - 1 - k } else { k };
                if same_hash(self.items[i].0, hash) && eq(&self.items[i].1) {
                    return Some(i);
                }
                k += 1;
            }
            None
        }
        pub fn insert_entry(&mut self, hash: u64, value: T, hasher: impl Fn(&T) -> u64) -> &mut T {
            if maybe() { self.rehash(hasher) }
            let at = self.items.len();
            self.items.push((hash, value));
            &mut self.items[at].1
        }
        pub fn insert(&mut self, hash: u64, value: T, hasher: impl Fn(&T) -> u64) -> Bucket<T> {
            if maybe() { self.rehash(hasher) }
            let at = self.items.len();
            self.items.push((hash, value));
            Bucket { at, ptr: &mut self.items[at].1 }
        }
        pub fn remove_entry(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<T> {
            let i = self.position(hash, eq)?;
            Some(self.items.remove(i).1)
        }
        pub fn erase_entry(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> bool {
            self.remove_entry(hash, eq).is_some()
        }
        pub fn find(&self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<Bucket<T>> {
            let this = unsafe { &mut *(self as *const Self as *mut Self) };
            let at = this.position(hash, eq)?;
            Some(Bucket { at, ptr: &mut this.items[at].1 })
        }
        pub fn get(&self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<&T> {
            let this = unsafe { &mut *(self as *const Self as *mut Self) };
            let at = this.position(hash, eq)?;
            Some(&this.items[at].1)
        }
        pub fn get_mut(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<&mut T> {
            let at = self.position(hash, eq)?;
            Some(&mut self.items[at].1)
        }
        pub unsafe fn remove(&mut self, item: Bucket<T>) -> T { self.items.remove(item.at).1 }
        pub unsafe fn erase(&mut self, item: Bucket<T>) { self.items.remove(item.at); }
        pub unsafe fn erase_no_drop(&mut self, item: &Bucket<T>) { self.items.remove(item.at); }
    }
}
