//! Stand-in for the `min-max-heap` git dependency (not fetchable here): a double-ended
//! priority queue with the same interface, kept as a sorted vector (stable for equal elements).
use std::ops::{Deref, DerefMut};

#[derive(Clone, Debug)]
pub struct MinMaxHeap<T> {
    v: Vec<T>, // ascending
}
impl<T: Ord> Default for MinMaxHeap<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Ord> MinMaxHeap<T> {
    pub fn new() -> Self {
        MinMaxHeap { v: Vec::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        MinMaxHeap { v: Vec::with_capacity(n) }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn push(&mut self, x: T) {
        let mut i = self.v.len();
        while i > 0 && self.v[i - 1] > x {
            i -= 1;
        }
        self.v.insert(i, x);
    }
    pub fn peek_min(&self) -> Option<&T> {
        self.v.first()
    }
    pub fn peek_max(&self) -> Option<&T> {
        self.v.last()
    }
    pub fn pop_min(&mut self) -> Option<T> {
        if self.v.is_empty() {
            None
        } else {
            Some(self.v.remove(0))
        }
    }
    pub fn pop_max(&mut self) -> Option<T> {
        self.v.pop()
    }
    pub fn replace_min(&mut self, x: T) -> Option<T> {
        let old = self.pop_min();
        self.push(x);
        old
    }
    pub fn replace_max(&mut self, x: T) -> Option<T> {
        let old = self.pop_max();
        self.push(x);
        old
    }
    pub fn push_pop_min(&mut self, x: T) -> T {
        self.push(x);
        self.pop_min().unwrap()
    }
    pub fn push_pop_max(&mut self, x: T) -> T {
        self.push(x);
        self.pop_max().unwrap()
    }
    pub fn peek_max_mut(&mut self) -> Option<PeekMaxMut<T>> {
        if self.v.is_empty() {
            None
        } else {
            Some(PeekMaxMut { heap: self, live: true })
        }
    }
    pub fn into_vec(self) -> Vec<T> {
        self.v
    }
    pub fn into_vec_asc(self) -> Vec<T> {
        self.v
    }
    pub fn into_vec_desc(mut self) -> Vec<T> {
        self.v.reverse();
        self.v
    }
    pub fn iter(&self) -> std::slice::Iter<T> {
        self.v.iter()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
}
pub struct PeekMaxMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    live: bool,
}
impl<'a, T: Ord> PeekMaxMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.live = false;
        self.heap.v.pop().unwrap()
    }
}
impl<'a, T: Ord> Deref for PeekMaxMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.heap.v.last().unwrap()
    }
}
impl<'a, T: Ord> DerefMut for PeekMaxMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.heap.v.last_mut().unwrap()
    }
}
impl<'a, T: Ord> Drop for PeekMaxMut<'a, T> {
    fn drop(&mut self) {
        if self.live {
            let x = self.heap.v.pop().unwrap();
            self.heap.push(x);
        }
    }
}
pub struct IntoIter<T>(std::vec::IntoIter<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
}
impl<T> IntoIterator for MinMaxHeap<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.v.into_iter())
    }
}
