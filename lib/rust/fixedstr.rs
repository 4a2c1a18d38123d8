//! Stand-in for the crate fixedstr: strings of at most N-1 bytes, ended by a NUL.
use std::fmt;
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct zstr<const N: usize> { chars: [u8; N] }
pub type ztr8 = zstr<8>;
pub type ztr16 = zstr<16>;
pub type ztr32 = zstr<32>;
pub type ztr64 = zstr<64>;
pub type ztr128 = zstr<128>;
pub type ztr256 = zstr<256>;
impl<const N: usize> zstr<N> {
    pub fn from_raw(s: &[u8]) -> Self {
        let mut z = zstr { chars: [0; N] };
        let mut i = 0;
        while i + 1 < N && i < s.len() && s[i] != 0 { z.chars[i] = s[i]; i += 1; }
        z
    }
    pub fn new() -> Self { Self::from_raw(b"") }
    pub fn make(s: &str) -> Self { Self::from_raw(s.as_bytes()) }
    pub fn len(&self) -> usize { self.chars.iter().position(|c| *c == 0).unwrap_or(N) }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn as_bytes(&self) -> &[u8] { &self.chars[..self.len()] }
    pub fn as_str(&self) -> &str { std::str::from_utf8(self.as_bytes()).unwrap() }
    pub fn to_str(&self) -> &str { self.as_str() }
    pub fn find(&self, c: char) -> Option<usize> { self.as_str().find(c) }
    pub fn substr(&self, start: usize, end: usize) -> Self {
        let n = self.len();
        if start >= n || end <= start { return Self::new(); }
        Self::from_raw(&self.chars[start..end.min(n)])
    }
    pub fn resize<const M: usize>(&self) -> zstr<M> { zstr::<M>::from_raw(self.as_bytes()) }
}
impl<const N: usize> Default for zstr<N> { fn default() -> Self { Self::new() } }
impl<const N: usize> From<&str> for zstr<N> { fn from(s: &str) -> Self { Self::make(s) } }
impl<const N: usize> fmt::Display for zstr<N> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad(self.as_str()) } }
impl<const N: usize> fmt::Debug for zstr<N> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad(self.as_str()) } }
impl<const N: usize> PartialEq<&str> for zstr<N> { fn eq(&self, o: &&str) -> bool { self.as_str() == *o } }
impl<const N: usize> PartialEq<str> for zstr<N> { fn eq(&self, o: &str) -> bool { self.as_str() == o } }
