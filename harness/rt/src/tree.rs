//! Value trees (what the specification calls values) and seeded value
//! generation for the types definitions are made of.
use crate::Rng;
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::fmt::Write;
use std::hash::{BuildHasher, Hash};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::num::*;
use std::sync::Arc;

pub trait Tree: Sized {
    /// append the value as JSON
    fn tree(&self, o: &mut String);
    /// a seeded value; `w` is the number of low bits to prefer (0: any)
    fn gen(r: &mut Rng, h: Hint) -> Self;
}

/// What a field would like of its generated value.
#[derive(Clone, Copy)]
pub struct Hint {
    /// integers: prefer values of at most this many bits (0: no preference)
    pub bits: u32,
    /// collections: number of elements wanted (usize::MAX: few)
    pub len: usize,
}
pub const ANY: Hint = Hint { bits: 0, len: usize::MAX };
impl Hint {
    pub fn bits(bits: u32) -> Self {
        Hint { bits, len: usize::MAX }
    }
    fn count(&self, r: &mut Rng) -> usize {
        if self.len == usize::MAX { [0, 1, 1, 2, 2, 3, 4, 5][r.below(8)] } else { self.len }
    }
    fn inner(&self) -> Self {
        Hint { bits: self.bits, len: usize::MAX }
    }
}

pub fn put_bytes(o: &mut String, b: &[u8]) {
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{x}");
    }
    o.push(']');
}
fn put_seq<'a, T: Tree + 'a>(o: &mut String, k: char, it: impl Iterator<Item = &'a T>) {
    let _ = write!(o, "{{\"{k}\":[");
    for (i, x) in it.enumerate() {
        if i > 0 {
            o.push(',');
        }
        x.tree(o);
    }
    o.push_str("]}");
}

/// raw bits of an integer: mostly within the hinted size, sometimes at its edges, sometimes beyond
fn raw(r: &mut Rng, h: Hint, w: u32) -> u128 {
    let all = ((r.next() as u128) << 64) | r.next() as u128;
    let n = if h.bits == 0 || h.bits > w { w } else { h.bits };
    let mask = |n: u32| if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
    match r.below(12) {
        0 => 0,
        1 => mask(n),                                   // all ones
        2 => 1u128 << (n.max(1) - 1),                   // top bit of the field
        3 => mask(n.max(1) - 1),                        // signed maximum
        4 => u128::MAX << (n.max(1) - 1),               // signed minimum
        5 => u128::MAX,
        6 if n < w => 1u128 << n,                       // one too many
        7 if n < w => u128::MAX << n,                   // one below the signed minimum
        8 if n < w => all,
        9 => 1,
        _ => {
            // a value of the field's size, either sign
            let v = all & mask(n);
            if n < w && r.chance(1, 2) && n > 0 && (v >> (n - 1)) & 1 == 1 { v | (u128::MAX << n) } else { v }
        }
    }
}

macro_rules! ints { ($($t:ty),*) => {$(
    impl Tree for $t {
        fn tree(&self, o: &mut String) {
            o.push_str("{\"i\":");
            put_bytes(o, &self.to_be_bytes());
            o.push('}');
        }
        fn gen(r: &mut Rng, h: Hint) -> Self { raw(r, h, <$t>::BITS) as $t }
    }
)*}}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! floats { ($($t:ty, $u:ty);*) => {$(
    impl Tree for $t {
        fn tree(&self, o: &mut String) { self.to_bits().tree(o) }
        /// a quarter of them with all exponent bits set: infinities, and quiet and signalling NaNs of every payload; subnormals too
        fn gen(r: &mut Rng, h: Hint) -> Self {
            let b = <$u>::gen(r, h);
            let inf = <$t>::INFINITY.to_bits();
            <$t>::from_bits(match r.below(8) { 0 | 1 => b | inf, 2 => b & !inf, _ => b })
        }
    }
)*}}
floats!(f32, u32; f64, u64);

macro_rules! nonzero { ($($t:ty, $u:ty);*) => {$(
    impl Tree for $t {
        fn tree(&self, o: &mut String) { self.get().tree(o) }
        fn gen(r: &mut Rng, h: Hint) -> Self { <$t>::new(<$u>::gen(r, h)).unwrap_or(<$t>::MAX) }
    }
)*}}
nonzero!(NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32; NonZeroU64, u64; NonZeroU128, u128; NonZeroUsize, usize;
         NonZeroI8, i8; NonZeroI16, i16; NonZeroI32, i32; NonZeroI64, i64; NonZeroI128, i128; NonZeroIsize, isize);

impl Tree for bool {
    fn tree(&self, o: &mut String) { (*self as u8).tree(o) }
    fn gen(r: &mut Rng, _: Hint) -> Self { r.chance(1, 2) }
}
impl Tree for () {
    fn tree(&self, o: &mut String) { o.push_str("{\"s\":[]}") }
    fn gen(_: &mut Rng, _: Hint) -> Self {}
}
impl Tree for Ipv4Addr {
    fn tree(&self, o: &mut String) { u32::from(*self).tree(o) }
    fn gen(r: &mut Rng, h: Hint) -> Self { u32::gen(r, h).into() }
}
impl Tree for Ipv6Addr {
    fn tree(&self, o: &mut String) { u128::from(*self).tree(o) }
    /// half the time of one of the kinds an address library tells apart: mapped and embedded IPv4 above all
    fn gen(r: &mut Rng, h: Hint) -> Self {
        let v4 = r.next() as u32 as u128;
        match r.below(16) {
            0..=2 => (0xffff_0000_0000u128 | v4).into(),
            3 => v4.into(),
            4 => ((0x2002u128 << 112) | (v4 << 80) | v4).into(),
            5 => ((0x0064_ff9bu128 << 96) | v4).into(),
            6 => ((0xfe80u128 << 112) | v4).into(),
            7 => ((0xff02u128 << 112) | v4).into(),
            _ => u128::gen(r, h).into(),
        }
    }
}
impl Tree for IpAddr {
    fn tree(&self, o: &mut String) { match self { IpAddr::V4(a) => a.tree(o), IpAddr::V6(a) => a.tree(o) } }
    fn gen(r: &mut Rng, h: Hint) -> Self { if h.bits == 128 { Ipv6Addr::gen(r, h).into() } else { Ipv4Addr::gen(r, h).into() } }
}
impl<T: Tree> Tree for &'static [T] {
    fn tree(&self, o: &mut String) { put_seq(o, 'v', self.iter()) }
    fn gen(r: &mut Rng, h: Hint) -> Self { Box::leak(Box::<[T]>::gen(r, h)) }
}
impl<T: Tree> Tree for Vec<T> {
    fn tree(&self, o: &mut String) { put_seq(o, 'v', self.iter()) }
    fn gen(r: &mut Rng, h: Hint) -> Self {
        let n = h.count(r);
        (0..n).map(|_| T::gen(r, h.inner())).collect()
    }
}
impl<T: Tree, const N: usize> Tree for [T; N] {
    fn tree(&self, o: &mut String) { put_seq(o, 'v', self.iter()) }
    fn gen(r: &mut Rng, h: Hint) -> Self { std::array::from_fn(|_| T::gen(r, h.inner())) }
}
impl<T: Tree> Tree for Option<T> {
    fn tree(&self, o: &mut String) { put_seq(o, 'v', self.iter()) }
    fn gen(r: &mut Rng, h: Hint) -> Self {
        if r.chance(1, 3) { None } else { Some(T::gen(r, h)) }
    }
}
impl<T: Tree> Tree for Box<T> {
    fn tree(&self, o: &mut String) { (**self).tree(o) }
    fn gen(r: &mut Rng, h: Hint) -> Self { Box::new(T::gen(r, h)) }
}
impl<T: Tree> Tree for Box<[T]> {
    fn tree(&self, o: &mut String) { put_seq(o, 'v', self.iter()) }
    fn gen(r: &mut Rng, h: Hint) -> Self { Vec::gen(r, h).into_boxed_slice() }
}
impl<T: Tree> Tree for Arc<T> {
    fn tree(&self, o: &mut String) { (**self).tree(o) }
    fn gen(r: &mut Rng, h: Hint) -> Self { Arc::new(T::gen(r, h)) }
}
impl<T: Tree> Tree for Arc<[T]> {
    fn tree(&self, o: &mut String) { put_seq(o, 'v', self.iter()) }
    fn gen(r: &mut Rng, h: Hint) -> Self { Vec::gen(r, h).into() }
}
impl<T: Tree + Clone> Tree for Cow<'static, T> {
    fn tree(&self, o: &mut String) { self.as_ref().tree(o) }
    fn gen(r: &mut Rng, h: Hint) -> Self { Cow::Owned(T::gen(r, h)) }
}
impl Tree for CString {
    fn tree(&self, o: &mut String) { put_seq(o, 'v', self.as_bytes_with_nul().iter()) }
    fn gen(r: &mut Rng, h: Hint) -> Self {
        let n = if h.len == usize::MAX { r.below(5) } else { h.len.saturating_sub(1) };
        CString::new((0..n).map(|_| 1 + r.below(255) as u8).collect::<Vec<_>>()).unwrap()
    }
}
impl<K: Tree + Eq + Hash, V: Tree, S: BuildHasher + Default> Tree for HashMap<K, V, S> {
    fn tree(&self, o: &mut String) {
        o.push_str("{\"m\":[");
        for (i, (k, v)) in self.iter().enumerate() {
            o.push_str(if i > 0 { ",{\"s\":[" } else { "{\"s\":[" });
            k.tree(o);
            o.push(',');
            v.tree(o);
            o.push_str("]}");
        }
        o.push_str("]}");
    }
    fn gen(r: &mut Rng, h: Hint) -> Self {
        let n = h.count(r);
        let mut m = HashMap::default();
        for _ in 0..4 * n {
            if m.len() < n {
                m.insert(K::gen(r, h.inner()), V::gen(r, h.inner()));
            }
        }
        m
    }
}
impl<T: Tree + Eq + Hash, S: BuildHasher + Default> Tree for HashSet<T, S> {
    fn tree(&self, o: &mut String) { put_seq(o, 'm', self.iter()) }
    fn gen(r: &mut Rng, h: Hint) -> Self {
        let n = h.count(r);
        let mut m = HashSet::default();
        for _ in 0..4 * n {
            if m.len() < n {
                m.insert(T::gen(r, h.inner()));
            }
        }
        m
    }
}
macro_rules! tuples { ($($t:ident $i:tt),+) => {
    impl<$($t: Tree),+> Tree for ($($t,)+) {
        fn tree(&self, o: &mut String) {
            o.push_str("{\"v\":[");
            $( if $i > 0 { o.push(','); } self.$i.tree(o); )+
            o.push_str("]}");
        }
        fn gen(r: &mut Rng, h: Hint) -> Self { ($($t::gen(r, h.inner()),)+) }
    }
}}
tuples!(A 0);
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, D 3);
tuples!(A 0, B 1, C 2, D 3, E 4);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
