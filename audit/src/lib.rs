//! The contracts 00_shim.vspec assumes for std's number conversions, decided by Kani on the real
//! std code, for every value of the type (no loop depends on the input, so nothing is bounded).
//! One harness per assumed contract; the comment names it.
#![cfg(kani)]
use std::convert::TryFrom;
use std::time::Duration;

fn un(b: &[u8]) -> u64 {
    // un2, un4, ... of the shim: the little-endian number of b
    let mut r = 0u64;
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        r = r * 256 + b[i] as u64;
    }
    r
}
fn un128(b: &[u8]) -> u128 {
    let mut r = 0u128;
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        r = r * 256 + b[i] as u128;
    }
    r
}
macro_rules! ints {
    ($m:ident, $t:ty, $n:expr) => {
        mod $m {
            use super::*;
            #[kani::proof]
            fn to_le_bytes() {
                let x: $t = kani::any();
                let b = x.to_le_bytes();
                let mut i = 0;
                let mut v = x as u128;
                while i < $n {
                    assert!(b[i] as u128 == v % 256);
                    v /= 256;
                    i += 1;
                }
            }
            #[kani::proof]
            fn to_be_bytes() {
                let x: $t = kani::any();
                let b = x.to_be_bytes();
                let mut i = 0;
                let mut v = x as u128;
                while i < $n {
                    assert!(b[$n - 1 - i] as u128 == v % 256);
                    v /= 256;
                    i += 1;
                }
            }
            #[kani::proof]
            fn from_le_bytes() {
                let b: [u8; $n] = kani::any();
                assert!(<$t>::from_le_bytes(b) as u128 == un128(&b));
            }
            #[kani::proof]
            fn from_be_bytes() {
                let b: [u8; $n] = kani::any();
                let mut c = b;
                c.reverse();
                assert!(<$t>::from_be_bytes(b) as u128 == un128(&c));
            }
            #[kani::proof]
            fn from_bool() {
                let b: bool = kani::any();
                assert!(<$t>::from(b) == if b { 1 } else { 0 });
            }
        }
    };
}
ints!(int_u8, u8, 1);
ints!(int_u16, u16, 2);
ints!(int_u32, u32, 4);
ints!(int_u64, u64, 8);
ints!(int_usize, usize, 8);

#[kani::proof]
fn f32_bits_round_trip() {
    let b: u32 = kani::any();
    // f32_bits(f) is to_bits(f); the shim's contracts for the byte conversions of f32
    let f = f32::from_bits(b);
    assert!(f.to_bits() == b);
    assert!(un(&f.to_le_bytes()) == b as u64);
    let mut r = f.to_be_bytes();
    r.reverse();
    assert!(un(&r) == b as u64);
}
#[kani::proof]
fn f32_from_bytes() {
    let b: [u8; 4] = kani::any();
    assert!(f32::from_le_bytes(b).to_bits() as u64 == un(&b));
    let mut c = b;
    c.reverse();
    assert!(f32::from_be_bytes(b).to_bits() as u64 == un(&c));
}
#[kani::proof]
fn f32_nan() {
    assert!(f32::NAN.to_bits() == 0x7fc00000);
}
macro_rules! narrow {
    ($($m:ident $a:ty => $b:ty;)*) => { $(
        #[kani::proof]
        fn $m() {
            let x: $a = kani::any();
            match <$b>::try_from(x) {
                Ok(y) => assert!(y as u128 == x as u128),
                Err(_) => assert!(x as u128 > <$b>::MAX as u128),
            }
        }
    )* };
}
narrow! {
    try_u64_u8 u64 => u8; try_usize_u8 usize => u8; try_u32_u8 u32 => u8; try_u16_u8 u16 => u8;
    try_usize_u16 usize => u16; try_u32_u16 u32 => u16; try_u64_u16 u64 => u16;
    try_usize_u32 usize => u32; try_u64_u32 u64 => u32; try_u128_u32 u128 => u32; try_u128_u64 u128 => u64;
    try_u32_usize u32 => usize;
}
#[kani::proof]
fn try_i64_u32() {
    let x: i64 = kani::any();
    match u32::try_from(x) {
        Ok(y) => assert!(y as i128 == x as i128),
        Err(_) => assert!(x < 0 || x > u32::MAX as i64),
    }
}
#[kani::proof]
fn duration_parts() {
    let s: u64 = kani::any();
    let n: u32 = kani::any();
    kani::assume(n < 1_000_000_000);
    let d = Duration::new(s, n);
    assert!(d.as_secs() == s);
    assert!(d.subsec_nanos() == n && d.subsec_micros() == n / 1000 && d.subsec_millis() == n / 1_000_000);
    assert!(Duration::from_secs(s) == Duration::new(s, 0));
    assert!(Duration::default() == Duration::new(0, 0));
}
#[kani::proof]
fn duration_as_nanos() {
    let s: u64 = kani::any();
    let n: u32 = kani::any();
    kani::assume(n < 1_000_000_000);
    assert!(Duration::new(s, n).as_nanos() == s as u128 * 1_000_000_000 + n as u128);
}
#[kani::proof]
fn option_and_result() {
    let a: Result<u8, u8> = kani::any();
    let o: Option<u8> = kani::any();
    let p: Option<u8> = kani::any();
    let d: u8 = kani::any();
    assert!(a.unwrap_or(d) == match a { Ok(v) => v, Err(_) => d });
    assert!(a.unwrap_or_default() == match a { Ok(v) => v, Err(_) => 0 });
    let b: Result<u16, u8> = kani::any();
    assert!(a.and(b) == match a { Ok(_) => b, Err(e) => Err(e) });
    assert!(o.or(p) == match o { Some(_) => o, None => p });
    assert!(o.as_ref().copied() == o);
}
#[kani::proof]
fn replace_and_swap() {
    let mut x: [u8; 5] = kani::any();
    let old = x;
    let v: [u8; 5] = kani::any();
    assert!(std::mem::replace(&mut x, v) == old && x == v);
    let i: usize = kani::any();
    let j: usize = kani::any();
    kani::assume(i < 5 && j < 5);
    let before = x;
    x.swap(i, j);
    let mut k = 0;
    while k < 5 {
        assert!(x[k] == if k == i { before[j] } else if k == j { before[i] } else { before[k] });
        k += 1;
    }
}
