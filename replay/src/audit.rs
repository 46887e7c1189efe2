//! `replay AUDIT ...`: the contracts spec/00_shim.vspec ASSUMES for std and for the dependencies,
//! executed on the real functions. Bounded (seeded inputs); the number conversions are decided for
//! every value by Kani instead (audit/src/lib.rs). Named after the shim item they exercise.
use crate::harness::Rec;
use blake2_rfc::blake2s::Blake2s;
use ed25519_dalek::{Keypair, PublicKey, Signature, Signer, Verifier};
use hacl_star::{chacha20poly1305 as aead, curve25519 as c25519};
use rand::{Rng, RngCore};
use std::convert::{TryFrom, TryInto};
use std::io::Write;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use stratumv2::bitcoin::util::base58;
use zeroize::Zeroize;

/// accepts at most `step` bytes per call and fails for good after `left` bytes
struct Short {
    got: Vec<u8>,
    step: usize,
    left: usize,
}
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.left);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.got.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn bytes(r: &mut Rec) -> Vec<u8> {
    let n = r.rng.below(70);
    let k = r.rng.below(3);
    let mut v = r.rng.bytes(n);
    if k == 0 {
        v.iter_mut().for_each(|b| *b &= 0x7f);
    }
    v
}
fn text(r: &mut Rec) -> String {
    let n = r.rng.below(40);
    let pool: Vec<char> = "aA0fF9gG zZ@`/:é\u{0}ß∀😀\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}".chars().collect();
    (0..n).map(|_| *r.rng.pick(&pool)).collect()
}
/// encode_utf8 of vstd, written out
fn utf8(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        let c = c as u32;
        if c < 0x80 {
            v.push(c as u8)
        } else if c < 0x800 {
            v.extend_from_slice(&[0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8])
        } else if c < 0x10000 {
            v.extend_from_slice(&[0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8])
        } else {
            v.extend_from_slice(&[0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8])
        }
    }
    v
}
/// valid_utf8 of vstd (the Unicode definition), written out
fn is_utf8(b: &[u8]) -> bool {
    let cont = |i: usize| b.get(i).map_or(false, |x| x & 0xc0 == 0x80);
    let mut i = 0;
    while i < b.len() {
        let x = b[i] as u32;
        let at = |k: usize| (b[i + k] & 63) as u32;
        if x < 0x80 {
            i += 1;
        } else if x & 0xe0 == 0xc0 && cont(i + 1) && (x & 31) >= 2 {
            i += 2;
        } else if x & 0xf0 == 0xe0 && cont(i + 1) && cont(i + 2) {
            let c = (x & 15) << 12 | at(1) << 6 | at(2);
            if c < 0x800 || (0xd800..0xe000).contains(&c) {
                return false;
            }
            i += 3;
        } else if x & 0xf8 == 0xf0 && cont(i + 1) && cont(i + 2) && cont(i + 3) {
            let c = (x & 7) << 18 | at(1) << 12 | at(2) << 6 | at(3);
            if c < 0x10000 || c > 0x10ffff {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
fn digit(c: char) -> Option<u8> {
    match c {
        '0'..='9' => Some(c as u8 - b'0'),
        'a'..='f' => Some(c as u8 - b'a' + 10),
        'A'..='F' => Some(c as u8 - b'A' + 10),
        _ => None,
    }
}

pub fn run(r: &mut Rec) {
    r.rule = "seeded inputs to the real std and dependency functions whose contracts are assumed".into();
    macro_rules! ok {
        ($r:expr, $what:expr, $cond:expr, $input:expr) => {{
            let c = $cond;
            $r.check(c, || format!("assumed contract of {} is false", $what), || format!("{:?}", $input));
        }};
    }
    let rounds = r.cap(2000);
    for _ in 0..rounds {
        if !r.more() {
            break;
        }
        let a = bytes(r);
        let b = if r.rng.chance(3) { a.clone() } else { bytes(r) };
        r.case(&(a.clone(), b.clone()));
        let ab = [&a[..], &b[..]].concat();
        // ---- std: buffers
        let mut v = a.clone();
        v.extend_from_slice(&b);
        ok!(r, "Vec::extend_from_slice", v == ab, (&a, &b));
        let mut v = a.clone();
        v.extend(&b);
        ok!(r, "Vec::extend", v == ab, (&a, &b));
        let same = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y);
        ok!(r, "== on vectors", (a == b) == same, (&a, &b));
        ok!(r, "== on slices", (a[..] == b[..]) == same && (a == &b[..]) == same && (&a[..] == b) == same, (&a, &b));
        ok!(r, "constant_time_eq", constant_time_eq::constant_time_eq(&a, &b) == same, (&a, &b));
        let x = *r.rng.pick(&[0u8, 1, 127, 255]);
        ok!(r, "slice::contains", a.contains(&x) == a.iter().any(|y| *y == x), (&a, x));
        let n = r.rng.below(a.len() + 1);
        let mut v = a.clone();
        let d: Vec<u8> = v.drain(..n).collect();
        ok!(r, "Vec::drain(..n)", d == a[..n] && v == a[n..], (&a, n));
        let mut v = a.clone();
        let d: Vec<u8> = v.drain(..).collect();
        ok!(r, "Vec::drain(..)", d == a && v.is_empty(), &a);
        let mut v = a.clone();
        let t = std::mem::take(&mut v);
        ok!(r, "mem::take", t == a && v.is_empty(), &a);
        ok!(r, "vec![x; n]", vec![x; n].len() == n && vec![x; n].iter().all(|y| *y == x), (x, n));
        let mut v = a.clone();
        v.fill(x);
        ok!(r, "slice::fill", v == vec![x; a.len()], (&a, x));
        let mut v = a.clone();
        v.zeroize();
        ok!(r, "Zeroize for Vec/slice", v.iter().all(|y| *y == 0), &a);
        let mut v = a.clone();
        v[..].zeroize();
        ok!(r, "Zeroize for [u8]", v == vec![0; a.len()], &a);
        let mut k = r.rng.arr32();
        let k0 = k;
        k.zeroize();
        ok!(r, "Zeroize for [u8; N]", k == [0; 32], k0);
        let c: Result<[u8; 32], _> = a[..].try_into();
        ok!(r, "TryFrom<&[u8]> for [u8; N]", c.map(|y| y.to_vec()).ok() == if a.len() == 32 { Some(a.clone()) } else { None }, &a);
        let c: Result<[u8; 32], Vec<u8>> = a.clone().try_into();
        ok!(r, "TryFrom<Vec<u8>> for [u8; N]", c.map(|y| y.to_vec()).ok() == if a.len() == 32 { Some(a.clone()) } else { None }, &a);
        ok!(r, "usize to u32", u32::try_from(n).ok() == Some(n as u32), n);
        // ---- std: io::Write
        let mut w = b.clone();
        let (y, z) = (w.write(&a).ok(), w.flush().is_ok());
        ok!(r, "Write for Vec", y == Some(a.len()) && z && w == [&b[..], &a[..]].concat(), (&a, &b));
        let mut w = Short { got: b.clone(), step: 1 + n, left: r.rng.below(90) };
        let room = w.left;
        let y = w.write_all(&a).is_ok();
        let sent = &w.got[b.len()..];
        ok!(r, "Write::write_all", w.got.starts_with(&b) && a.starts_with(sent) && (!y || sent == &a[..]) && y == (room >= a.len()), (&a, room));
        // ---- std: text
        let s = text(r);
        let s2 = if r.rng.chance(2) { s.clone() } else { text(r) };
        ok!(r, "String::as_bytes / len", s.as_bytes() == &utf8(&s)[..] && s.len() == utf8(&s).len(), &s);
        ok!(r, "chars().count()", s.chars().count() == s.chars().map(|_| 1).sum::<usize>(), &s);
        ok!(r, "== on text", (s == s2) == s.chars().eq(s2.chars()) && (&s[..] == s2) == (s == s2), (&s, &s2));
        let mut t = if r.rng.chance(2) { utf8(&s) } else { a.clone() };
        if !t.is_empty() && r.rng.chance(2) {
            let i = r.rng.below(t.len());
            t[i] = *r.rng.pick(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xa0, 0xf0, 0xf4, 0x8f, 0x90, 0xf5, 0xff]);
        }
        let u = String::from_utf8(t.clone());
        ok!(r, "String::from_utf8", u.is_ok() == is_utf8(&t) && u.as_ref().map_or(true, |u| utf8(u) == t), &t);
        ok!(r, "Display for str (no width)", format!("{}", s) == s && s.to_string() == s, &s);
        // ---- std: time
        let secs = *r.rng.pick(&[0u64, 1, 59, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40]) + r.rng.below(3) as u64;
        let nanos = *r.rng.pick(&[0u32, 1, 499_999_999, 500_000_000, 999_999_999]);
        let d = Duration::new(secs, nanos);
        let (later, earlier) = (UNIX_EPOCH + d, UNIX_EPOCH - d);
        let zero = d == Duration::new(0, 0);
        ok!(r, "SystemTime::duration_since (after)", later.duration_since(UNIX_EPOCH).ok() == Some(d), d);
        ok!(r, "SystemTime::duration_since (before)", earlier.duration_since(UNIX_EPOCH).is_ok() == zero, d);
        ok!(r, "Duration::as_secs", d.as_secs() as u128 == d.as_nanos() / 1_000_000_000 && d.as_millis() == d.as_nanos() / 1_000_000 && d.as_micros() == d.as_nanos() / 1000, d);
        ok!(r, "SystemTime::now", SystemTime::now() > UNIX_EPOCH, ());
        // ---- hex, base58
        let h: String = {
            let m = *r.rng.pick(&[0usize, 1, 2, 63, 64, 65, 66]);
            let pool: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
            let mut h: String = (0..m).map(|_| *r.rng.pick(&pool)).collect();
            if r.rng.chance(3) {
                h = h.chars().map(|c| if r.rng.chance(40) { *r.rng.pick(&['g', 'G', '/', ':', '@', '`', ' ', 'é', '\n']) } else { c }).collect();
            }
            h
        };
        let ds: Option<Vec<u8>> = h.chars().map(digit).collect();
        let want = ds.filter(|d| d.len() % 2 == 0).map(|d| d.chunks(2).map(|p| p[0] * 16 + p[1]).collect::<Vec<u8>>());
        ok!(r, "hex::decode", hex::decode(&h).ok() == want, &h);
        let e = base58::encode_slice(&a);
        ok!(r, "base58::from", base58::from(&e).ok() == Some(a.clone()), &e);
        // ---- blake2s
        let (mut one, mut two) = (Blake2s::new(32), Blake2s::new(32));
        one.update(&ab);
        two.update(&a);
        two.update(&b);
        let (one, two) = (one.finalize(), two.finalize());
        ok!(r, "Blake2s::update", one.as_bytes() == two.as_bytes() && one.as_bytes().len() == 32, (&a, &b));
        let m = 1 + r.rng.below(32);
        ok!(r, "Blake2s::new(n)", Blake2s::new(m).finalize().as_bytes().len() == m, m);
        // ---- ChaCha20-Poly1305
        let k = r.rng.arr32();
        let mut nonce = [0u8; 12];
        r.rng.fill(&mut nonce);
        let (mut c, mut tag) = (a.clone(), [0u8; 16]);
        aead::key(&k).nonce(&nonce).encrypt(&b, &mut c, &mut tag);
        let (mut c2, mut tag2) = (a.clone(), [7u8; 16]);
        aead::key(&k).nonce(&nonce).encrypt(&b, &mut c2, &mut tag2);
        ok!(r, "encrypt (a function of key, nonce, data; same length)", c == c2 && tag == tag2 && c.len() == a.len(), (&a, &b));
        let mut p = c.clone();
        let y = aead::key(&k).nonce(&nonce).decrypt(&b, &mut p, &tag);
        ok!(r, "decrypt inverts encrypt", y && p == a, (&a, &b));
        let mut bad = tag;
        bad[r.rng.below(16)] ^= 1 << r.rng.below(8);
        let mut p = c.clone();
        ok!(r, "decrypt refuses another tag", !aead::key(&k).nonce(&nonce).decrypt(&b, &mut p, &bad) && p.len() == c.len(), (&a, &b));
        // ---- X25519
        let (x, y) = (c25519::SecretKey(r.rng.arr32()), c25519::SecretKey(r.rng.arr32()));
        let (px, py) = (x.get_public(), y.get_public());
        let (mut sx, mut sy) = ([1u8; 32], [2u8; 32]);
        c25519::scalarmult(&mut sx, &x.0, &py.0);
        c25519::scalarmult(&mut sy, &y.0, &px.0);
        ok!(r, "scalarmult (Diffie-Hellman)", sx == sy, (x.0, y.0));
        // ---- ed25519
        if r.rng.chance(4) {
            let kp = {
                let mut g = rand::thread_rng();
                Keypair::generate(&mut g)
            };
            let s1 = kp.sign(&a);
            let bs = s1.to_bytes();
            ok!(r, "sign (deterministic, verifies)", kp.sign(&a).to_bytes() == bs && kp.public.verify(&a, &s1).is_ok(), &a);
            ok!(r, "PublicKey::from_bytes", PublicKey::from_bytes(kp.public.as_bytes()).map(|q| q.to_bytes()).ok() == Some(kp.public.to_bytes()), kp.public);
            ok!(r, "PublicKey::from_bytes (length)", PublicKey::from_bytes(&a).is_err() || a.len() == 32, &a);
            let mut sb = [0u8; 64];
            r.rng.fill(&mut sb);
            if r.rng.chance(2) {
                sb[63] &= 31;
            }
            let q = Signature::from_bytes(&sb);
            ok!(r, "Signature::from_bytes", q.is_ok() == (sb[63] < 32) && q.map_or(true, |q| q.to_bytes() == sb), &sb[..]);
            ok!(r, "Signature::from_bytes (length)", Signature::from_bytes(&a).is_err() || a.len() == 64, &a);
            ok!(r, "Signature::to_bytes (top bits clear)", bs[63] < 32, &bs[..]);
        }
        // ---- rand
        let (lo, hi) = (r.rng.below(1000) as u32, 1001 + r.rng.below(1 << 20) as u32);
        let g = rand::thread_rng().gen_range(lo, hi);
        ok!(r, "gen_range(lo, hi)", lo <= g && g < hi, (lo, hi, g));
        let mut z = [0u8; 32];
        rand::thread_rng().fill_bytes(&mut z);
        let (sk, pk) = c25519::keypair(rand06::thread_rng());
        ok!(r, "keypair", sk.get_public().0 == pk.0 && z != [0; 32] && sk.0 != z, pk.0);
    }
    // keypair(rng): the secret is, whole, the rng's 32 bytes
    struct Fixed(u8);
    impl rand06::RngCore for Fixed {
        fn next_u32(&mut self) -> u32 {
            self.0 = self.0.wrapping_add(1);
            self.0 as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.next_u32() as u64
        }
        fn fill_bytes(&mut self, b: &mut [u8]) {
            for x in b {
                self.0 = self.0.wrapping_mul(29).wrapping_add(41);
                *x = self.0
            }
        }
        fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand06::Error> {
            Ok(self.fill_bytes(b))
        }
    }
    impl rand06::CryptoRng for Fixed {}
    for s in 0..=255u8 {
        use rand06::RngCore;
        let mut want = [0u8; 32];
        Fixed(s).fill_bytes(&mut want);
        let (sk, _) = c25519::keypair(Fixed(s));
        r.case(&s);
        ok!(r, "keypair (whole draw)", sk.0 == want, (sk.0, want));
    }
}
