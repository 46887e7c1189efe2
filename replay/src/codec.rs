use crate::harness::*;
use std::convert::TryFrom;
use std::io;
use std::str::FromStr;
use stratumv2::codec::*;
use stratumv2::common::{self, ChannelEndpointChanged, Protocol, SetupConnectionErrorCode};
use stratumv2::error::{Error, Result};
use stratumv2::job_negotiation as jn;
use stratumv2::mining::{self, *};
use stratumv2::noise::{Signature, SignatureNoiseMessage};
use stratumv2::types::*;

// ---- the oracle ------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Val {
    N(u64),
    B(Vec<u8>),
}
use Val::*;

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    Int(usize),          // little endian, that many bytes
    Fix(usize),          // raw bytes
    Var(usize, usize),   // length bytes, maximum
    Str(usize),          // 1 length byte, maximum
    Flags(u32),          // defined bits
    Code(&'static [&'static str]),
    Proto,               // 0..3
    SubProto,            // 0 or 1
    Sig,                 // 64 bytes, top three bits of the last clear
}
use Ty::*;

impl Ty {
    pub fn fits(&self, v: &Val) -> bool {
        match (self, v) {
            (Bool, N(x)) => *x < 2,
            (Int(n), N(x)) => *n == 8 || *x < 1u64 << (8 * n),
            (Fix(n), B(b)) => b.len() == *n,
            (Var(_, m), B(b)) => b.len() <= *m,
            (Str(m), B(b)) => b.len() <= *m && std::str::from_utf8(b).is_ok(),
            (Flags(m), N(x)) => *x <= u32::MAX as u64 && *x as u32 & !m == 0,
            (Code(c), B(b)) => c.iter().any(|s| s.as_bytes() == &b[..]),
            (Proto, N(x)) => *x < 4,
            (SubProto, N(x)) => *x < 2,
            (Sig, B(b)) => b.len() == 64 && b[63] < 32,
            _ => false,
        }
    }
    pub fn enc(&self, v: &Val) -> Vec<u8> {
        match (self, v) {
            (Bool, N(x)) => vec![*x as u8],
            (Proto, N(x)) | (SubProto, N(x)) => vec![*x as u8],
            (Int(n), N(x)) => x.to_le_bytes()[..*n].to_vec(),
            (Flags(_), N(x)) => x.to_le_bytes()[..4].to_vec(),
            (Fix(_), B(b)) | (Sig, B(b)) => b.clone(),
            (Var(n, _), B(b)) => [&(b.len() as u64).to_le_bytes()[..*n], &b[..]].concat(),
            (Str(_), B(b)) | (Code(_), B(b)) => [&[b.len() as u8][..], &b[..]].concat(),
            _ => panic!("oracle"),
        }
    }
    /// value and number of bytes read
    pub fn dec(&self, s: &[u8]) -> Option<(Val, usize)> {
        let int = |n: usize| -> Option<u64> {
            if s.len() < n {
                return None;
            }
            let mut a = [0u8; 8];
            a[..n].copy_from_slice(&s[..n]);
            Some(u64::from_le_bytes(a))
        };
        let var = |n: usize| -> Option<(Vec<u8>, usize)> {
            let l = int(n)? as usize;
            if s.len() - n < l {
                return None;
            }
            Some((s[n..n + l].to_vec(), n + l))
        };
        let r = match self {
            Bool => (N(int(1)? & 1), 1),
            Int(n) => (N(int(*n)?), *n),
            Flags(_) => (N(int(4)?), 4),
            Proto | SubProto => (N(int(1)?), 1),
            Sig => {
                if s.len() < 64 {
                    return None;
                }
                (B(s[..64].to_vec()), 64)
            }
            Fix(n) => {
                if s.len() < *n {
                    return None;
                }
                (B(s[..*n].to_vec()), *n)
            }
            Var(n, _) => {
                let (b, k) = var(*n)?;
                (B(b), k)
            }
            Str(_) | Code(_) => {
                let (b, k) = var(1)?;
                (B(b), k)
            }
        };
        if self.fits(&r.0) {
            Some(r)
        } else {
            None
        }
    }
    pub fn gen(&self, r: &mut Rng) -> Val {
        match self {
            Bool => N(r.u64() & 1),
            Int(n) => {
                let m = if *n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
                match r.below(6) {
                    0 => N(0),
                    1 => N(m),
                    2 => N(r.below(300) as u64 & m),
                    3 => N((1u64 << r.below(8 * n)) & m),
                    _ => N(r.u64() & m),
                }
            }
            Sig => {
                let mut b = r.bytes(64);
                b[63] &= 31;
                B(b)
            }
            Fix(n) => B(r.bytes(*n)),
            Var(_, m) => {
                let l = gen_len(r, *m);
                B(r.bytes(l))
            }
            Str(m) => {
                let l = gen_len(r, *m);
                B(gen_str(r, l).into_bytes())
            }
            Flags(m) => N((r.u64() as u32 & m) as u64),
            Code(c) => B(r.pick(c).as_bytes().to_vec()),
            Proto => N(r.below(4) as u64),
            SubProto => N(r.below(2) as u64),
        }
    }
    /// a value that may be outside the type, for constructors
    pub fn gen_any(&self, r: &mut Rng) -> Val {
        match self {
            Var(_, m) | Str(m) if r.chance(3) && *m < 70000 => {
                let l = m + 1 + r.below(300);
                if let Str(_) = self {
                    B(gen_str(r, l).into_bytes())
                } else {
                    B(r.bytes(l))
                }
            }
            _ => self.gen(r),
        }
    }
}

fn gen_len(r: &mut Rng, m: usize) -> usize {
    let m2 = m.min(70000);
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => m2,
        3 => m2 - 1,
        4 => r.below(m2 + 1),
        _ => r.below(m2.min(40) + 1),
    }
}

/// a string of exactly n bytes, with multi-byte characters
pub fn gen_str(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        let c = *r.pick(&['a', 'Z', '0', '-', ' ', '\0', 'é', 'ß', '中', '\u{1F600}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}']);
        if s.len() + c.len_utf8() <= n {
            s.push(c)
        } else {
            s.push('x')
        }
    }
    s
}

// ---- the real types --------------------------------------------------------------------------

pub trait Fld {
    fn val(&self) -> Val;
    fn wf(&self) -> bool {
        true
    }
}
impl Fld for bool {
    fn val(&self) -> Val {
        N(*self as u64)
    }
}
macro_rules! int_fld { ($($t:ty),*) => { $(impl Fld for $t { fn val(&self) -> Val { N(*self as u64) } })* } }
int_fld!(u8, u16, u32);
impl Fld for f32 {
    fn val(&self) -> Val {
        N(self.to_bits() as u64)
    }
}
impl Fld for U24 {
    fn val(&self) -> Val {
        N(self.0 as u64)
    }
    fn wf(&self) -> bool {
        self.0 < 1 << 24
    }
}
impl Fld for U256 {
    fn val(&self) -> Val {
        B(self.0.to_vec())
    }
}
macro_rules! var_fld { ($($t:ty),*) => { $(impl Fld for $t {
    fn val(&self) -> Val { B(self.data.to_vec()) }
    fn wf(&self) -> bool { self.length as usize == self.data.len() }
})* } }
var_fld!(B0_31, B0_32, B0_255, B0_64K);
impl Fld for B0_16M {
    fn val(&self) -> Val {
        B(self.data.to_vec())
    }
    fn wf(&self) -> bool {
        self.length.0 as usize == self.data.len()
    }
}
macro_rules! str_fld { ($($t:ty),*) => { $(impl Fld for $t {
    fn val(&self) -> Val { B(self.data.as_bytes().to_vec()) }
    fn wf(&self) -> bool { self.length as usize == self.data.len() }
})* } }
str_fld!(STR0_32, STR0_255);
macro_rules! flag_fld { ($($t:ty),*) => { $(impl Fld for $t { fn val(&self) -> Val { N(self.bits() as u64) } })* } }
flag_fld!(mining::SetupConnectionFlags, mining::SetupConnectionSuccessFlags, jn::SetupConnectionFlags, jn::SetupConnectionSuccessFlags);
impl Fld for SetupConnectionErrorCode {
    fn val(&self) -> Val {
        B(match self {
            SetupConnectionErrorCode::UnsupportedFeatureFlags => SC_CODES[0],
            SetupConnectionErrorCode::UnsupportedProtocol => SC_CODES[1],
            SetupConnectionErrorCode::ProtocolVersionMismatch => SC_CODES[2],
        }
        .into())
    }
}
impl Fld for OpenMiningChannelErrorCode {
    fn val(&self) -> Val {
        B(match self {
            OpenMiningChannelErrorCode::UnknownUser => MC_CODES[0],
            OpenMiningChannelErrorCode::MaxTargetOutOfRange => MC_CODES[1],
        }
        .into())
    }
}
impl Fld for Signature {
    fn val(&self) -> Val {
        B(self.to_bytes().to_vec())
    }
}
impl Fld for Protocol {
    fn val(&self) -> Val {
        N(match self {
            Protocol::Mining => 0,
            Protocol::JobNegotiation => 1,
            Protocol::TemplateDistribution => 2,
            Protocol::JobDistribution => 3,
        })
    }
}

pub const SC_CODES: &[&str] = &["unsupported-feature-flags", "unsupported-protocol", "protocol-version-mismatch"];
pub const MC_CODES: &[&str] = &["unknown-user", "max-target-out-of-range"];

fn n(v: &Val) -> u64 {
    match v {
        N(x) => *x,
        _ => panic!("oracle"),
    }
}
fn b(v: &Val) -> Vec<u8> {
    match v {
        B(x) => x.clone(),
        _ => panic!("oracle"),
    }
}
fn s(v: &Val) -> String {
    String::from_utf8(b(v)).unwrap()
}
fn a32(v: &Val) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(&b(v));
    a
}
fn a64(v: &Val) -> [u8; 64] {
    let mut a = [0; 64];
    a.copy_from_slice(&b(v));
    a
}
fn sc_code(v: &Val) -> SetupConnectionErrorCode {
    match s(v).as_str() {
        "unsupported-feature-flags" => SetupConnectionErrorCode::UnsupportedFeatureFlags,
        "unsupported-protocol" => SetupConnectionErrorCode::UnsupportedProtocol,
        _ => SetupConnectionErrorCode::ProtocolVersionMismatch,
    }
}
fn mc_code(v: &Val) -> OpenMiningChannelErrorCode {
    match s(v).as_str() {
        "unknown-user" => OpenMiningChannelErrorCode::UnknownUser,
        _ => OpenMiningChannelErrorCode::MaxTargetOutOfRange,
    }
}
fn bad<T>(m: &str) -> Result<T> {
    Err(Error::ParseError(m.into()))
}

/// A wire type together with its oracle.
pub trait Case: Serializable + Deserializable + Sized {
    const NAME: &'static str;
    fn tys() -> Vec<Ty>;
    fn make(v: &[Val]) -> Result<Self>;
    fn vals(&self) -> Vec<Val>;
    fn wf(&self) -> bool;
    /// rules between fields
    fn valid(_v: &[Val]) -> bool {
        true
    }
    fn fits(v: &[Val]) -> bool {
        Self::tys().iter().zip(v).all(|(t, x)| t.fits(x)) && Self::valid(v)
    }
    fn enc(v: &[Val]) -> Vec<u8> {
        Self::tys().iter().zip(v).flat_map(|(t, x)| t.enc(x)).collect()
    }
    fn dec(s: &[u8]) -> Option<(Vec<Val>, usize)> {
        let (mut o, mut p) = (vec![], 0);
        for t in Self::tys() {
            let (v, k) = t.dec(&s[p..])?;
            o.push(v);
            p += k;
        }
        if Self::valid(&o) {
            Some((o, p))
        } else {
            None
        }
    }
    fn gen(r: &mut Rng) -> Vec<Val> {
        loop {
            let v: Vec<Val> = Self::tys().iter().map(|t| t.gen(r)).collect();
            if Self::valid(&v) || r.chance(30) {
                return v;
            }
        }
    }
    fn gen_valid(r: &mut Rng) -> Vec<Val> {
        loop {
            let v = Self::gen(r);
            if Self::valid(&v) {
                return v;
            }
        }
    }
}

macro_rules! one {
    ($t:ty, $ty:expr, |$v:ident| $make:expr) => {
        impl Case for $t {
            const NAME: &'static str = stringify!($t);
            fn tys() -> Vec<Ty> { vec![$ty] }
            fn make(v: &[Val]) -> Result<Self> { let $v = &v[0]; $make }
            fn vals(&self) -> Vec<Val> { vec![self.val()] }
            fn wf(&self) -> bool { Fld::wf(self) }
        }
    };
}
one!(bool, Bool, |v| Ok(n(v) == 1));
one!(u8, Int(1), |v| Ok(n(v) as u8));
one!(u16, Int(2), |v| Ok(n(v) as u16));
one!(u32, Int(4), |v| Ok(n(v) as u32));
one!(f32, Int(4), |v| Ok(f32::from_bits(n(v) as u32)));
one!(U24, Int(3), |v| U24::new(n(v) as u32));
one!(U256, Fix(32), |v| Ok(U256::from(a32(v))));
one!(B0_31, Var(1, 31), |v| B0_31::new(b(v)));
one!(B0_32, Var(1, 32), |v| B0_32::new(b(v)));
one!(B0_255, Var(1, 255), |v| B0_255::new(b(v)));
one!(B0_64K, Var(2, 65535), |v| B0_64K::new(b(v)));
one!(B0_16M, Var(3, (1 << 24) - 1), |v| B0_16M::new(b(v)));
one!(STR0_32, Str(32), |v| STR0_32::new(s(v)));
one!(STR0_255, Str(255), |v| STR0_255::new(s(v)));
one!(SetupConnectionErrorCode, Code(SC_CODES), |v| Ok(sc_code(v)));
one!(OpenMiningChannelErrorCode, Code(MC_CODES), |v| Ok(mc_code(v)));
one!(Protocol, Proto, |v| Protocol::try_from(n(v) as u8));
one!(Signature, Sig, |v| sig(v));
fn sig(v: &Val) -> Result<Signature> {
    Ok(Signature::from_bytes(&a64(v))?)
}
fn fl<T>(o: Option<T>) -> Result<T> {
    o.ok_or(Error::UnknownFlags())
}
one!(mining::SetupConnectionFlags, Flags(7), |v| fl(mining::SetupConnectionFlags::from_bits(n(v) as u32)));
one!(mining::SetupConnectionSuccessFlags, Flags(3), |v| fl(mining::SetupConnectionSuccessFlags::from_bits(n(v) as u32)));
one!(jn::SetupConnectionFlags, Flags(1), |v| fl(jn::SetupConnectionFlags::from_bits(n(v) as u32)));
one!(jn::SetupConnectionSuccessFlags, Flags(0), |v| fl(jn::SetupConnectionSuccessFlags::from_bits(n(v) as u32)));

macro_rules! msg {
    ($t:ty, [$($f:ident : $ty:expr),*], |$v:ident| $make:expr, |$w:ident| $valid:expr) => {
        impl Case for $t {
            const NAME: &'static str = stringify!($t);
            fn tys() -> Vec<Ty> { vec![$($ty),*] }
            fn make($v: &[Val]) -> Result<Self> { $make }
            fn vals(&self) -> Vec<Val> { vec![$(self.$f.val()),*] }
            fn wf(&self) -> bool { true $(&& Fld::wf(&self.$f))* }
            fn valid($w: &[Val]) -> bool { $valid }
        }
    };
}
fn u(v: &Val) -> u32 {
    n(v) as u32
}
fn h(v: &Val) -> u16 {
    n(v) as u16
}
fn f(v: &Val) -> f32 {
    f32::from_bits(n(v) as u32)
}
fn t(v: &Val) -> U256 {
    U256::from(a32(v))
}
const S: Ty = Str(255);
fn sc_valid(v: &[Val]) -> bool {
    n(&v[0]) >= 2 && n(&v[1]) >= 2 && !b(&v[5]).is_empty() && !b(&v[7]).is_empty()
}
fn er_valid(v: &[Val]) -> bool {
    !(n(&v[0]) == 0 && b(&v[1]) == b"unsupported-feature-flags")
}
msg!(ChannelEndpointChanged, [channel_id: Int(4)], |v| ChannelEndpointChanged::new(u(&v[0])), |_v| true);
msg!(mining::SetupConnection, [min_version: Int(2), max_version: Int(2), flags: Flags(7), endpoint_host: S, endpoint_port: Int(2), vendor: S, hardware_version: S, firmware: S, device_id: S],
    |v| mining::SetupConnection::new(h(&v[0]), h(&v[1]), fl(mining::SetupConnectionFlags::from_bits(u(&v[2])))?, s(&v[3]), h(&v[4]), s(&v[5]), s(&v[6]), s(&v[7]), s(&v[8])),
    |v| sc_valid(v));
msg!(jn::SetupConnection, [min_version: Int(2), max_version: Int(2), flags: Flags(1), endpoint_host: S, endpoint_port: Int(2), vendor: S, hardware_version: S, firmware: S, device_id: S],
    |v| jn::SetupConnection::new(h(&v[0]), h(&v[1]), fl(jn::SetupConnectionFlags::from_bits(u(&v[2])))?, s(&v[3]), h(&v[4]), s(&v[5]), s(&v[6]), s(&v[7]), s(&v[8])),
    |v| sc_valid(v));
msg!(mining::SetupConnectionSuccess, [used_version: Int(2), flags: Flags(3)],
    |v| mining::SetupConnectionSuccess::new(h(&v[0]), fl(mining::SetupConnectionSuccessFlags::from_bits(u(&v[1])))?), |_v| true);
msg!(jn::SetupConnectionSuccess, [used_version: Int(2), flags: Flags(0)],
    |v| jn::SetupConnectionSuccess::new(h(&v[0]), fl(jn::SetupConnectionSuccessFlags::from_bits(u(&v[1])))?), |_v| true);
msg!(mining::SetupConnectionError, [flags: Flags(7), error_code: Code(SC_CODES)],
    |v| mining::SetupConnectionError::new(fl(mining::SetupConnectionFlags::from_bits(u(&v[0])))?, sc_code(&v[1])), |v| er_valid(v));
msg!(jn::SetupConnectionError, [flags: Flags(1), error_code: Code(SC_CODES)],
    |v| jn::SetupConnectionError::new(fl(jn::SetupConnectionFlags::from_bits(u(&v[0])))?, sc_code(&v[1])), |v| er_valid(v));
msg!(OpenStandardMiningChannel, [request_id: Int(4), user_identity: S, nominal_hash_rate: Int(4), max_target: Fix(32)],
    |v| OpenStandardMiningChannel::new(u(&v[0]), s(&v[1]), f(&v[2]), t(&v[3])), |_v| true);
msg!(OpenStandardMiningChannelSuccess, [request_id: Int(4), channel_id: Int(4), target: Fix(32), extranonce_prefix: Var(1, 32), group_channel_id: Int(4)],
    |v| OpenStandardMiningChannelSuccess::new(u(&v[0]), u(&v[1]), t(&v[2]), b(&v[3]), u(&v[4])), |_v| true);
msg!(OpenStandardMiningChannelError, [request_id: Int(4), error_code: Code(MC_CODES)],
    |v| OpenStandardMiningChannelError::new(u(&v[0]), mc_code(&v[1])), |_v| true);
msg!(OpenExtendedMiningChannel, [request_id: Int(4), user_identity: S, nominal_hash_rate: Int(4), max_target: Fix(32), min_extranonce_size: Int(2)],
    |v| OpenExtendedMiningChannel::new(u(&v[0]), s(&v[1]), f(&v[2]), t(&v[3]), h(&v[4])), |_v| true);
msg!(OpenExtendedMiningChannelSuccess, [request_id: Int(4), channel_id: Int(4), target: Fix(32), extranonce_size: Int(2), extranonce_prefix: Var(1, 32)],
    |v| OpenExtendedMiningChannelSuccess::new(u(&v[0]), u(&v[1]), t(&v[2]), h(&v[3]), b(&v[4])), |_v| true);
msg!(OpenExtendedMiningChannelError, [request_id: Int(4), error_code: Code(MC_CODES)],
    |v| OpenExtendedMiningChannelError::new(u(&v[0]), mc_code(&v[1])), |_v| true);
msg!(UpdateChannel, [channel_id: Int(4), nominal_hash_rate: Int(4), max_target: Fix(32)],
    |v| UpdateChannel::new(u(&v[0]), f(&v[1]), t(&v[2])), |_v| true);
msg!(SignatureNoiseMessage, [version: Int(2), valid_from: Int(4), not_valid_after: Int(4), signature: Sig],
    |v| Ok(SignatureNoiseMessage { version: h(&v[0]), valid_from: u(&v[1]), not_valid_after: u(&v[2]), signature: sig(&v[3])? }), |_v| true);

impl Case for common::SetupConnection {
    const NAME: &'static str = "common::SetupConnection";
    fn tys() -> Vec<Ty> {
        let mut t = vec![SubProto];
        t.extend(<mining::SetupConnection as Case>::tys());
        t
    }
    fn make(v: &[Val]) -> Result<Self> {
        let w = &v[1..];
        if n(&v[0]) == 0 {
            common::SetupConnection::new_mining(h(&w[0]), h(&w[1]), fl(mining::SetupConnectionFlags::from_bits(u(&w[2])))?, s(&w[3]), h(&w[4]), s(&w[5]), s(&w[6]), s(&w[7]), s(&w[8]))
        } else {
            common::SetupConnection::new_job_negotation(h(&w[0]), h(&w[1]), fl(jn::SetupConnectionFlags::from_bits(u(&w[2])))?, s(&w[3]), h(&w[4]), s(&w[5]), s(&w[6]), s(&w[7]), s(&w[8]))
        }
    }
    fn vals(&self) -> Vec<Val> {
        match self {
            common::SetupConnection::Mining(m) => [vec![N(0)], Case::vals(m)].concat(),
            common::SetupConnection::JobNegotiation(m) => [vec![N(1)], Case::vals(m)].concat(),
        }
    }
    fn wf(&self) -> bool {
        match self {
            common::SetupConnection::Mining(m) => Case::wf(m),
            common::SetupConnection::JobNegotiation(m) => Case::wf(m),
        }
    }
    fn valid(v: &[Val]) -> bool {
        sc_valid(&v[1..]) && (n(&v[0]) == 0 || n(&v[3]) < 2)
    }
}

// frames
pub const TABLE: &[(MessageType, u8, bool)] = &[
    (MessageType::SetupConnection, 0x00, false), (MessageType::SetupConnectionSuccess, 0x01, false), (MessageType::SetupConnectionError, 0x02, false),
    (MessageType::ChannelEndpointChanged, 0x03, true), (MessageType::OpenStandardMiningChannel, 0x10, false), (MessageType::OpenStandardMiningChannelSuccess, 0x11, false),
    (MessageType::OpenStandardMiningChannelError, 0x12, false), (MessageType::OpenExtendedMiningChannel, 0x13, false), (MessageType::OpenExtendedMiningChannelSuccess, 0x14, false),
    (MessageType::OpenExtendedMiningChannelError, 0x15, false), (MessageType::UpdateChannel, 0x16, true), (MessageType::UpdateChannelError, 0x17, true),
    (MessageType::CloseChannel, 0x18, true), (MessageType::SetExtranoncePrefix, 0x19, true), (MessageType::SubmitSharesStandard, 0x1a, true),
    (MessageType::SubmitSharesExtended, 0x1b, true), (MessageType::SubmitSharesSuccess, 0x1c, true), (MessageType::SubmitSharesError, 0x1d, true),
    (MessageType::NewMiningJob, 0x1e, true), (MessageType::NewExtendedMiningJob, 0x1f, true), (MessageType::SetNewPrevHash, 0x20, true), (MessageType::SetTarget, 0x21, true),
    (MessageType::SetCustomMiningJob, 0x22, false), (MessageType::SetCustomMiningJobSuccess, 0x23, false), (MessageType::SetCustomMiningJobError, 0x24, false),
    (MessageType::Reconnect, 0x25, false), (MessageType::SetGroupChannel, 0x26, false), (MessageType::TestMessage1, 0xfe, false), (MessageType::TestMessage2, 0xff, true),
];
fn row(msg: u8) -> Option<&'static (MessageType, u8, bool)> {
    TABLE.iter().find(|x| x.1 == msg)
}
impl Case for Message {
    const NAME: &'static str = "Message";
    fn tys() -> Vec<Ty> {
        vec![Int(2), Int(1), Var(3, (1 << 24) - 1)]
    }
    fn make(v: &[Val]) -> Result<Self> {
        match row(n(&v[1]) as u8) {
            Some(r) if n(&v[0]) == if r.2 { 0x8000 } else { 0 } => Ok(Message::new(r.0, b(&v[2]))),
            _ => bad("type"),
        }
    }
    fn vals(&self) -> Vec<Val> {
        let r = TABLE.iter().find(|x| x.0 == self.message_type).unwrap();
        vec![N(if r.2 { 0x8000 } else { 0 }), N(r.1 as u64), B(self.payload.clone())]
    }
    fn wf(&self) -> bool {
        true
    }
    fn valid(v: &[Val]) -> bool {
        row(n(&v[1]) as u8).map_or(false, |r| n(&v[0]) == if r.2 { 0x8000 } else { 0 })
    }
    fn gen(r: &mut Rng) -> Vec<Val> {
        let x = *r.pick(TABLE);
        let l = match r.below(6) { 0 => 0, 1 => 255 + r.below(3), 2 => 65534 + r.below(4), _ => r.below(100) };
        vec![N(if x.2 { 0x8000 } else { 0 }), N(x.1 as u64), B(r.bytes(l))]
    }
}

macro_rules! all_fixed { ($m:ident, $r:expr $(, $a:expr)*) => {{ $m::<bool>($r $(, $a)*); $m::<u8>($r $(, $a)*); $m::<u16>($r $(, $a)*); $m::<u32>($r $(, $a)*); $m::<f32>($r $(, $a)*); $m::<U24>($r $(, $a)*); $m::<U256>($r $(, $a)*); }} }
macro_rules! all_var { ($m:ident, $r:expr $(, $a:expr)*) => {{ $m::<B0_31>($r $(, $a)*); $m::<B0_32>($r $(, $a)*); $m::<B0_255>($r $(, $a)*); $m::<B0_64K>($r $(, $a)*); $m::<B0_16M>($r $(, $a)*); $m::<STR0_32>($r $(, $a)*); $m::<STR0_255>($r $(, $a)*); }} }
macro_rules! all_flags { ($m:ident, $r:expr $(, $a:expr)*) => {{ $m::<mining::SetupConnectionFlags>($r $(, $a)*); $m::<mining::SetupConnectionSuccessFlags>($r $(, $a)*); $m::<jn::SetupConnectionFlags>($r $(, $a)*); $m::<jn::SetupConnectionSuccessFlags>($r $(, $a)*); }} }
macro_rules! all_codes { ($m:ident, $r:expr $(, $a:expr)*) => {{ $m::<SetupConnectionErrorCode>($r $(, $a)*); $m::<OpenMiningChannelErrorCode>($r $(, $a)*); }} }
macro_rules! all_framed { ($m:ident, $r:expr $(, $a:expr)*) => {{
    $m::<ChannelEndpointChanged>($r $(, $a)*); $m::<common::SetupConnection>($r $(, $a)*); $m::<mining::SetupConnection>($r $(, $a)*); $m::<jn::SetupConnection>($r $(, $a)*);
    $m::<mining::SetupConnectionSuccess>($r $(, $a)*); $m::<jn::SetupConnectionSuccess>($r $(, $a)*); $m::<mining::SetupConnectionError>($r $(, $a)*); $m::<jn::SetupConnectionError>($r $(, $a)*);
    $m::<OpenStandardMiningChannel>($r $(, $a)*); $m::<OpenStandardMiningChannelSuccess>($r $(, $a)*); $m::<OpenStandardMiningChannelError>($r $(, $a)*);
    $m::<OpenExtendedMiningChannel>($r $(, $a)*); $m::<OpenExtendedMiningChannelSuccess>($r $(, $a)*); $m::<OpenExtendedMiningChannelError>($r $(, $a)*); $m::<UpdateChannel>($r $(, $a)*);
}} }
macro_rules! all_msgs { ($m:ident, $r:expr $(, $a:expr)*) => {{ all_framed!($m, $r $(, $a)*); $m::<SignatureNoiseMessage>($r $(, $a)*); $m::<Signature>($r $(, $a)*); $m::<Protocol>($r $(, $a)*); }} }
macro_rules! everything { ($m:ident, $r:expr $(, $a:expr)*) => {{ all_fixed!($m, $r $(, $a)*); all_var!($m, $r $(, $a)*); all_flags!($m, $r $(, $a)*); all_codes!($m, $r $(, $a)*); all_msgs!($m, $r $(, $a)*); $m::<Message>($r $(, $a)*); }} }

// ---- the comparisons -------------------------------------------------------------------------

fn show(v: &[Val]) -> String {
    let p: Vec<String> = v.iter().map(|x| match x {
        N(k) => format!("{}", k),
        B(y) => format!("{}", hex(y)),
    }).collect();
    p.join(" | ")
}

/// construct, encode, decode one value given by its fields
fn round<T: Case>(r: &mut Rec, v: &[Val]) {
    r.case(&(T::NAME, v));
    r.sample(|| format!("{} fields {}", T::NAME, show(v)));
    let inp = || format!("{} with fields {}", T::NAME, show(v));
    let fits = T::fits(v);
    let m = match r.guard(&format!("constructing {}", T::NAME), &inp, || T::make(v)) {
        Some(m) => m,
        None => return,
    };
    let m = match m {
        Ok(m) => m,
        Err(e) => {
            if fits {
                r.fail(format!("constructing {} is refused although the fields are valid: {:?}", T::NAME, e), inp());
            }
            return;
        }
    };
    if !fits {
        r.fail(format!("constructing {} accepts invalid fields", T::NAME), inp());
        return;
    }
    if m.vals() != v || !m.wf() {
        r.fail(format!("{} does not hold the fields it was made from", T::NAME), format!("{}\n  holds {}", inp(), show(&m.vals())));
        return;
    }
    let want = T::enc(v);
    let pre = vec![0xEE; 3];
    let mut out = pre.clone();
    let n = r.guard(&format!("serializing {}", T::NAME), &inp, || m.serialize(&mut out));
    match n {
        Some(Ok(n)) => {
            if out[..3] != pre[..] || out[3..] != want[..] {
                r.fail(format!("{} has the wrong encoding", T::NAME), format!("{}\n  got  {}\n  want {}", inp(), hex(&out[3.min(out.len())..]), hex(&want)));
            } else if n != want.len() {
                r.fail(format!("serializing {} reports {} bytes for {}", T::NAME, n, want.len()), inp());
            }
        }
        Some(Err(e)) => r.fail(format!("serializing {} to a vector fails: {:?}", T::NAME, e), inp()),
        None => return,
    }
    if let Some(o) = r.guard(&format!("serialize({})", T::NAME), &inp, || serialize(&m)) {
        if o.ok().as_deref() != Some(&want[..]) {
            r.fail(format!("serialize({}) is not the encoding", T::NAME), inp());
        }
    }
    decode::<T>(r, &want, 0);
    match r.guard(&format!("deserialize::<{}>", T::NAME), &inp, || deserialize::<T>(&want)) {
        Some(Ok(x)) => {
            if x.vals() != v || !x.wf() {
                r.fail(format!("{} does not round-trip", T::NAME), format!("{}\n  got {}", inp(), show(&x.vals())));
            }
        }
        Some(Err(e)) => r.fail(format!("deserialize::<{}> refuses its own encoding: {:?}", T::NAME, e), inp()),
        None => {}
    }
}

/// decode arbitrary bytes from a position and compare with the oracle
fn decode<T: Case>(r: &mut Rec, bytes: &[u8], start: usize) {
    r.case(&(T::NAME, bytes.len(), start, &bytes[..bytes.len().min(300)]));
    let inp = || format!("{} from byte {} of {}", T::NAME, start, hex(bytes));
    let want = if start <= bytes.len() { T::dec(&bytes[start..]) } else { None };
    let mut p = ByteParser::new(bytes, start);
    let got = match r.guard(&format!("decoding {}", T::NAME), &inp, || T::deserialize(&mut p)) {
        Some(g) => g,
        None => return,
    };
    match (got, want) {
        (Ok(x), Some((v, k))) => {
            if x.vals() != v || !x.wf() {
                r.fail(format!("decoding {} yields the wrong value", T::NAME), format!("{}\n  got  {}\n  want {}", inp(), show(&x.vals()), show(&v)));
            }
            let rest = &bytes[start + k..];
            let tail = r.guard("next_by", &inp, || p.next_by(rest.len()).map(|x| x.to_vec()));
            if let Some(tl) = tail {
                if tl.ok().as_deref() != Some(rest) {
                    r.fail(format!("decoding {} leaves the cursor in the wrong place", T::NAME), inp());
                } else if p.next_by(1).is_ok() {
                    r.fail(format!("decoding {} allows reading past the end", T::NAME), inp());
                }
            }
        }
        (Ok(x), None) => r.fail(format!("decoding {} accepts what it must refuse", T::NAME), format!("{}\n  got {}", inp(), show(&x.vals()))),
        (Err(e), Some((v, _))) => r.fail(format!("decoding {} refuses what it must accept ({:?})", T::NAME, e), format!("{}\n  want {}", inp(), show(&v))),
        (Err(_), None) => {}
    }
}

/// a random value, constructed (possibly invalid)
fn any_round<T: Case>(r: &mut Rec) {
    if r.full() {
        return;
    }
    let v = if T::NAME == "Message" { T::gen(&mut r.rng) } else if r.rng.chance(3) { T::tys().iter().map(|t| t.gen_any(&mut r.rng)).collect() } else { T::gen(&mut r.rng) };
    round::<T>(r, &v);
}

/// encodings with damage
fn damaged<T: Case>(r: &mut Rec, all: bool) {
    if r.full() {
        return;
    }
    let v = T::gen(&mut r.rng);
    let e = T::enc(&v);
    decode::<T>(r, &e, 0);
    let mut cuts: Vec<usize> = vec![0, e.len().saturating_sub(1), e.len() / 2, 1.min(e.len())];
    if all && e.len() < 400 {
        cuts = (0..e.len()).collect();
    }
    for k in cuts {
        decode::<T>(r, &e[..k], 0);
    }
    if e.len() < 5000 {
        let pre = r.rng.below(5);
        let post = r.rng.below(5);
        let mut w = r.rng.bytes(pre);
        w.extend(&e);
        w.extend(r.rng.bytes(post));
        decode::<T>(r, &w, pre);
        let at = pre + r.rng.below(w.len() - pre + 1).min(w.len() - pre);
        decode::<T>(r, &w, at);
        decode::<T>(r, &w, w.len());
        decode::<T>(r, &w, w.len() + 1);
        decode::<T>(r, &w, usize::MAX);
        for _ in 0..3 {
            let mut x = e.clone();
            if !x.is_empty() {
                let k = if r.rng.chance(2) { r.rng.below(x.len().min(24)) } else { r.rng.below(x.len()) };
                x[k] = match r.rng.below(4) { 0 => 0, 1 => 255, 2 => x[k] ^ (1 << r.rng.below(8)), _ => r.rng.u64() as u8 };
                decode::<T>(r, &x, 0);
            }
        }
        let k = r.rng.below(120);
        let x = r.rng.bytes(k);
        decode::<T>(r, &x, 0);
    }
}

fn ints(r: &mut Rec) {
    for x in 0..=255u64 {
        round::<u8>(r, &[N(x)]);
        decode::<bool>(r, &[x as u8], 0);
    }
    for x in 0..=65535u64 {
        round::<u16>(r, &[N(x)]);
    }
    round::<bool>(r, &[N(0)]);
    round::<bool>(r, &[N(1)]);
    for k in 0..32 {
        for d in [-1i64, 0, 1].iter() {
            let x = ((1i64 << k) + d) as u32 as u64;
            round::<u32>(r, &[N(x)]);
            round::<f32>(r, &[N(x)]);
            round::<U24>(r, &[N(x)]);
        }
    }
    for x in [0u32, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 1, 0x00800000, u32::MAX].iter() {
        round::<f32>(r, &[N(*x as u64)]);
        round::<u32>(r, &[N(*x as u64)]);
    }
}

fn u24(r: &mut Rec, x: u64) {
    let inp = || format!("{}", x);
    r.case(&("u24", x));
    let ok = x < 1 << 24;
    if x <= u32::MAX as u64 {
        let a = r.guard("U24::new", &inp, || U24::new(x as u32));
        let c = r.guard("U24::try_from(u32)", &inp, || U24::try_from(x as u32));
        for g in vec![a, c].into_iter().flatten() {
            r.check(g.is_ok() == ok && g.map_or(true, |y| y.0 as u64 == x), || "U24 conversion from u32 is wrong".into(), inp);
        }
    }
    if let Some(g) = r.guard("U24::try_from(usize)", &inp, || U24::try_from(x as usize)) {
        r.check(g.is_ok() == ok && g.map_or(true, |y| y.0 as u64 == x), || "U24 conversion from usize is wrong".into(), inp);
    }
    if ok {
        r.check(u32::from(U24(x as u32)) as u64 == x, || "u32::from(U24)".into(), inp);
        r.check(usize::from(U24(x as u32)) as u64 == x, || "usize::from(U24)".into(), inp);
        round::<U24>(r, &[N(x)]);
    }
}

pub fn c01(r: &mut Rec) {
    ints(r);
    for x in [0u64, 1, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 40) + 3, u64::MAX].iter() {
        u24(r, *x);
    }
    for k in 0..64 {
        u24(r, 1u64 << k);
        u24(r, (1u64 << k) - 1);
        u24(r, (1u64 << k).wrapping_add(1));
    }
    for _ in 0..30 {
        let a = r.rng.arr32();
        round::<U256>(r, &[B(a.to_vec())]);
        let back: [u8; 32] = U256::from(a).into();
        r.check(back == a, || "[u8; 32]::from(U256)".into(), || hex(&a));
    }
    for _ in 0..3 {
        all_fixed!(damaged, r, true);
    }
    let mut k = 0u64;
    while r.more() && r.evals < r.cap(400_000) {
        all_fixed!(any_round, r);
        all_fixed!(damaged, r, false);
        let bits = r.rng.below(64);
        let x = r.rng.u64() >> bits;
        u24(r, x);
        k += 1;
        if k % 64 == 0 {
            let base = r.rng.u64() as u32;
            for d in 0..64u32 {
                round::<u32>(r, &[N(base.wrapping_add(d) as u64)]);
            }
        }
    }
}

fn lens<T: Case>(r: &mut Rec) {
    let (st, max, lb) = match T::tys()[0] {
        Str(m) => (true, m, 1),
        Var(l, m) => (false, m, l),
        _ => return,
    };
    let mut ls: Vec<usize> = if max <= 255 { (0..=max + 3).collect() } else { vec![0, 1, 2, 127, 128, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 65537] };
    if max == 65535 {
        ls.extend(&[65536 + 255, 131072, 70000]);
    }
    if max <= 255 {
        ls.extend(&[256, 257, 256 + max, 300, 511, 512, 513, 65535, 65536, 65537, 65536 + max]);
    }
    if max > 65535 {
        ls.extend(&[70000, 1 << 20, max - 1, max, max + 1, max + 2, max + 256]);
    }
    for l in ls {
        if r.full() {
            return;
        }
        let d = if st { gen_str(&mut r.rng, l).into_bytes() } else { r.rng.bytes(l) };
        round::<T>(r, &[B(d.clone())]);
        if l < 1usize << (8 * lb) {
            // on the wire, with that length announced
            let mut w = (l as u64).to_le_bytes()[..lb].to_vec();
            w.extend(&d);
            decode::<T>(r, &w, 0);
            w.push(9);
            decode::<T>(r, &w, 0);
            w.truncate(w.len().saturating_sub(2));
            decode::<T>(r, &w, 0);
        }
    }
}

fn bad_utf8<T: Case>(r: &mut Rec) {
    let samples: Vec<Vec<u8>> = vec![
        vec![0x80], vec![0xff], vec![0xc0, 0x80], vec![0xc1, 0xbf], vec![0xe0, 0x80, 0x80], vec![0xed, 0xa0, 0x80], vec![0xf0, 0x80, 0x80, 0x80],
        vec![0xf4, 0x90, 0x80, 0x80], vec![0xf5, 0x80, 0x80, 0x80], vec![0xe4, 0xb8], vec![0xc3], vec![0xf0, 0x9f, 0x98], vec![0x61, 0x80, 0x62], vec![0xfe], vec![0xef, 0xbf],
        vec![0xef, 0xbb, 0xbf], vec![0x00], vec![0xe4, 0xb8, 0xad], vec![0xf4, 0x8f, 0xbf, 0xbf], vec![0xed, 0x9f, 0xbf], vec![0xee, 0x80, 0x80],
    ];
    for x in samples {
        for pad in [0usize, 1, 7, 25].iter() {
            for front in [true, false].iter() {
                let p = vec![b'a'; *pad];
                let d = if *front { [&p[..], &x[..]].concat() } else { [&x[..], &p[..]].concat() };
                let mut w = vec![d.len() as u8];
                w.extend(&d);
                decode::<T>(r, &w, 0);
            }
        }
    }
}

fn into_back(r: &mut Rec) {
    for _ in 0..40 {
        let l = r.rng.below(32);
        let d = r.rng.bytes(l);
        macro_rules! bk { ($($t:ident),*) => { $( if let Ok(x) = $t::new(d.clone()) { let v: Vec<u8> = x.into(); r.check(v == d, || format!("Vec::from({}) differs", stringify!($t)), || hex(&d)); } )* } }
        bk!(B0_31, B0_32, B0_255, B0_64K, B0_16M);
        let t = gen_str(&mut r.rng, l);
        if let Ok(x) = STR0_32::new(t.clone()) { let v: String = x.into(); r.check(v == t, || "String::from(STR0_32) differs".into(), || t.clone()); }
        if let Ok(x) = STR0_255::new(t.clone()) { let v: String = x.into(); r.check(v == t, || "String::from(STR0_255) differs".into(), || t.clone()); }
    }
}

pub fn c02(r: &mut Rec) {
    all_var!(lens, r);
    bad_utf8::<STR0_32>(r);
    bad_utf8::<STR0_255>(r);
    into_back(r);
    for x in 0..=255u8 {
        for l in [0usize, 1, 31, 32, 33, 254, 255, 256].iter() {
            let mut w = vec![x];
            w.extend(vec![b'a'; *l]);
            decode::<B0_31>(r, &w, 0);
            decode::<B0_32>(r, &w, 0);
            decode::<B0_255>(r, &w, 0);
            decode::<STR0_32>(r, &w, 0);
            decode::<STR0_255>(r, &w, 0);
        }
    }
    let big = vec![7u8; (1 << 24) + 8];
    for l in [0u32, 1, 255, 256, 65535, 65536, (1 << 24) - 1].iter() {
        let mut w = l.to_le_bytes()[..3].to_vec();
        w.extend(&big[..*l as usize]);
        decode::<B0_16M>(r, &w, 0);
        w.pop();
        if *l > 0 {
            decode::<B0_16M>(r, &w, 0);
        }
        let mut w = l.to_le_bytes()[..2].to_vec();
        w.extend(&big[..(*l & 0xffff) as usize]);
        decode::<B0_64K>(r, &w, 0);
    }
    let mut i = 0;
    while r.more() && r.evals < r.cap(150_000) {
        all_var!(any_round, r);
        all_var!(damaged, r, i < 5);
        i += 1;
    }
}

fn parser(r: &mut Rec) {
    let starts = [0usize, 1, 2, 5, 9, 10, 11, 12, 1 << 20, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    let steps = [0usize, 1, 2, 5, 9, 10, 11, 1 << 20, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 10, usize::MAX - 1, usize::MAX];
    let data: Vec<u8> = (0..10).collect();
    for st in starts.iter() {
        for a in steps.iter() {
            for c in steps.iter() {
                step2(r, &data, *st, *a, *c);
                step2(r, &[], *st, *a, *c);
            }
        }
    }
    for _ in 0..2000 {
        let l = r.rng.below(40);
        let d = r.rng.bytes(l);
        let (st, a, c) = (r.rng.below(l + 2), r.rng.below(l + 2), r.rng.below(l + 2));
        step2(r, &d, st, a, c);
    }
}
fn step2(r: &mut Rec, data: &[u8], st: usize, a: usize, c: usize) {
    let inp = || format!("{} bytes, start {}, next_by({}), next_by({}), next_by(0)", data.len(), st, a, c);
    r.case(&(data, st, a, c));
    r.guard("next_by", &inp, || ()).unwrap();
    let mut p = ByteParser::new(data, st);
    let mut pos = st;
    for k in [a, c, 0].iter() {
        let want = pos.checked_add(*k).and_then(|e| data.get(pos..e));
        let got = match r.guard("next_by", &inp, || p.next_by(*k)) {
            Some(g) => g,
            None => return,
        };
        match (got, want) {
            (Ok(x), Some(y)) if x == y => pos += k,
            (Err(_), None) => {}
            (g, w) => {
                r.fail("next_by reads the wrong bytes or moves the cursor wrongly", format!("{}: got {:?}, want {:?}", inp(), g.ok(), w));
                return;
            }
        }
    }
}

pub fn c03(r: &mut Rec) {
    parser(r);
    everything!(damaged, r, true);
    everything!(damaged, r, true);
    frames(r);
    // huge announced lengths with little data behind them
    for h in [vec![255u8; 40], vec![0u8; 40], vec![0x80; 9]].iter() {
        for k in 0..h.len() {
            let b = &h[..k];
            macro_rules! d { ($t:ty) => { decode::<$t>(r, b, 0) } }
            d!(B0_31); d!(B0_32); d!(B0_255); d!(B0_64K); d!(B0_16M); d!(STR0_32); d!(STR0_255); d!(Message); d!(common::SetupConnection); d!(mining::SetupConnection);
            d!(OpenStandardMiningChannelSuccess); d!(OpenExtendedMiningChannelSuccess); d!(mining::SetupConnectionError); d!(Signature); d!(U256);
        }
    }
    while r.more() && r.evals < r.cap(150_000) {
        everything!(damaged, r, false);
    }
}

pub fn c04(r: &mut Rec) {
    for _ in 0..20 {
        all_msgs!(any_round, r);
    }
    all_msgs!(damaged, r, true);
    for p in 0..=255u8 {
        decode::<Protocol>(r, &[p, 1], 0);
        let mut v = common::SetupConnection::gen_valid(&mut r.rng);
        v[0] = N(0);
        let mut e = <common::SetupConnection as Case>::enc(&v);
        e[0] = p;
        decode::<common::SetupConnection>(r, &e, 0);
    }
    while r.more() && r.evals < r.cap(150_000) {
        all_msgs!(any_round, r);
        all_msgs!(damaged, r, false);
    }
}

// ---- writers ---------------------------------------------------------------------------------

/// accepts at most `chunk` bytes per call and `cap` in total, with occasional interruptions
struct Odd {
    got: Vec<u8>,
    chunk: usize,
    cap: usize,
    interrupt: bool,
    calls: usize,
    zero_at_cap: bool,
    failed: bool,
}
impl io::Write for Odd {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.cap - self.got.len().min(self.cap);
        if room == 0 {
            self.failed = true;
            return if self.zero_at_cap { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "full")) };
        }
        let k = b.len().min(self.chunk).min(room);
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn to_odd<T: Serializable>(r: &mut Rec, name: &str, m: &T, want: &[u8], what: &dyn Fn() -> String) {
    let mut caps: Vec<usize> = vec![usize::MAX];
    if want.len() <= 64 {
        caps.extend(0..want.len());
    } else {
        caps.extend(&[0, 1, 2, 3, 4, 5, 6, 7, want.len() / 2, want.len() - 2, want.len() - 1]);
        for _ in 0..6 {
            caps.push(r.rng.below(want.len()));
        }
    }
    for cap in caps {
        for chunk in [1usize, 2, 3, 7, usize::MAX].iter() {
            if want.len() > 5000 && *chunk < 7 {
                continue;
            }
            for mode in 0..3 {
                let pre = vec![0xAB; 2];
                let lim = cap.saturating_add(2);
                let mut w = Odd { got: pre.clone(), chunk: *chunk, cap: lim, interrupt: mode == 1, calls: 0, zero_at_cap: mode == 2, failed: false };
                r.case(&(name, cap, chunk, mode, want.len(), want.get(0), want.last()));
                let inp = || format!("{}, writer taking {} bytes per call and {} in all, mode {}", what(), chunk, cap, mode);
                let n = match r.guard(&format!("serializing {}", name), &inp, || m.serialize(&mut w)) {
                    Some(n) => n,
                    None => return,
                };
                match n {
                    Ok(n) => {
                        if w.got[..2] != pre[..] || w.got[2..] != want[..] {
                            r.fail(format!("serializing {} reports success but the writer did not receive the encoding", name), format!("{}\n  received {}\n  want {}", inp(), hex(&w.got[2..]), hex(want)));
                            return;
                        }
                        if n != want.len() {
                            r.fail(format!("serializing {} reports {} bytes, the writer received {}", name, n, want.len()), inp());
                            return;
                        }
                    }
                    Err(_) => {
                        if w.got[2..] != want[..w.got.len() - 2] {
                            r.fail(format!("serializing {} sends something else than a prefix of the encoding before failing", name), inp());
                            return;
                        }
                        if cap == usize::MAX && mode != 1 && !w.failed && false {
                            r.fail("refused", inp());
                        }
                    }
                }
            }
        }
    }
}

fn odd<T: Case>(r: &mut Rec) {
    if r.full() {
        return;
    }
    let v = T::gen_valid(&mut r.rng);
    let inp = || format!("{} with fields {}", T::NAME, show(&v));
    if let Some(Ok(m)) = r.guard("constructing", &inp, || T::make(&v)) {
        let want = T::enc(&v);
        to_odd(r, T::NAME, &m, &want, &inp);
        round::<T>(r, &v);
    }
}

pub fn c05(r: &mut Rec) {
    everything!(odd, r);
    everything!(odd, r);
    crate::net::odd_certs(r);
    while r.more() && r.evals < r.cap(300_000) {
        everything!(odd, r);
        crate::net::odd_certs(r);
    }
}

// ---- frames ----------------------------------------------------------------------------------

fn frames(r: &mut Rec) {
    // every message number, with and without channel bit, other extensions, wrong lengths
    for ext in [0u16, 0x8000, 1, 0x8001, 0x7fff, 0xffff, 0x0080, 0x0100, 0x4000, 0xc000].iter() {
        for m in 0..=255u8 {
            for (l, have) in [(0u32, 0usize), (3, 3), (3, 2), (3, 5), (1, 0), (256, 256), (0, 4), (65536, 10), (0xffffff, 10)].iter() {
                let mut w = ext.to_le_bytes().to_vec();
                w.push(m);
                w.extend(&l.to_le_bytes()[..3]);
                w.extend((0..*have).map(|x| x as u8));
                decode::<Message>(r, &w, 0);
            }
        }
        if r.full() {
            return;
        }
    }
}

struct Count {
    n: usize,
    lim: usize,
}
impl io::Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.n + b.len() > self.lim {
            return Err(io::Error::new(io::ErrorKind::Other, "enough"));
        }
        self.n += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn big_frames(r: &mut Rec) {
    for x in TABLE.iter() {
        for l in [0usize, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 65535, 65536, 65537].iter() {
            let v = vec![N(if x.2 { 0x8000 } else { 0 }), N(x.1 as u64), B(r.rng.bytes(*l))];
            round::<Message>(r, &v);
        }
        if r.full() {
            return;
        }
    }
    for (i, l) in [1usize << 17, (1 << 20) + 3, (1 << 23) - 1, 1 << 23, (1 << 23) + 1, (1 << 24) - 2, (1 << 24) - 1].iter().enumerate() {
        let x = TABLE[(i * 5) % TABLE.len()];
        let v = vec![N(if x.2 { 0x8000 } else { 0 }), N(x.1 as u64), B(vec![0x5a; *l])];
        round::<Message>(r, &v);
    }
    for l in [1usize << 24, (1 << 24) + 1, (1 << 24) + 255, (1 << 25) - 1, (1 << 25) + 7, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 32) + (1 << 24) - 1].iter() {
        let m = Message::new(MessageType::TestMessage2, vec![0u8; *l]);
        let mut w = Count { n: 0, lim: 1 << 26 };
        r.case(&("big", l));
        let inp = || format!("payload of {} bytes", l);
        if let Some(g) = r.guard("serializing Message", &inp, || m.serialize(&mut w)) {
            r.check(g.is_err(), || "a payload longer than 2^24-1 bytes is framed".into(), inp);
            r.check(w.n == 0, || "a refused frame wrote bytes".into(), inp);
        }
    }
}

pub fn c06(r: &mut Rec) {
    frames(r);
    big_frames(r);
    damaged::<Message>(r, true);
    while r.more() && r.evals < r.cap(150_000) {
        any_round::<Message>(r);
        damaged::<Message>(r, false);
    }
}

fn declared<T: Case + Frameable>(r: &mut Rec) {
    let name = T::NAME.rsplit("::").next().unwrap();
    let mt = T::message_type();
    r.case(&T::NAME);
    r.check(format!("{:?}", mt) == name, || format!("{} declares the frame type {:?}", T::NAME, mt), || T::NAME.into());
}

pub fn c07(r: &mut Rec) {
    let mut seen = std::collections::HashSet::new();
    for x in TABLE.iter() {
        r.case(&x.1);
        let inp = || format!("{:?}", x.0);
        r.check(x.0.ext_type() == 0 && x.0.msg_type() == x.1 && x.0.channel_bit() == x.2, || format!("{:?} has numbers {}/{}/{}", x.0, x.0.ext_type(), x.0.msg_type(), x.0.channel_bit()), inp);
        r.check(seen.insert((x.0.ext_type(), x.0.msg_type())), || "two types share a number".into(), inp);
        r.check(MessageType::new(0, x.1).ok() == Some(x.0), || format!("looking up {:?}", x.1), inp);
    }
    for e in 0..=65535u16 {
        for m in 0..=255u8 {
            let g = MessageType::new(e, m);
            let ok = match (e, row(m)) {
                (0, Some(x)) => matches!(&g, Ok(y) if *y == x.0),
                _ => matches!(&g, Err(Error::UnknownMessageType())),
            };
            if !ok {
                r.fail("the lookup of a type number is wrong", format!("{}/{} gives {:?}", e, m, g.ok()));
                return;
            }
        }
        r.evals += 256;
    }
    r.rule = "the table, then every one of the 2^24 pairs".into();
    all_framed!(declared, r);
    r.sample(|| "MessageType::new(e, m) for all e, m".into());
}

fn framed<T: Case + Frameable>(r: &mut Rec) {
    if r.full() {
        return;
    }
    let v = T::gen_valid(&mut r.rng);
    let inp = || format!("{} with fields {}", T::NAME, show(&v));
    r.case(&(T::NAME, &v));
    let name = T::NAME.rsplit("::").next().unwrap();
    let m = match r.guard("constructing", &inp, || T::make(&v)) {
        Some(Ok(m)) => m,
        _ => return,
    };
    let fr = match r.guard("frame", &inp, || frame(&m)) {
        Some(Ok(f)) => f,
        Some(Err(e)) => return r.fail(format!("framing {} fails: {:?}", T::NAME, e), inp()),
        None => return,
    };
    r.check(format!("{:?}", fr.message_type) == name && fr.payload == T::enc(&v), || format!("frame({}) has the wrong type or payload", T::NAME), inp);
    // over the wire
    let wire = match r.guard("serialize", &inp, || serialize(&fr)) {
        Some(Ok(w)) => w,
        _ => return,
    };
    let back = match r.guard("deserialize", &inp, || deserialize::<Message>(&wire)) {
        Some(Ok(b)) => b,
        Some(Err(e)) => return r.fail(format!("the frame of {} cannot be read back: {:?}", T::NAME, e), inp()),
        None => return,
    };
    match r.guard("unframe", &inp, || unframe::<T>(&back)) {
        Some(Ok(x)) => {
            r.check(x.vals() == v && x.wf(), || format!("unframe::<{}> does not return the message", T::NAME), inp);
        }
        Some(Err(e)) => r.fail(format!("unframe::<{}> refuses its own frame: {:?}", T::NAME, e), inp()),
        None => return,
    }
    // wrong types
    for x in TABLE.iter() {
        let other = Message::new(x.0, fr.payload.clone());
        let g = match r.guard("unframe", &inp, || unframe::<T>(&other)) {
            Some(g) => g,
            None => return,
        };
        let mine = format!("{:?}", x.0) == name;
        match g {
            Ok(_) => {
                r.check(mine, || format!("unframe::<{}> accepts a frame of type {:?}", T::NAME, x.0), inp);
            }
            Err(Error::UnexpectedMessageType(e, k)) => {
                let want = TABLE.iter().find(|y| format!("{:?}", y.0) == name).unwrap();
                r.check(!mine && e == 0 && k == want.1, || format!("unframe::<{}> of a {:?} frame names type {}/{}", T::NAME, x.0, e, k), inp);
            }
            Err(e) => {
                r.check(mine && false, || format!("unframe::<{}> of a {:?} frame gives {:?}", T::NAME, x.0, e), inp);
            }
        }
    }
    // damaged payloads: exactly as the payload decoder
    let mut p = fr.payload.clone();
    for k in 0..6 {
        if k == 1 { p.push(1); } else if k > 1 && !p.is_empty() {
            let at = r.rng.below(p.len());
            if r.rng.chance(2) { p.truncate(at); } else { p[at] = r.rng.u64() as u8; }
        }
        let msg = Message::new(fr.message_type, p.clone());
        let want = T::dec(&p);
        let inp = || format!("{} payload {}", T::NAME, hex(&p));
        if let Some(g) = r.guard("unframe", &inp, || unframe::<T>(&msg)) {
            match (g, want) {
                (Ok(x), Some((w, _))) => {
                    r.check(x.vals() == w, || format!("unframe::<{}> yields another value", T::NAME), inp);
                }
                (Err(_), None) => {}
                (g, _) => r.fail(format!("unframe::<{}> {} a payload wrongly", T::NAME, if g.is_ok() { "accepts" } else { "refuses" }), inp()),
            }
        }
    }
}

pub fn c08(r: &mut Rec) {
    while r.more() && r.evals < r.cap(40_000) {
        all_framed!(framed, r);
    }
}

fn sc_grid<T: Case>(r: &mut Rec, off: usize) {
    for a in [0u64, 1, 2, 3, 255, 256, 257, 0x0100, 65535].iter() {
        for c in [0u64, 1, 2, 3, 255, 256, 257, 512, 65535].iter() {
            for e in 0..32 {
                if r.full() {
                    return;
                }
                let mut v = T::gen_valid(&mut r.rng);
                v[off] = N(*a);
                v[off + 1] = N(*c);
                for (k, i) in [3usize, 5, 6, 7, 8].iter().enumerate() {
                    let l = if e >> k & 1 == 1 { 0 } else { 1 + r.rng.below(4) };
                    v[off + i] = B(gen_str(&mut r.rng, l).into_bytes());
                }
                round::<T>(r, &v);
                let w = T::enc(&v);
                decode::<T>(r, &w, 0);
            }
        }
    }
    // sizes of every text field
    for i in [3usize, 5, 6, 7, 8].iter() {
        for l in [0usize, 1, 254, 255, 256, 257, 511, 512].iter() {
            let mut v = T::gen_valid(&mut r.rng);
            v[off + i] = B(gen_str(&mut r.rng, *l).into_bytes());
            round::<T>(r, &v);
            for ch in ["\0", " ", "\u{1F600}"].iter() {
                v[off + i] = B(ch.as_bytes().to_vec());
                round::<T>(r, &v);
            }
        }
    }
    for bit in 0..32 {
        let mut v = T::gen_valid(&mut r.rng);
        v[off + 2] = N(1u64 << bit);
        let w = T::enc(&v);
        decode::<T>(r, &w, 0);
    }
}

pub fn c09(r: &mut Rec) {
    sc_grid::<mining::SetupConnection>(r, 0);
    sc_grid::<jn::SetupConnection>(r, 0);
    sc_grid::<common::SetupConnection>(r, 1);
    for p in 0..=255u8 {
        for off in 0..2u64 {
            let mut v = common::SetupConnection::gen_valid(&mut r.rng);
            v[0] = N(off);
            v[3] = N(r.rng.below(2) as u64);
            let mut e = <common::SetupConnection as Case>::enc(&v);
            e[0] = p;
            decode::<common::SetupConnection>(r, &e, 0);
        }
    }
    while r.more() && r.evals < r.cap(120_000) {
        any_round::<mining::SetupConnection>(r);
        any_round::<jn::SetupConnection>(r);
        any_round::<common::SetupConnection>(r);
        damaged::<mining::SetupConnection>(r, false);
        damaged::<jn::SetupConnection>(r, false);
        damaged::<common::SetupConnection>(r, false);
    }
}

fn flag_bits<T: Case>(r: &mut Rec) {
    let mut one = |r: &mut Rec, x: u32| {
        decode::<T>(r, &x.to_le_bytes(), 0);
        round::<T>(r, &[N(x as u64)]);
    };
    for x in 0..600u32 {
        one(r, x);
    }
    for k in 0..32 {
        one(r, 1 << k);
        for l in 0..32 {
            one(r, 1 << k | 1 << l);
        }
        one(r, u32::MAX << k);
        one(r, u32::MAX >> k);
    }
    for _ in 0..200 {
        let x = r.rng.u64() as u32;
        one(r, x);
    }
}

fn er_grid<T: Case>(r: &mut Rec) {
    for x in 0..16u64 {
        for c in SC_CODES.iter() {
            let v = vec![N(x), B(c.as_bytes().to_vec())];
            round::<T>(r, &v);
            let w = T::enc(&v);
            decode::<T>(r, &w, 0);
        }
    }
    for k in 3..32 {
        for low in 0..8u64 {
            let w = T::enc(&[N(1u64 << k | low), B(SC_CODES[k % 3].as_bytes().to_vec())]);
            decode::<T>(r, &w, 0);
        }
    }
}

pub fn c10(r: &mut Rec) {
    macro_rules! bit { ($e:expr, $x:expr) => { r.check($e.bits() == $x, || format!("{} is {:#x}, not {:#x}", stringify!($e), $e.bits(), $x), || stringify!($e).into()); } }
    bit!(mining::SetupConnectionFlags::REQUIRES_STANDARD_JOBS, 1u32);
    bit!(mining::SetupConnectionFlags::REQUIRES_WORK_SELECTION, 2u32);
    bit!(mining::SetupConnectionFlags::REQUIRES_VERSION_ROLLING, 4u32);
    bit!(mining::SetupConnectionSuccessFlags::NONE, 0u32);
    bit!(mining::SetupConnectionSuccessFlags::REQUIRES_FIXED_VERSION, 1u32);
    bit!(mining::SetupConnectionSuccessFlags::REQUIRES_EXTENDED_CHANNELS, 2u32);
    bit!(jn::SetupConnectionFlags::REQUIRES_ASYNC_JOB_MINING, 1u32);
    bit!(jn::SetupConnectionSuccessFlags::NONE, 0u32);
    all_flags!(flag_bits, r);
    er_grid::<mining::SetupConnectionError>(r);
    er_grid::<jn::SetupConnectionError>(r);
    while r.more() && r.evals < r.cap(100_000) {
        all_flags!(damaged, r, true);
        any_round::<mining::SetupConnectionError>(r);
        any_round::<jn::SetupConnectionError>(r);
        damaged::<mining::SetupConnectionError>(r, false);
        damaged::<jn::SetupConnectionError>(r, false);
        damaged::<mining::SetupConnectionSuccess>(r, false);
        damaged::<jn::SetupConnectionSuccess>(r, false);
    }
}

fn code_str<C>(r: &mut Rec, name: &str, codes: &[&str], x: &str)
where
    C: Case + FromStr + TryFrom<String> + TryFrom<STR0_255>,
{
    let inp = || format!("{:?} as {}", x, name);
    r.case(&(name, x));
    let want = codes.contains(&x);
    let val = |c: &C| c.vals()[0] == B(x.as_bytes().to_vec());
    if let Some(g) = r.guard("from_str", &inp, || C::from_str(x).ok()) {
        r.check(g.is_some() == want && g.as_ref().map_or(true, &val), || format!("{}::from_str is wrong", name), inp);
    }
    if let Some(g) = r.guard("try_from(String)", &inp, || C::try_from(x.to_string()).ok()) {
        r.check(g.is_some() == want && g.as_ref().map_or(true, &val), || format!("{}::try_from(String) is wrong", name), inp);
    }
    if x.len() < 256 {
        if let Some(g) = r.guard("try_from(STR0_255)", &inp, || C::try_from(STR0_255::new(x).unwrap()).ok()) {
            r.check(g.is_some() == want && g.as_ref().map_or(true, &val), || format!("{}::try_from(STR0_255) is wrong", name), inp);
        }
        let mut w = vec![x.len() as u8];
        w.extend(x.as_bytes());
        decode::<C>(r, &w, 0);
    }
}

pub fn c11(r: &mut Rec) {
    macro_rules! code { ($e:expr, $s:expr) => { {
        let e = $e;
        let what = || format!("{}", $s);
        r.case(&$s);
        r.check(e.to_string() == $s, || format!("the text of {} is {:?}", stringify!($e), e.to_string()), what);
        r.check(String::from(&e) == $s, || format!("String::from({}) is {:?}", stringify!($e), String::from(&e)), what);
        let st = STR0_255::from(&e);
        r.check(st.data == $s && st.length as usize == $s.len(), || format!("STR0_255::from({}) is {:?}", stringify!($e), st), what);
    } } }
    code!(SetupConnectionErrorCode::UnsupportedFeatureFlags, SC_CODES[0]);
    code!(SetupConnectionErrorCode::UnsupportedProtocol, SC_CODES[1]);
    code!(SetupConnectionErrorCode::ProtocolVersionMismatch, SC_CODES[2]);
    code!(OpenMiningChannelErrorCode::UnknownUser, MC_CODES[0]);
    code!(OpenMiningChannelErrorCode::MaxTargetOutOfRange, MC_CODES[1]);
    let mut words: Vec<String> = vec!["".into(), "unknown".into(), "\0".into(), "UnknownUser".into(), "unknown user".into(), "unsupported".into()];
    for c in SC_CODES.iter().chain(MC_CODES) {
        words.push(c.to_string());
        words.push(c.to_uppercase());
        words.push(c.replace('-', "_"));
        words.push(c.replace('-', " "));
        for k in 0..c.len() {
            words.push(c[..k].into());
            words.push(c[k..].into());
            let mut d = c.to_string();
            d.remove(k);
            words.push(d);
            let mut d = c.as_bytes().to_vec();
            d[k] ^= 32;
            words.push(String::from_utf8_lossy(&d).into());
            let mut d = c.to_string();
            d.insert(k, 'x');
            words.push(d);
        }
        for ch in [" ", "\n", "\0", "s", "-", "é"].iter() {
            words.push(format!("{}{}", c, ch));
            words.push(format!("{}{}", ch, c));
        }
        words.push(format!("{}{}", c, c));
        words.push("x".repeat(c.len()));
    }
    words.push("y".repeat(255));
    words.push("y".repeat(300));
    for w in &words {
        code_str::<SetupConnectionErrorCode>(r, "SetupConnectionErrorCode", SC_CODES, w);
        code_str::<OpenMiningChannelErrorCode>(r, "OpenMiningChannelErrorCode", MC_CODES, w);
    }
    while r.more() && r.evals < r.cap(60_000) {
        all_codes!(any_round, r);
        all_codes!(damaged, r, true);
        damaged::<mining::SetupConnectionError>(r, false);
        damaged::<OpenStandardMiningChannelError>(r, false);
        damaged::<OpenExtendedMiningChannelError>(r, false);
        any_round::<OpenStandardMiningChannelError>(r);
        any_round::<OpenExtendedMiningChannelError>(r);
    }
}

/// b differs from a in the way `how` says; how 0 is a itself
fn vary(r: &mut Rec, a: &[u8], how: usize) -> Vec<u8> {
    let mut b = a.to_vec();
    match how {
        0 => {}
        1 => b.push(0),
        2 => {
            b.pop();
        }
        3 => b.insert(0, 0),
        4 => {
            if !b.is_empty() {
                let i = r.rng.below(b.len());
                b[i] ^= 1 << r.rng.below(7);
            }
        }
        5 => {
            if let Some(l) = b.last_mut() {
                *l ^= 1
            }
        }
        6 => {
            if let Some(l) = b.first_mut() {
                *l ^= 0x20
            }
        }
        7 => b.reverse(),
        _ => b.clear(),
    }
    b
}

/// comparisons and conversions of a byte field; true if it could be built
macro_rules! same_bytes {
    ($r:expr, $t:ty, $a:expr) => {{
        for how in 0..9 {
            let a: Vec<u8> = $a;
            let b = vary($r, &a, how);
            let what = || format!("{} of {} compared with {}", stringify!($t), hex(&a), hex(&b));
            if let Ok(v) = <$t>::new(a.clone()) {
                $r.case(&(stringify!($t), &a, &b));
                $r.sample(|| what());
                $r.check((v == b) == (a == b), || "field == Vec".into(), what);
                $r.check((b == v) == (a == b), || "Vec == field".into(), what);
                $r.check((v != b) == (a != b), || "field != Vec".into(), what);
                let back: Vec<u8> = v.into();
                $r.check(back == a, || "Vec::from(field)".into(), what);
            }
        }
    }};
}
macro_rules! same_text {
    ($r:expr, $t:ty, $a:expr) => {{
        for how in 0..9 {
            let a: String = $a;
            let b = match String::from_utf8(vary($r, a.as_bytes(), how)) {
                Ok(b) => b,
                Err(_) => continue,
            };
            let what = || format!("{} of {:?} compared with {:?}", stringify!($t), a, b);
            if let Ok(v) = <$t>::new(a.clone()) {
                $r.case(&(stringify!($t), &a, &b));
                $r.sample(|| what());
                $r.check((v == b) == (a == b), || "field == String".into(), what);
                $r.check((b == v) == (a == b), || "String == field".into(), what);
                let back: String = v.into();
                $r.check(back == a, || "String::from(field)".into(), what);
            }
        }
    }};
}

fn same_u24(r: &mut Rec, x: u32, y: u32) {
    let what = || format!("U24 {:#x} compared with {:#x}", x, y);
    if let Ok(u) = U24::new(x) {
        r.case(&(x, y));
        r.check((u == y) == (x == y), || "U24 == u32".into(), what);
        r.check((y == u) == (x == y), || "u32 == U24".into(), what);
        let a: u32 = u.clone().into();
        r.check(a == x, || "u32::from(U24)".into(), what);
        let a: usize = u.into();
        r.check(a == x as usize, || "usize::from(U24)".into(), what);
    }
}

pub fn c23(r: &mut Rec) {
    let edge = [0u32, 1, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, u32::MAX];
    for x in edge.iter() {
        for y in edge.iter() {
            same_u24(r, *x, *y);
        }
        for b in 0..32 {
            same_u24(r, *x, *x ^ (1 << b));
        }
    }
    for i in 0..32 {
        let a = r.rng.arr32();
        let mut b = a;
        b[i] ^= 1 << r.rng.below(8);
        r.case(&(a, b));
        let v = U256::from(a);
        r.check(v == a && a == v && !(v == b) && !(b == v), || "U256 == [u8; 32]".into(), || format!("{} {}", hex(&a), hex(&b)));
        let back: [u8; 32] = v.into();
        r.check(back == a, || "[u8; 32]::from(U256)".into(), || hex(&a));
    }
    for l in [0usize, 1, 2, 31, 32, 33, 255, 256, 257, 65535, 65536, 65537].iter() {
        let a = r.rng.bytes(*l);
        same_bytes!(r, B0_31, a.clone());
        same_bytes!(r, B0_32, a.clone());
        same_bytes!(r, B0_255, a.clone());
        same_bytes!(r, B0_64K, a.clone());
        same_bytes!(r, B0_16M, a.clone());
        if *l < 300 {
            let t: String = a.iter().map(|c| (b' ' + c % 90) as char).collect();
            same_text!(r, STR0_32, t.clone());
            same_text!(r, STR0_255, t.clone());
        }
    }
    for t in ["é", "e\u{301}", "😀a", "A", "a", " a", "a ", "\0", "K", "ſ", "İ"].iter() {
        same_text!(r, STR0_32, t.to_string());
        same_text!(r, STR0_255, t.to_string());
    }
    while r.more() && r.evals < r.cap(150_000) {
        let l = r.rng.below(70);
        let a = r.rng.bytes(l);
        same_bytes!(r, B0_31, a.clone());
        same_bytes!(r, B0_64K, a.clone());
        same_bytes!(r, B0_255, a.clone());
        same_bytes!(r, B0_16M, a.clone());
        same_bytes!(r, B0_32, a.clone());
        let t: String = a.iter().map(|c| (b' ' + c % 90) as char).collect();
        same_text!(r, STR0_32, t.clone());
        same_text!(r, STR0_255, t.clone());
        let k = r.rng.below(32);
        let (x, y) = (r.rng.u64() as u32 >> 8, r.rng.u64() as u32 >> k);
        same_u24(r, x, y);
        same_u24(r, x, x ^ (1 << k));
    }
}
