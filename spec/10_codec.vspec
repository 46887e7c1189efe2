=== fn stratumv2::codec::parser::ByteParser::new
ensures:
[cursor] r.bytes@ == bytes@ && r.start == start

=== impl stratumv2::codec::parser::ByteParser
/// what is left to read
pub open spec fn rest(&self) -> Seq<u8> {
    if self.start <= self.bytes@.len() { self.bytes@.skip(self.start as int) } else { Seq::empty() }
}

=== fn stratumv2::codec::parser::ByteParser::next_by
ensures:
[frame] final(self).bytes@ == old(self).bytes@
[accept] r is Ok <==> old(self).start + step <= old(self).bytes@.len()
[value] r is Ok ==> r->Ok_0@ == old(self).bytes@.subrange(old(self).start as int, old(self).start + step)
[cursor] r is Ok ==> final(self).start == old(self).start + step
[cursor-err] r is Err ==> final(self).start == old(self).start
start:
proof { assert(self.bytes@.len() == self.bytes.len()); }

=== trait stratumv2::codec::deserialize::Deserializable
/// number of bytes a successful decode of s consumes; None if s is refused
spec fn accepts(s: Seq<u8>) -> Option<int>;
/// v is what s decodes to
spec fn denotes(s: Seq<u8>, v: Self) -> bool where Self: std::marker::Sized;

=== fn stratumv2::codec::deserialize::Deserializable::deserialize
ensures:
[frame] final(parser).bytes@ == old(parser).bytes@
[accept] r is Ok <==> Self::accepts(old(parser).rest()) is Some
[cursor] r is Ok ==> final(parser).start == old(parser).start + Self::accepts(old(parser).rest())->Some_0
[bounds] old(parser).start <= final(parser).start && (r is Ok || old(parser).start <= old(parser).bytes@.len() ==> final(parser).start <= old(parser).bytes@.len())
[value] r is Ok ==> Self::denotes(old(parser).rest(), r->Ok_0)

=== fn stratumv2::codec::deserialize::deserialize
ensures:
[accept] r is Ok <==> T::accepts(bytes@) is Some
[value] r is Ok ==> T::denotes(bytes@, r->Ok_0)

=== trait stratumv2::codec::serialize::Serializable
/// the wire encoding
spec fn enc(&self) -> Seq<u8>;
/// well-formed: the invariant every constructor and decoder establishes
spec fn wf(&self) -> bool;
/// can be encoded at all (only frames with an over-long payload cannot)
spec fn encodable(&self) -> bool;

=== fn stratumv2::codec::serialize::Serializable::serialize
requires:
[wf] self.wf()
ensures:
[layout] r is Ok && old(writer).reliable() ==> final(writer).out() == old(writer).out() + self.enc()
[deliver] r is Ok ==> final(writer).out() == old(writer).out() + self.enc()
[count] r is Ok ==> r->Ok_0 == self.enc().len()
[total] old(writer).reliable() && self.encodable() ==> r is Ok
[reject] !self.encodable() ==> r is Err && final(writer).out() == old(writer).out()
[append] grew(old(writer).out(), final(writer).out())
[keep] final(writer).reliable() == old(writer).reliable()

=== fn stratumv2::codec::serialize::serialize
requires:
[wf] val.wf()
ensures:
[total] r is Ok <==> val.encodable()
[layout] r is Ok ==> r->Ok_0@ == val.enc()
start:
proof { assert(Seq::<u8>::empty() + val.enc() =~= val.enc()); }



=== impl stratumv2::types::primitives::<bool as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![if *self { 1u8 } else { 0u8 }] }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::types::primitives::<u8 as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![*self] }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::types::primitives::<u16 as Serializable>
open spec fn enc(&self) -> Seq<u8> { le2(*self as int) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::types::primitives::<u32 as Serializable>
open spec fn enc(&self) -> Seq<u8> { le4(*self as int) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::types::primitives::<f32 as Serializable>
open spec fn enc(&self) -> Seq<u8> { le4(f32_bits(*self)) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }

=== impl stratumv2::types::primitives::<bool as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 1 { Some(1) } else { None } }
open spec fn denotes(s: Seq<u8>, v: bool) -> bool { v == (s[0] % 2 == 1) }
=== fn stratumv2::types::primitives::<bool as Deserializable>::deserialize
start:
proof { assert(forall|x: u8| #![auto] (x & 1 == 1) == (x % 2 == 1)) by(bit_vector); }
=== impl stratumv2::types::primitives::<u8 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 1 { Some(1) } else { None } }
open spec fn denotes(s: Seq<u8>, v: u8) -> bool { v == s[0] }
=== impl stratumv2::types::primitives::<u16 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 2 { Some(2) } else { None } }
open spec fn denotes(s: Seq<u8>, v: u16) -> bool { v as int == un2(s) }
=== impl stratumv2::types::primitives::<u32 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 4 { Some(4) } else { None } }
open spec fn denotes(s: Seq<u8>, v: u32) -> bool { v as int == un4(s) }
=== impl stratumv2::types::primitives::<f32 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 4 { Some(4) } else { None } }
open spec fn denotes(s: Seq<u8>, v: f32) -> bool { f32_bits(v) == un4(s) }

=== type stratumv2::types::fixed::U24
derive- PartialEq, Eq
=== type stratumv2::types::fixed::U256
derive- PartialEq, Eq
=== fn stratumv2::types::fixed::U24::new
ensures:
[accept] r is Ok <==> value <= 16777215
[value] r is Ok ==> r->Ok_0.0 == value
=== fn stratumv2::types::fixed::<U24 as TryFrom<u32>>::try_from
ensures:
[accept] r is Ok <==> value <= 16777215
[value] r is Ok ==> r->Ok_0.0 == value
=== after stratumv2::types::fixed::<U24 as TryFrom<u32>>
impl vstd::std_specs::convert::TryFromSpecImpl<u32> for U24 { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: u32) -> core::result::Result<U24, Error> { arbitrary() } }
=== fn stratumv2::types::fixed::<U24 as TryFrom<usize>>::try_from
ensures:
[accept] r is Ok <==> value <= 16777215
[value] r is Ok ==> r->Ok_0.0 == value
[error] r is Err ==> r->Err_0 is RequirementError
=== after stratumv2::types::fixed::<U24 as TryFrom<usize>>
impl vstd::std_specs::convert::TryFromSpecImpl<usize> for U24 { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: usize) -> core::result::Result<U24, Error> { arbitrary() } }
impl VTryInto<U24> for u32 {
    type E = Error;
    open spec fn try_ok(self) -> bool { self <= 16777215 }
    open spec fn try_conv(self, u: U24) -> bool { u.0 == self }
    fn v_try_into(self) -> (r: core::result::Result<U24, Error>) { U24::try_from(self) }
}
impl VTryInto<U24> for usize {
    type E = Error;
    open spec fn try_ok(self) -> bool { self <= 16777215 }
    open spec fn try_conv(self, u: U24) -> bool { u.0 == self }
    fn v_try_into(self) -> (r: core::result::Result<U24, Error>) { U24::try_from(self) }
}
impl VInto<u32> for U24 {
    open spec fn conv(self, u: u32) -> bool { u == self.0 }
    fn v_into(self) -> (r: u32) { u32::from(self) }
}
impl VInto<usize> for U24 {
    open spec fn conv(self, u: usize) -> bool { u == self.0 }
    fn v_into(self) -> (r: usize) { usize::from(self) }
}
=== fn stratumv2::types::fixed::<u32 as From<U24>>::from
ensures:
[value] r == u.0
=== after stratumv2::types::fixed::<u32 as From<U24>>
impl vstd::std_specs::convert::FromSpecImpl<U24> for u32 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: U24) -> u32 { v.0 } }
=== fn stratumv2::types::fixed::<usize as From<U24>>::from
ensures:
[value] r == u.0
=== after stratumv2::types::fixed::<usize as From<U24>>
impl vstd::std_specs::convert::FromSpecImpl<U24> for usize { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: U24) -> usize { v.0 as usize } }

=== impl stratumv2::types::fixed::<U24 as Serializable>
open spec fn enc(&self) -> Seq<u8> { le3(self.0 as int) }
open spec fn wf(&self) -> bool { self.0 <= 16777215 }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::types::fixed::<U24 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 3 { Some(3) } else { None } }
open spec fn denotes(s: Seq<u8>, v: U24) -> bool { v.0 as int == un3(s) && v.0 <= 16777215 }
=== impl stratumv2::types::fixed::<U256 as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.0@ }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::types::fixed::<U256 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 32 { Some(32) } else { None } }
open spec fn denotes(s: Seq<u8>, v: U256) -> bool { v.0@ == s.take(32) }
=== fn stratumv2::types::fixed::<[u8;32] as From<U256>>::from
ensures:
[value] r@ == u.0@
=== after stratumv2::types::fixed::<[u8;32] as From<U256>>
impl vstd::std_specs::convert::FromSpecImpl<U256> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: U256) -> [u8; 32] { v.0 } }
=== fn stratumv2::types::fixed::<U256 as From<[u8;32]>>::from
ensures:
[value] r.0@ == a@
=== after stratumv2::types::fixed::<U256 as From<[u8;32]>>
impl vstd::std_specs::convert::FromSpecImpl<[u8; 32]> for U256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; 32]) -> U256 { U256(v) } }
impl VInto<U256> for [u8; 32] {
    open spec fn conv(self, u: U256) -> bool { u.0 == self }
    fn v_into(self) -> (r: U256) { U256::from(self) }
}
impl VInto<U256> for U256 {
    open spec fn conv(self, u: U256) -> bool { u == self }
    fn v_into(self) -> (r: U256) { self }
}
impl VInto<[u8; 32]> for U256 {
    open spec fn conv(self, u: [u8; 32]) -> bool { u == self.0 }
    fn v_into(self) -> (r: [u8; 32]) { <[u8; 32]>::from(self) }
}

=== dep Serializable::serialize
proof { let d = (self.enc(), self.wf(), self.encodable()); }
=== dep Deserializable::deserialize
proof { let d = Self::accepts(parser.rest()); assert(forall|v: Self| Self::denotes(parser.rest(), v) ==> true); }
=== dep Frameable::message_type
proof { let d = Self::mt(); }
