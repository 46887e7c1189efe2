#! generated by gen.py
=== type stratumv2::common::setup_connection_error_code::SetupConnectionErrorCode
derive+ Structural, Eq
=== mod stratumv2::common::setup_connection_error_code
/// the protocol string of each code
pub open spec fn code_str(e: SetupConnectionErrorCode) -> Seq<char> { match e { SetupConnectionErrorCode::UnsupportedFeatureFlags => "unsupported-feature-flags"@, SetupConnectionErrorCode::UnsupportedProtocol => "unsupported-protocol"@, SetupConnectionErrorCode::ProtocolVersionMismatch => "protocol-version-mismatch"@ } }
pub open spec fn is_code(c: Seq<char>) -> bool { c == "unsupported-feature-flags"@ || c == "unsupported-protocol"@ || c == "protocol-version-mismatch"@ }
/// every code string is at most 255 bytes long and ASCII
pub proof fn lemma_code_len(e: SetupConnectionErrorCode)
    ensures vstd::utf8::encode_utf8(code_str(e)).len() == code_str(e).len(), 1 <= code_str(e).len() <= 255
{
    reveal_strlit("unsupported-feature-flags"); vstd::utf8::is_ascii_chars_encode_utf8("unsupported-feature-flags"@);
    reveal_strlit("unsupported-protocol"); vstd::utf8::is_ascii_chars_encode_utf8("unsupported-protocol"@);
    reveal_strlit("protocol-version-mismatch"); vstd::utf8::is_ascii_chars_encode_utf8("protocol-version-mismatch"@);
}
/// no two codes share a string
pub proof fn lemma_code_injective(a: SetupConnectionErrorCode, b: SetupConnectionErrorCode)
    requires code_str(a) == code_str(b)
    ensures a == b
{
    reveal_strlit("unsupported-feature-flags"); vstd::utf8::is_ascii_chars_encode_utf8("unsupported-feature-flags"@);
    reveal_strlit("unsupported-protocol"); vstd::utf8::is_ascii_chars_encode_utf8("unsupported-protocol"@);
    reveal_strlit("protocol-version-mismatch"); vstd::utf8::is_ascii_chars_encode_utf8("protocol-version-mismatch"@);
}
=== fn stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as FromStr>::from_str
ensures:
[accept] r is Ok <==> is_code(s@)
[value] r is Ok ==> code_str(r->Ok_0) == s@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== fn stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as TryFrom<String>>::try_from
ensures:
[accept] r is Ok <==> is_code(s@)
[value] r is Ok ==> code_str(r->Ok_0) == s@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== after stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as TryFrom<String>>
impl vstd::std_specs::convert::TryFromSpecImpl<String> for SetupConnectionErrorCode { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: String) -> core::result::Result<SetupConnectionErrorCode, Error> { arbitrary() } }
=== fn stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as TryFrom<STR0_255>>::try_from
ensures:
[accept] r is Ok <==> is_code(s.data@)
[value] r is Ok ==> code_str(r->Ok_0) == s.data@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== after stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as TryFrom<STR0_255>>
impl vstd::std_specs::convert::TryFromSpecImpl<STR0_255> for SetupConnectionErrorCode { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: STR0_255) -> core::result::Result<SetupConnectionErrorCode, Error> { arbitrary() } }
=== fn stratumv2::common::setup_connection_error_code::<String as From<&SetupConnectionErrorCode>>::from
ensures:
[value] r@ == code_str(*error_code)
=== after stratumv2::common::setup_connection_error_code::<String as From<&SetupConnectionErrorCode>>
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a SetupConnectionErrorCode> for String { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &'a SetupConnectionErrorCode) -> String { arbitrary() } }
impl<'a> VInto<String> for &'a SetupConnectionErrorCode {
    open spec fn conv(self, u: String) -> bool { u@ == code_str(*self) }
    fn v_into(self) -> (r: String) { proof { let d = self.conv(arbitrary::<String>()); } <String as From<&SetupConnectionErrorCode>>::from(self) }
}
=== impl stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as Display>
open spec fn text(&self) -> Seq<char> { code_str(*self) }
=== fn stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as Display>::fmt
ensures:
[text] r is Ok && old(f).plain() ==> final(f).out() == old(f).out() + code_str(*self)
[text] old(f).reliable() ==> r is Ok
=== fn stratumv2::common::setup_connection_error_code::<STR0_255 as From<&SetupConnectionErrorCode>>::from
ensures:
[value] r.data@ == code_str(*error_code)
[wf] r.wf()
start:
proof { lemma_code_len(*error_code); }
=== after stratumv2::common::setup_connection_error_code::<STR0_255 as From<&SetupConnectionErrorCode>>
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a SetupConnectionErrorCode> for STR0_255 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &'a SetupConnectionErrorCode) -> STR0_255 { arbitrary() } }
impl<'a> VInto<STR0_255> for &'a SetupConnectionErrorCode {
    open spec fn conv(self, u: STR0_255) -> bool { u.data@ == code_str(*self) && u.wf() }
    fn v_into(self) -> (r: STR0_255) { proof { let d = self.conv(arbitrary::<STR0_255>()); } <STR0_255 as From<&SetupConnectionErrorCode>>::from(self) }
}
=== impl stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![code_str(*self).len() as u8] + vstd::utf8::encode_utf8(code_str(*self)) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as Serializable>::serialize
start:
proof { lemma_code_len(*self); }
=== impl stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    match STR0_255::accepts(s) { Some(n) => if is_code(vstd::utf8::decode_utf8(s.subrange(1, n))) { Some(n) } else { None }, None => None }
}
open spec fn denotes(s: Seq<u8>, v: SetupConnectionErrorCode) -> bool { code_str(v) == vstd::utf8::decode_utf8(s.subrange(1, 1 + s[0])) }
=== fn stratumv2::common::setup_connection_error_code::<SetupConnectionErrorCode as Deserializable>::deserialize
start:
broadcast use crate::vshim::lemma_str_chars;
reveal(<STR0_255 as Deserializable>::accepts); reveal(<STR0_255 as Deserializable>::denotes);

=== type stratumv2::mining::open_mining_channel_error::OpenMiningChannelErrorCode
derive+ Structural, Eq
=== mod stratumv2::mining::open_mining_channel_error
/// the protocol string of each code
pub open spec fn code_str(e: OpenMiningChannelErrorCode) -> Seq<char> { match e { OpenMiningChannelErrorCode::UnknownUser => "unknown-user"@, OpenMiningChannelErrorCode::MaxTargetOutOfRange => "max-target-out-of-range"@ } }
pub open spec fn is_code(c: Seq<char>) -> bool { c == "unknown-user"@ || c == "max-target-out-of-range"@ }
/// every code string is at most 255 bytes long and ASCII
pub proof fn lemma_code_len(e: OpenMiningChannelErrorCode)
    ensures vstd::utf8::encode_utf8(code_str(e)).len() == code_str(e).len(), 1 <= code_str(e).len() <= 255
{
    reveal_strlit("unknown-user"); vstd::utf8::is_ascii_chars_encode_utf8("unknown-user"@);
    reveal_strlit("max-target-out-of-range"); vstd::utf8::is_ascii_chars_encode_utf8("max-target-out-of-range"@);
}
/// no two codes share a string
pub proof fn lemma_code_injective(a: OpenMiningChannelErrorCode, b: OpenMiningChannelErrorCode)
    requires code_str(a) == code_str(b)
    ensures a == b
{
    reveal_strlit("unknown-user"); vstd::utf8::is_ascii_chars_encode_utf8("unknown-user"@);
    reveal_strlit("max-target-out-of-range"); vstd::utf8::is_ascii_chars_encode_utf8("max-target-out-of-range"@);
}
=== fn stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as FromStr>::from_str
ensures:
[accept] r is Ok <==> is_code(s@)
[value] r is Ok ==> code_str(r->Ok_0) == s@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== fn stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as TryFrom<String>>::try_from
ensures:
[accept] r is Ok <==> is_code(s@)
[value] r is Ok ==> code_str(r->Ok_0) == s@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== after stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as TryFrom<String>>
impl vstd::std_specs::convert::TryFromSpecImpl<String> for OpenMiningChannelErrorCode { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: String) -> core::result::Result<OpenMiningChannelErrorCode, Error> { arbitrary() } }
=== fn stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as TryFrom<STR0_255>>::try_from
ensures:
[accept] r is Ok <==> is_code(s.data@)
[value] r is Ok ==> code_str(r->Ok_0) == s.data@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== after stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as TryFrom<STR0_255>>
impl vstd::std_specs::convert::TryFromSpecImpl<STR0_255> for OpenMiningChannelErrorCode { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: STR0_255) -> core::result::Result<OpenMiningChannelErrorCode, Error> { arbitrary() } }
=== fn stratumv2::mining::open_mining_channel_error::<String as From<&OpenMiningChannelErrorCode>>::from
ensures:
[value] r@ == code_str(*error_code)
=== after stratumv2::mining::open_mining_channel_error::<String as From<&OpenMiningChannelErrorCode>>
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a OpenMiningChannelErrorCode> for String { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &'a OpenMiningChannelErrorCode) -> String { arbitrary() } }
impl<'a> VInto<String> for &'a OpenMiningChannelErrorCode {
    open spec fn conv(self, u: String) -> bool { u@ == code_str(*self) }
    fn v_into(self) -> (r: String) { proof { let d = self.conv(arbitrary::<String>()); } <String as From<&OpenMiningChannelErrorCode>>::from(self) }
}
=== impl stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as Display>
open spec fn text(&self) -> Seq<char> { code_str(*self) }
=== fn stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as Display>::fmt
ensures:
[text] r is Ok && old(f).plain() ==> final(f).out() == old(f).out() + code_str(*self)
[text] old(f).reliable() ==> r is Ok
=== fn stratumv2::mining::open_mining_channel_error::<STR0_255 as From<&OpenMiningChannelErrorCode>>::from
ensures:
[value] r.data@ == code_str(*error_code)
[wf] r.wf()
start:
proof { lemma_code_len(*error_code); }
=== after stratumv2::mining::open_mining_channel_error::<STR0_255 as From<&OpenMiningChannelErrorCode>>
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a OpenMiningChannelErrorCode> for STR0_255 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &'a OpenMiningChannelErrorCode) -> STR0_255 { arbitrary() } }
impl<'a> VInto<STR0_255> for &'a OpenMiningChannelErrorCode {
    open spec fn conv(self, u: STR0_255) -> bool { u.data@ == code_str(*self) && u.wf() }
    fn v_into(self) -> (r: STR0_255) { proof { let d = self.conv(arbitrary::<STR0_255>()); } <STR0_255 as From<&OpenMiningChannelErrorCode>>::from(self) }
}
=== impl stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![code_str(*self).len() as u8] + vstd::utf8::encode_utf8(code_str(*self)) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as Serializable>::serialize
start:
proof { lemma_code_len(*self); }
=== impl stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    match STR0_255::accepts(s) { Some(n) => if is_code(vstd::utf8::decode_utf8(s.subrange(1, n))) { Some(n) } else { None }, None => None }
}
open spec fn denotes(s: Seq<u8>, v: OpenMiningChannelErrorCode) -> bool { code_str(v) == vstd::utf8::decode_utf8(s.subrange(1, 1 + s[0])) }
=== fn stratumv2::mining::open_mining_channel_error::<OpenMiningChannelErrorCode as Deserializable>::deserialize
start:
broadcast use crate::vshim::lemma_str_chars;
reveal(<STR0_255 as Deserializable>::accepts); reveal(<STR0_255 as Deserializable>::denotes);

=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::REQUIRES_STANDARD_JOBS
ensures:
[flag] Self::REQUIRES_STANDARD_JOBS.bits == 1u32
start:
proof { assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }

=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::REQUIRES_WORK_SELECTION
ensures:
[flag] Self::REQUIRES_WORK_SELECTION.bits == 2u32
start:
proof { assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }

=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::REQUIRES_VERSION_ROLLING
ensures:
[flag] Self::REQUIRES_VERSION_ROLLING.bits == 4u32
start:
proof { assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }

=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::empty
ensures:
[flag] r.bits == 0
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::all
ensures:
[flag] r.bits == 7u32
start:
proof { assert(0u32 | 1u32 == 1u32 && 1u32 | 2u32 == 3u32 && (0u32 | 1u32) | 2u32 == 3u32 && (1u32 | 2u32) | 4u32 == 7u32) by(bit_vector); }
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::bits
ensures:
[flag] r == self.bits
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::from_bits
ensures:
[flag] r is Some <==> bits & !7u32 == 0
[flag] r is Some ==> r->Some_0.bits == bits
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::is_empty
ensures:
[flag] r == (self.bits == 0)
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::contains
ensures:
[flag] r == (self.bits & other.bits == other.bits)
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::from_bits_truncate
ensures:
[flag] r.bits == bits & 7u32
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::intersects
ensures:
[flag] r == (self.bits & other.bits != 0)
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::union
ensures:
[flag] r.bits == self.bits | other.bits
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::intersection
ensures:
[flag] r.bits == self.bits & other.bits
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::difference
ensures:
[flag] r.bits == self.bits & !other.bits
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::complement
ensures:
[flag] r.bits == !self.bits & 7u32
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::insert
ensures:
[flag] final(self).bits == old(self).bits | other.bits
=== fn stratumv2::mining::setup_connection::SetupConnectionFlags::remove
ensures:
[flag] final(self).bits == old(self).bits & !other.bits
=== impl stratumv2::mining::setup_connection::<SetupConnectionFlags as Serializable>
open spec fn enc(&self) -> Seq<u8> { le4(self.bits as int) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::mining::setup_connection::<SetupConnectionFlags as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 4 && (un4(s) as u32) & !7u32 == 0 { Some(4) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SetupConnectionFlags) -> bool { v.bits as int == un4(s) }

=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::NONE
ensures:
[flag] Self::NONE.bits == 0u32
start:
proof { assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }

=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::REQUIRES_FIXED_VERSION
ensures:
[flag] Self::REQUIRES_FIXED_VERSION.bits == 1u32
start:
proof { assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }

=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::REQUIRES_EXTENDED_CHANNELS
ensures:
[flag] Self::REQUIRES_EXTENDED_CHANNELS.bits == 2u32
start:
proof { assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }

=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::empty
ensures:
[flag] r.bits == 0
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::all
ensures:
[flag] r.bits == 3u32
start:
proof { assert(0u32 | 1u32 == 1u32 && 1u32 | 2u32 == 3u32 && (0u32 | 1u32) | 2u32 == 3u32 && (1u32 | 2u32) | 4u32 == 7u32) by(bit_vector); }
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::bits
ensures:
[flag] r == self.bits
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::from_bits
ensures:
[flag] r is Some <==> bits & !3u32 == 0
[flag] r is Some ==> r->Some_0.bits == bits
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::is_empty
ensures:
[flag] r == (self.bits == 0)
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::contains
ensures:
[flag] r == (self.bits & other.bits == other.bits)
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::from_bits_truncate
ensures:
[flag] r.bits == bits & 3u32
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::intersects
ensures:
[flag] r == (self.bits & other.bits != 0)
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::union
ensures:
[flag] r.bits == self.bits | other.bits
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::intersection
ensures:
[flag] r.bits == self.bits & other.bits
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::difference
ensures:
[flag] r.bits == self.bits & !other.bits
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::complement
ensures:
[flag] r.bits == !self.bits & 3u32
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::insert
ensures:
[flag] final(self).bits == old(self).bits | other.bits
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccessFlags::remove
ensures:
[flag] final(self).bits == old(self).bits & !other.bits
=== impl stratumv2::mining::setup_connection_success::<SetupConnectionSuccessFlags as Serializable>
open spec fn enc(&self) -> Seq<u8> { le4(self.bits as int) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::mining::setup_connection_success::<SetupConnectionSuccessFlags as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 4 && (un4(s) as u32) & !3u32 == 0 { Some(4) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SetupConnectionSuccessFlags) -> bool { v.bits as int == un4(s) }

=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::REQUIRES_ASYNC_JOB_MINING
ensures:
[flag] Self::REQUIRES_ASYNC_JOB_MINING.bits == 1u32
start:
proof { assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }

=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::empty
ensures:
[flag] r.bits == 0
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::all
ensures:
[flag] r.bits == 1u32
start:
proof { assert(0u32 | 1u32 == 1u32 && 1u32 | 2u32 == 3u32 && (0u32 | 1u32) | 2u32 == 3u32 && (1u32 | 2u32) | 4u32 == 7u32) by(bit_vector); }
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::bits
ensures:
[flag] r == self.bits
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::from_bits
ensures:
[flag] r is Some <==> bits & !1u32 == 0
[flag] r is Some ==> r->Some_0.bits == bits
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::is_empty
ensures:
[flag] r == (self.bits == 0)
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::contains
ensures:
[flag] r == (self.bits & other.bits == other.bits)
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::from_bits_truncate
ensures:
[flag] r.bits == bits & 1u32
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::intersects
ensures:
[flag] r == (self.bits & other.bits != 0)
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::union
ensures:
[flag] r.bits == self.bits | other.bits
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::intersection
ensures:
[flag] r.bits == self.bits & other.bits
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::difference
ensures:
[flag] r.bits == self.bits & !other.bits
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::complement
ensures:
[flag] r.bits == !self.bits & 1u32
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::insert
ensures:
[flag] final(self).bits == old(self).bits | other.bits
=== fn stratumv2::job_negotiation::setup_connection::SetupConnectionFlags::remove
ensures:
[flag] final(self).bits == old(self).bits & !other.bits
=== impl stratumv2::job_negotiation::setup_connection::<SetupConnectionFlags as Serializable>
open spec fn enc(&self) -> Seq<u8> { le4(self.bits as int) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::job_negotiation::setup_connection::<SetupConnectionFlags as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 4 && (un4(s) as u32) & !1u32 == 0 { Some(4) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SetupConnectionFlags) -> bool { v.bits as int == un4(s) }

=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::NONE
ensures:
[flag] Self::NONE.bits == 0u32
start:
proof { assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }

=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::empty
ensures:
[flag] r.bits == 0
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::all
ensures:
[flag] r.bits == 0u32
start:
proof { assert(0u32 | 1u32 == 1u32 && 1u32 | 2u32 == 3u32 && (0u32 | 1u32) | 2u32 == 3u32 && (1u32 | 2u32) | 4u32 == 7u32) by(bit_vector); }
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::bits
ensures:
[flag] r == self.bits
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::from_bits
ensures:
[flag] r is Some <==> bits & !0u32 == 0
[flag] r is Some ==> r->Some_0.bits == bits
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::is_empty
ensures:
[flag] r == (self.bits == 0)
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::contains
ensures:
[flag] r == (self.bits & other.bits == other.bits)
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::from_bits_truncate
ensures:
[flag] r.bits == bits & 0u32
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::intersects
ensures:
[flag] r == (self.bits & other.bits != 0)
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::union
ensures:
[flag] r.bits == self.bits | other.bits
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::intersection
ensures:
[flag] r.bits == self.bits & other.bits
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::difference
ensures:
[flag] r.bits == self.bits & !other.bits
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::complement
ensures:
[flag] r.bits == !self.bits & 0u32
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::insert
ensures:
[flag] final(self).bits == old(self).bits | other.bits
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccessFlags::remove
ensures:
[flag] final(self).bits == old(self).bits & !other.bits
=== impl stratumv2::job_negotiation::setup_connection_success::<SetupConnectionSuccessFlags as Serializable>
open spec fn enc(&self) -> Seq<u8> { le4(self.bits as int) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::job_negotiation::setup_connection_success::<SetupConnectionSuccessFlags as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 4 && (un4(s) as u32) & !0u32 == 0 { Some(4) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SetupConnectionSuccessFlags) -> bool { v.bits as int == un4(s) }

=== type stratumv2::common::channel_endpoint_changed::ChannelEndpointChanged
derive- PartialEq, Eq
=== impl stratumv2::common::channel_endpoint_changed::ChannelEndpointChanged
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::common::channel_endpoint_changed::ChannelEndpointChanged::new
ensures:
[keep] r is Ok ==> r->Ok_0.channel_id == channel_id
[accept] true ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::common::channel_endpoint_changed::<ChannelEndpointChanged as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.channel_id.enc() }
open spec fn wf(&self) -> bool { self.channel_id.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::common::channel_endpoint_changed::<ChannelEndpointChanged as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 3); }
=== impl stratumv2::common::channel_endpoint_changed::<ChannelEndpointChanged as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { ChannelEndpointChanged::pos1(s) }
open spec fn denotes(s: Seq<u8>, v: ChannelEndpointChanged) -> bool { u32::denotes(s.skip(0), v.channel_id) }
=== fn stratumv2::common::channel_endpoint_changed::<ChannelEndpointChanged as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::common::channel_endpoint_changed::<ChannelEndpointChanged as Frameable>
open spec fn mt() -> MessageType { MessageType::ChannelEndpointChanged }

=== type stratumv2::mining::setup_connection::SetupConnection
derive- PartialEq, Eq
=== impl stratumv2::mining::setup_connection::SetupConnection
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos3(s: Seq<u8>) -> Option<int> { match Self::pos2(s) { Some(p) => match SetupConnectionFlags::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos4(s: Seq<u8>) -> Option<int> { match Self::pos3(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos5(s: Seq<u8>) -> Option<int> { match Self::pos4(s) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos6(s: Seq<u8>) -> Option<int> { match Self::pos5(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos7(s: Seq<u8>) -> Option<int> { match Self::pos6(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos8(s: Seq<u8>) -> Option<int> { match Self::pos7(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos9(s: Seq<u8>) -> Option<int> { match Self::pos8(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::setup_connection::SetupConnection::new
ensures:
[keep] r is Ok ==> r->Ok_0.min_version == min_version
[keep] r is Ok ==> r->Ok_0.max_version == max_version
[keep] r is Ok ==> r->Ok_0.flags == flags
[keep] r is Ok ==> endpoint_host.conv(r->Ok_0.endpoint_host.data)
[wf] r is Ok ==> r->Ok_0.endpoint_host.wf()
[keep] r is Ok ==> r->Ok_0.endpoint_port == endpoint_port
[keep] r is Ok ==> vendor.conv(r->Ok_0.vendor.data)
[wf] r is Ok ==> r->Ok_0.vendor.wf()
[keep] r is Ok ==> hardware_version.conv(r->Ok_0.hardware_version.data)
[wf] r is Ok ==> r->Ok_0.hardware_version.wf()
[keep] r is Ok ==> firmware.conv(r->Ok_0.firmware.data)
[wf] r is Ok ==> r->Ok_0.firmware.wf()
[keep] r is Ok ==> device_id.conv(r->Ok_0.device_id.data)
[wf] r is Ok ==> r->Ok_0.device_id.wf()
[valid] r is Ok ==> r->Ok_0.vendor.data@.len() > 0
[valid] r is Ok ==> r->Ok_0.firmware.data@.len() > 0
[valid] r is Ok ==> r->Ok_0.min_version >= 2 && r->Ok_0.max_version >= 2
[accept] (forall|s: String| endpoint_host.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| vendor.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| hardware_version.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| firmware.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| device_id.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| vendor.conv(s) ==> s@.len() > 0) && (forall|s: String| firmware.conv(s) ==> s@.len() > 0) && min_version >= 2 && max_version >= 2 ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::setup_connection::<SetupConnection as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.min_version.enc() + (self.max_version.enc() + (self.flags.enc() + (self.endpoint_host.enc() + (self.endpoint_port.enc() + (self.vendor.enc() + (self.hardware_version.enc() + (self.firmware.enc() + (self.device_id.enc())))))))) }
open spec fn wf(&self) -> bool { self.min_version.wf() && self.max_version.wf() && self.flags.wf() && self.endpoint_host.wf() && self.endpoint_port.wf() && self.vendor.wf() && self.hardware_version.wf() && self.firmware.wf() && self.device_id.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::setup_connection::<SetupConnection as Serializable>::serialize
start:
proof { assert forall|w: Seq<u8>| #[trigger] (((((((((w + self.min_version.enc()) + self.max_version.enc()) + self.flags.enc()) + self.endpoint_host.enc()) + self.endpoint_port.enc()) + self.vendor.enc()) + self.hardware_version.enc()) + self.firmware.enc()) + self.device_id.enc()) == w + self.enc() by { broadcast use crate::vshim::lemma_assoc; } }
proof { reveal_with_fuel(crate::vshim::sum, 11); }
=== impl stratumv2::mining::setup_connection::<SetupConnection as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if SetupConnection::pos9(s) is Some && un2(s) >= 2 && un2(s.skip(SetupConnection::pos1(s)->Some_0)) >= 2 && s.skip(SetupConnection::pos5(s)->Some_0)[0] != 0 && s.skip(SetupConnection::pos7(s)->Some_0)[0] != 0 { SetupConnection::pos9(s) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SetupConnection) -> bool { u16::denotes(s.skip(0), v.min_version) && u16::denotes(s.skip(SetupConnection::pos1(s)->Some_0), v.max_version) && SetupConnectionFlags::denotes(s.skip(SetupConnection::pos2(s)->Some_0), v.flags) && STR0_255::denotes(s.skip(SetupConnection::pos3(s)->Some_0), v.endpoint_host) && u16::denotes(s.skip(SetupConnection::pos4(s)->Some_0), v.endpoint_port) && STR0_255::denotes(s.skip(SetupConnection::pos5(s)->Some_0), v.vendor) && STR0_255::denotes(s.skip(SetupConnection::pos6(s)->Some_0), v.hardware_version) && STR0_255::denotes(s.skip(SetupConnection::pos7(s)->Some_0), v.firmware) && STR0_255::denotes(s.skip(SetupConnection::pos8(s)->Some_0), v.device_id) }
=== fn stratumv2::mining::setup_connection::<SetupConnection as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::setup_connection::<SetupConnection as Frameable>
open spec fn mt() -> MessageType { MessageType::SetupConnection }

=== type stratumv2::mining::setup_connection_success::SetupConnectionSuccess
derive- PartialEq, Eq
=== impl stratumv2::mining::setup_connection_success::SetupConnectionSuccess
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match SetupConnectionSuccessFlags::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::setup_connection_success::SetupConnectionSuccess::new
ensures:
[keep] r is Ok ==> r->Ok_0.used_version == used_version
[keep] r is Ok ==> r->Ok_0.flags == flags
[accept] true ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::setup_connection_success::<SetupConnectionSuccess as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.used_version.enc() + (self.flags.enc()) }
open spec fn wf(&self) -> bool { self.used_version.wf() && self.flags.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::setup_connection_success::<SetupConnectionSuccess as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 4); }
=== impl stratumv2::mining::setup_connection_success::<SetupConnectionSuccess as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { SetupConnectionSuccess::pos2(s) }
open spec fn denotes(s: Seq<u8>, v: SetupConnectionSuccess) -> bool { u16::denotes(s.skip(0), v.used_version) && SetupConnectionSuccessFlags::denotes(s.skip(SetupConnectionSuccess::pos1(s)->Some_0), v.flags) }
=== fn stratumv2::mining::setup_connection_success::<SetupConnectionSuccess as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::setup_connection_success::<SetupConnectionSuccess as Frameable>
open spec fn mt() -> MessageType { MessageType::SetupConnectionSuccess }

=== type stratumv2::mining::setup_connection_error::SetupConnectionError
derive- PartialEq, Eq
=== impl stratumv2::mining::setup_connection_error::SetupConnectionError
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match SetupConnectionFlags::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match SetupConnectionErrorCode::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::setup_connection_error::SetupConnectionError::new
ensures:
[keep] r is Ok ==> r->Ok_0.flags == flags
[keep] r is Ok ==> r->Ok_0.error_code == error_code
[rule] r is Ok ==> !(flags.bits == 0 && error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags)
[accept] !(flags.bits == 0 && error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags) ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::setup_connection_error::<SetupConnectionError as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.flags.enc() + (self.error_code.enc()) }
open spec fn wf(&self) -> bool { self.flags.wf() && self.error_code.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::setup_connection_error::<SetupConnectionError as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 4); crate::stratumv2::common::setup_connection_error_code::lemma_code_len(self.error_code); }
=== impl stratumv2::mining::setup_connection_error::<SetupConnectionError as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if SetupConnectionError::pos2(s) is Some && !(un4(s) == 0 && vstd::utf8::decode_utf8(s.skip(4).subrange(1, 1 + s.skip(4)[0])) == "unsupported-feature-flags"@) { SetupConnectionError::pos2(s) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SetupConnectionError) -> bool { SetupConnectionFlags::denotes(s.skip(0), v.flags) && SetupConnectionErrorCode::denotes(s.skip(SetupConnectionError::pos1(s)->Some_0), v.error_code) }
=== fn stratumv2::mining::setup_connection_error::<SetupConnectionError as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
proof { assert forall|a: SetupConnectionErrorCode, b: SetupConnectionErrorCode| #[trigger] crate::stratumv2::common::setup_connection_error_code::code_str(a) == #[trigger] crate::stratumv2::common::setup_connection_error_code::code_str(b) implies a == b by { crate::stratumv2::common::setup_connection_error_code::lemma_code_injective(a, b); } assert(crate::stratumv2::common::setup_connection_error_code::code_str(SetupConnectionErrorCode::UnsupportedFeatureFlags) == "unsupported-feature-flags"@); }
=== impl stratumv2::mining::setup_connection_error::<SetupConnectionError as Frameable>
open spec fn mt() -> MessageType { MessageType::SetupConnectionError }

=== type stratumv2::job_negotiation::setup_connection::SetupConnection
derive- PartialEq, Eq
=== impl stratumv2::job_negotiation::setup_connection::SetupConnection
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos3(s: Seq<u8>) -> Option<int> { match Self::pos2(s) { Some(p) => match SetupConnectionFlags::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos4(s: Seq<u8>) -> Option<int> { match Self::pos3(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos5(s: Seq<u8>) -> Option<int> { match Self::pos4(s) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos6(s: Seq<u8>) -> Option<int> { match Self::pos5(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos7(s: Seq<u8>) -> Option<int> { match Self::pos6(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos8(s: Seq<u8>) -> Option<int> { match Self::pos7(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos9(s: Seq<u8>) -> Option<int> { match Self::pos8(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::job_negotiation::setup_connection::SetupConnection::new
ensures:
[keep] r is Ok ==> r->Ok_0.min_version == min_version
[keep] r is Ok ==> r->Ok_0.max_version == max_version
[keep] r is Ok ==> r->Ok_0.flags == flags
[keep] r is Ok ==> endpoint_host.conv(r->Ok_0.endpoint_host.data)
[wf] r is Ok ==> r->Ok_0.endpoint_host.wf()
[keep] r is Ok ==> r->Ok_0.endpoint_port == endpoint_port
[keep] r is Ok ==> vendor.conv(r->Ok_0.vendor.data)
[wf] r is Ok ==> r->Ok_0.vendor.wf()
[keep] r is Ok ==> hardware_version.conv(r->Ok_0.hardware_version.data)
[wf] r is Ok ==> r->Ok_0.hardware_version.wf()
[keep] r is Ok ==> firmware.conv(r->Ok_0.firmware.data)
[wf] r is Ok ==> r->Ok_0.firmware.wf()
[keep] r is Ok ==> device_id.conv(r->Ok_0.device_id.data)
[wf] r is Ok ==> r->Ok_0.device_id.wf()
[valid] r is Ok ==> r->Ok_0.vendor.data@.len() > 0
[valid] r is Ok ==> r->Ok_0.firmware.data@.len() > 0
[valid] r is Ok ==> r->Ok_0.min_version >= 2 && r->Ok_0.max_version >= 2
[accept] (forall|s: String| endpoint_host.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| vendor.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| hardware_version.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| firmware.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| device_id.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| vendor.conv(s) ==> s@.len() > 0) && (forall|s: String| firmware.conv(s) ==> s@.len() > 0) && min_version >= 2 && max_version >= 2 ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::job_negotiation::setup_connection::<SetupConnection as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.min_version.enc() + (self.max_version.enc() + (self.flags.enc() + (self.endpoint_host.enc() + (self.endpoint_port.enc() + (self.vendor.enc() + (self.hardware_version.enc() + (self.firmware.enc() + (self.device_id.enc())))))))) }
open spec fn wf(&self) -> bool { self.min_version.wf() && self.max_version.wf() && self.flags.wf() && self.endpoint_host.wf() && self.endpoint_port.wf() && self.vendor.wf() && self.hardware_version.wf() && self.firmware.wf() && self.device_id.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::job_negotiation::setup_connection::<SetupConnection as Serializable>::serialize
start:
proof { assert forall|w: Seq<u8>| #[trigger] (((((((((w + self.min_version.enc()) + self.max_version.enc()) + self.flags.enc()) + self.endpoint_host.enc()) + self.endpoint_port.enc()) + self.vendor.enc()) + self.hardware_version.enc()) + self.firmware.enc()) + self.device_id.enc()) == w + self.enc() by { broadcast use crate::vshim::lemma_assoc; } }
proof { reveal_with_fuel(crate::vshim::sum, 11); }
=== impl stratumv2::job_negotiation::setup_connection::<SetupConnection as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if SetupConnection::pos9(s) is Some && un2(s) >= 2 && un2(s.skip(SetupConnection::pos1(s)->Some_0)) >= 2 && s.skip(SetupConnection::pos5(s)->Some_0)[0] != 0 && s.skip(SetupConnection::pos7(s)->Some_0)[0] != 0 { SetupConnection::pos9(s) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SetupConnection) -> bool { u16::denotes(s.skip(0), v.min_version) && u16::denotes(s.skip(SetupConnection::pos1(s)->Some_0), v.max_version) && SetupConnectionFlags::denotes(s.skip(SetupConnection::pos2(s)->Some_0), v.flags) && STR0_255::denotes(s.skip(SetupConnection::pos3(s)->Some_0), v.endpoint_host) && u16::denotes(s.skip(SetupConnection::pos4(s)->Some_0), v.endpoint_port) && STR0_255::denotes(s.skip(SetupConnection::pos5(s)->Some_0), v.vendor) && STR0_255::denotes(s.skip(SetupConnection::pos6(s)->Some_0), v.hardware_version) && STR0_255::denotes(s.skip(SetupConnection::pos7(s)->Some_0), v.firmware) && STR0_255::denotes(s.skip(SetupConnection::pos8(s)->Some_0), v.device_id) }
=== fn stratumv2::job_negotiation::setup_connection::<SetupConnection as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::job_negotiation::setup_connection::<SetupConnection as Frameable>
open spec fn mt() -> MessageType { MessageType::SetupConnection }

=== type stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccess
derive- PartialEq, Eq
=== impl stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccess
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match SetupConnectionSuccessFlags::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::job_negotiation::setup_connection_success::SetupConnectionSuccess::new
ensures:
[keep] r is Ok ==> r->Ok_0.used_version == used_version
[keep] r is Ok ==> r->Ok_0.flags == flags
[accept] true ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::job_negotiation::setup_connection_success::<SetupConnectionSuccess as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.used_version.enc() + (self.flags.enc()) }
open spec fn wf(&self) -> bool { self.used_version.wf() && self.flags.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::job_negotiation::setup_connection_success::<SetupConnectionSuccess as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 4); }
=== impl stratumv2::job_negotiation::setup_connection_success::<SetupConnectionSuccess as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { SetupConnectionSuccess::pos2(s) }
open spec fn denotes(s: Seq<u8>, v: SetupConnectionSuccess) -> bool { u16::denotes(s.skip(0), v.used_version) && SetupConnectionSuccessFlags::denotes(s.skip(SetupConnectionSuccess::pos1(s)->Some_0), v.flags) }
=== fn stratumv2::job_negotiation::setup_connection_success::<SetupConnectionSuccess as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::job_negotiation::setup_connection_success::<SetupConnectionSuccess as Frameable>
open spec fn mt() -> MessageType { MessageType::SetupConnectionSuccess }

=== type stratumv2::job_negotiation::setup_connection_error::SetupConnectionError
derive- PartialEq, Eq
=== impl stratumv2::job_negotiation::setup_connection_error::SetupConnectionError
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match SetupConnectionFlags::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match SetupConnectionErrorCode::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::job_negotiation::setup_connection_error::SetupConnectionError::new
ensures:
[keep] r is Ok ==> r->Ok_0.flags == flags
[keep] r is Ok ==> r->Ok_0.error_code == error_code
[rule] r is Ok ==> !(flags.bits == 0 && error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags)
[accept] !(flags.bits == 0 && error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags) ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::job_negotiation::setup_connection_error::<SetupConnectionError as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.flags.enc() + (self.error_code.enc()) }
open spec fn wf(&self) -> bool { self.flags.wf() && self.error_code.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::job_negotiation::setup_connection_error::<SetupConnectionError as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 4); crate::stratumv2::common::setup_connection_error_code::lemma_code_len(self.error_code); }
=== impl stratumv2::job_negotiation::setup_connection_error::<SetupConnectionError as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if SetupConnectionError::pos2(s) is Some && !(un4(s) == 0 && vstd::utf8::decode_utf8(s.skip(4).subrange(1, 1 + s.skip(4)[0])) == "unsupported-feature-flags"@) { SetupConnectionError::pos2(s) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SetupConnectionError) -> bool { SetupConnectionFlags::denotes(s.skip(0), v.flags) && SetupConnectionErrorCode::denotes(s.skip(SetupConnectionError::pos1(s)->Some_0), v.error_code) }
=== fn stratumv2::job_negotiation::setup_connection_error::<SetupConnectionError as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
proof { assert forall|a: SetupConnectionErrorCode, b: SetupConnectionErrorCode| #[trigger] crate::stratumv2::common::setup_connection_error_code::code_str(a) == #[trigger] crate::stratumv2::common::setup_connection_error_code::code_str(b) implies a == b by { crate::stratumv2::common::setup_connection_error_code::lemma_code_injective(a, b); } assert(crate::stratumv2::common::setup_connection_error_code::code_str(SetupConnectionErrorCode::UnsupportedFeatureFlags) == "unsupported-feature-flags"@); }
=== impl stratumv2::job_negotiation::setup_connection_error::<SetupConnectionError as Frameable>
open spec fn mt() -> MessageType { MessageType::SetupConnectionError }

=== type stratumv2::mining::open_standard_mining_channel::OpenStandardMiningChannel
derive- PartialEq, Eq
=== impl stratumv2::mining::open_standard_mining_channel::OpenStandardMiningChannel
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos3(s: Seq<u8>) -> Option<int> { match Self::pos2(s) { Some(p) => match f32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos4(s: Seq<u8>) -> Option<int> { match Self::pos3(s) { Some(p) => match U256::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::open_standard_mining_channel::OpenStandardMiningChannel::new
ensures:
[keep] r is Ok ==> r->Ok_0.request_id == request_id
[keep] r is Ok ==> user_identity.conv(r->Ok_0.user_identity.data)
[wf] r is Ok ==> r->Ok_0.user_identity.wf()
[keep] r is Ok ==> r->Ok_0.nominal_hash_rate == nominal_hash_rate
[keep] r is Ok ==> max_target.conv(r->Ok_0.max_target)
[accept] (forall|s: String| user_identity.conv(s) ==> sbytes(s).len() <= 255) ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::open_standard_mining_channel::<OpenStandardMiningChannel as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.request_id.enc() + (self.user_identity.enc() + (self.nominal_hash_rate.enc() + (self.max_target.enc()))) }
open spec fn wf(&self) -> bool { self.request_id.wf() && self.user_identity.wf() && self.nominal_hash_rate.wf() && self.max_target.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::open_standard_mining_channel::<OpenStandardMiningChannel as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 6); }
=== impl stratumv2::mining::open_standard_mining_channel::<OpenStandardMiningChannel as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { OpenStandardMiningChannel::pos4(s) }
open spec fn denotes(s: Seq<u8>, v: OpenStandardMiningChannel) -> bool { u32::denotes(s.skip(0), v.request_id) && STR0_255::denotes(s.skip(OpenStandardMiningChannel::pos1(s)->Some_0), v.user_identity) && f32::denotes(s.skip(OpenStandardMiningChannel::pos2(s)->Some_0), v.nominal_hash_rate) && U256::denotes(s.skip(OpenStandardMiningChannel::pos3(s)->Some_0), v.max_target) }
=== fn stratumv2::mining::open_standard_mining_channel::<OpenStandardMiningChannel as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::open_standard_mining_channel::<OpenStandardMiningChannel as Frameable>
open spec fn mt() -> MessageType { MessageType::OpenStandardMiningChannel }

=== type stratumv2::mining::open_standard_mining_channel_success::OpenStandardMiningChannelSuccess
derive- PartialEq, Eq
=== impl stratumv2::mining::open_standard_mining_channel_success::OpenStandardMiningChannelSuccess
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos3(s: Seq<u8>) -> Option<int> { match Self::pos2(s) { Some(p) => match U256::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos4(s: Seq<u8>) -> Option<int> { match Self::pos3(s) { Some(p) => match B0_32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos5(s: Seq<u8>) -> Option<int> { match Self::pos4(s) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::open_standard_mining_channel_success::OpenStandardMiningChannelSuccess::new
ensures:
[keep] r is Ok ==> r->Ok_0.request_id == request_id
[keep] r is Ok ==> r->Ok_0.channel_id == channel_id
[keep] r is Ok ==> target.conv(r->Ok_0.target)
[keep] r is Ok ==> extranonce_prefix.conv(r->Ok_0.extranonce_prefix.data)
[wf] r is Ok ==> r->Ok_0.extranonce_prefix.wf()
[keep] r is Ok ==> r->Ok_0.group_channel_id == group_channel_id
[accept] (forall|s: Vec<u8>| extranonce_prefix.conv(s) ==> s@.len() <= 32) ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::open_standard_mining_channel_success::<OpenStandardMiningChannelSuccess as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.request_id.enc() + (self.channel_id.enc() + (self.target.enc() + (self.extranonce_prefix.enc() + (self.group_channel_id.enc())))) }
open spec fn wf(&self) -> bool { self.request_id.wf() && self.channel_id.wf() && self.target.wf() && self.extranonce_prefix.wf() && self.group_channel_id.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::open_standard_mining_channel_success::<OpenStandardMiningChannelSuccess as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 7); }
=== impl stratumv2::mining::open_standard_mining_channel_success::<OpenStandardMiningChannelSuccess as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { OpenStandardMiningChannelSuccess::pos5(s) }
open spec fn denotes(s: Seq<u8>, v: OpenStandardMiningChannelSuccess) -> bool { u32::denotes(s.skip(0), v.request_id) && u32::denotes(s.skip(OpenStandardMiningChannelSuccess::pos1(s)->Some_0), v.channel_id) && U256::denotes(s.skip(OpenStandardMiningChannelSuccess::pos2(s)->Some_0), v.target) && B0_32::denotes(s.skip(OpenStandardMiningChannelSuccess::pos3(s)->Some_0), v.extranonce_prefix) && u32::denotes(s.skip(OpenStandardMiningChannelSuccess::pos4(s)->Some_0), v.group_channel_id) }
=== fn stratumv2::mining::open_standard_mining_channel_success::<OpenStandardMiningChannelSuccess as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::open_standard_mining_channel_success::<OpenStandardMiningChannelSuccess as Frameable>
open spec fn mt() -> MessageType { MessageType::OpenStandardMiningChannelSuccess }

=== type stratumv2::mining::open_standard_mining_channel_error::OpenStandardMiningChannelError
derive- PartialEq, Eq
=== impl stratumv2::mining::open_standard_mining_channel_error::OpenStandardMiningChannelError
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match OpenMiningChannelErrorCode::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::open_standard_mining_channel_error::OpenStandardMiningChannelError::new
ensures:
[keep] r is Ok ==> r->Ok_0.request_id == request_id
[keep] r is Ok ==> r->Ok_0.error_code == error_code
[accept] true ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::open_standard_mining_channel_error::<OpenStandardMiningChannelError as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.request_id.enc() + (self.error_code.enc()) }
open spec fn wf(&self) -> bool { self.request_id.wf() && self.error_code.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::open_standard_mining_channel_error::<OpenStandardMiningChannelError as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 4); crate::stratumv2::mining::open_mining_channel_error::lemma_code_len(self.error_code); }
=== impl stratumv2::mining::open_standard_mining_channel_error::<OpenStandardMiningChannelError as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { OpenStandardMiningChannelError::pos2(s) }
open spec fn denotes(s: Seq<u8>, v: OpenStandardMiningChannelError) -> bool { u32::denotes(s.skip(0), v.request_id) && OpenMiningChannelErrorCode::denotes(s.skip(OpenStandardMiningChannelError::pos1(s)->Some_0), v.error_code) }
=== fn stratumv2::mining::open_standard_mining_channel_error::<OpenStandardMiningChannelError as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::open_standard_mining_channel_error::<OpenStandardMiningChannelError as Frameable>
open spec fn mt() -> MessageType { MessageType::OpenStandardMiningChannelError }

=== type stratumv2::mining::open_extended_mining_channel::OpenExtendedMiningChannel
derive- PartialEq, Eq
=== impl stratumv2::mining::open_extended_mining_channel::OpenExtendedMiningChannel
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match STR0_255::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos3(s: Seq<u8>) -> Option<int> { match Self::pos2(s) { Some(p) => match f32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos4(s: Seq<u8>) -> Option<int> { match Self::pos3(s) { Some(p) => match U256::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos5(s: Seq<u8>) -> Option<int> { match Self::pos4(s) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::open_extended_mining_channel::OpenExtendedMiningChannel::new
ensures:
[keep] r is Ok ==> r->Ok_0.request_id == request_id
[keep] r is Ok ==> user_identity.conv(r->Ok_0.user_identity.data)
[wf] r is Ok ==> r->Ok_0.user_identity.wf()
[keep] r is Ok ==> r->Ok_0.nominal_hash_rate == nominal_hash_rate
[keep] r is Ok ==> max_target.conv(r->Ok_0.max_target)
[keep] r is Ok ==> r->Ok_0.min_extranonce_size == min_extranonce_size
[accept] (forall|s: String| user_identity.conv(s) ==> sbytes(s).len() <= 255) ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::open_extended_mining_channel::<OpenExtendedMiningChannel as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.request_id.enc() + (self.user_identity.enc() + (self.nominal_hash_rate.enc() + (self.max_target.enc() + (self.min_extranonce_size.enc())))) }
open spec fn wf(&self) -> bool { self.request_id.wf() && self.user_identity.wf() && self.nominal_hash_rate.wf() && self.max_target.wf() && self.min_extranonce_size.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::open_extended_mining_channel::<OpenExtendedMiningChannel as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 7); }
=== impl stratumv2::mining::open_extended_mining_channel::<OpenExtendedMiningChannel as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { OpenExtendedMiningChannel::pos5(s) }
open spec fn denotes(s: Seq<u8>, v: OpenExtendedMiningChannel) -> bool { u32::denotes(s.skip(0), v.request_id) && STR0_255::denotes(s.skip(OpenExtendedMiningChannel::pos1(s)->Some_0), v.user_identity) && f32::denotes(s.skip(OpenExtendedMiningChannel::pos2(s)->Some_0), v.nominal_hash_rate) && U256::denotes(s.skip(OpenExtendedMiningChannel::pos3(s)->Some_0), v.max_target) && u16::denotes(s.skip(OpenExtendedMiningChannel::pos4(s)->Some_0), v.min_extranonce_size) }
=== fn stratumv2::mining::open_extended_mining_channel::<OpenExtendedMiningChannel as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::open_extended_mining_channel::<OpenExtendedMiningChannel as Frameable>
open spec fn mt() -> MessageType { MessageType::OpenExtendedMiningChannel }

=== type stratumv2::mining::open_extended_mining_channel_success::OpenExtendedMiningChannelSuccess
derive- PartialEq, Eq
=== impl stratumv2::mining::open_extended_mining_channel_success::OpenExtendedMiningChannelSuccess
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos3(s: Seq<u8>) -> Option<int> { match Self::pos2(s) { Some(p) => match U256::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos4(s: Seq<u8>) -> Option<int> { match Self::pos3(s) { Some(p) => match u16::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos5(s: Seq<u8>) -> Option<int> { match Self::pos4(s) { Some(p) => match B0_32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::open_extended_mining_channel_success::OpenExtendedMiningChannelSuccess::new
ensures:
[keep] r is Ok ==> r->Ok_0.request_id == request_id
[keep] r is Ok ==> r->Ok_0.channel_id == channel_id
[keep] r is Ok ==> target.conv(r->Ok_0.target)
[keep] r is Ok ==> r->Ok_0.extranonce_size == extranonce_size
[keep] r is Ok ==> extranonce_prefix.conv(r->Ok_0.extranonce_prefix.data)
[wf] r is Ok ==> r->Ok_0.extranonce_prefix.wf()
[accept] (forall|s: Vec<u8>| extranonce_prefix.conv(s) ==> s@.len() <= 32) ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::open_extended_mining_channel_success::<OpenExtendedMiningChannelSuccess as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.request_id.enc() + (self.channel_id.enc() + (self.target.enc() + (self.extranonce_size.enc() + (self.extranonce_prefix.enc())))) }
open spec fn wf(&self) -> bool { self.request_id.wf() && self.channel_id.wf() && self.target.wf() && self.extranonce_size.wf() && self.extranonce_prefix.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::open_extended_mining_channel_success::<OpenExtendedMiningChannelSuccess as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 7); }
=== impl stratumv2::mining::open_extended_mining_channel_success::<OpenExtendedMiningChannelSuccess as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { OpenExtendedMiningChannelSuccess::pos5(s) }
open spec fn denotes(s: Seq<u8>, v: OpenExtendedMiningChannelSuccess) -> bool { u32::denotes(s.skip(0), v.request_id) && u32::denotes(s.skip(OpenExtendedMiningChannelSuccess::pos1(s)->Some_0), v.channel_id) && U256::denotes(s.skip(OpenExtendedMiningChannelSuccess::pos2(s)->Some_0), v.target) && u16::denotes(s.skip(OpenExtendedMiningChannelSuccess::pos3(s)->Some_0), v.extranonce_size) && B0_32::denotes(s.skip(OpenExtendedMiningChannelSuccess::pos4(s)->Some_0), v.extranonce_prefix) }
=== fn stratumv2::mining::open_extended_mining_channel_success::<OpenExtendedMiningChannelSuccess as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::open_extended_mining_channel_success::<OpenExtendedMiningChannelSuccess as Frameable>
open spec fn mt() -> MessageType { MessageType::OpenExtendedMiningChannelSuccess }

=== type stratumv2::mining::open_extended_mining_channel_error::OpenExtendedMiningChannelError
derive- PartialEq, Eq
=== impl stratumv2::mining::open_extended_mining_channel_error::OpenExtendedMiningChannelError
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match OpenMiningChannelErrorCode::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::open_extended_mining_channel_error::OpenExtendedMiningChannelError::new
ensures:
[keep] r is Ok ==> r->Ok_0.request_id == request_id
[keep] r is Ok ==> r->Ok_0.error_code == error_code
[accept] true ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::open_extended_mining_channel_error::<OpenExtendedMiningChannelError as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.request_id.enc() + (self.error_code.enc()) }
open spec fn wf(&self) -> bool { self.request_id.wf() && self.error_code.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::open_extended_mining_channel_error::<OpenExtendedMiningChannelError as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 4); crate::stratumv2::mining::open_mining_channel_error::lemma_code_len(self.error_code); }
=== impl stratumv2::mining::open_extended_mining_channel_error::<OpenExtendedMiningChannelError as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { OpenExtendedMiningChannelError::pos2(s) }
open spec fn denotes(s: Seq<u8>, v: OpenExtendedMiningChannelError) -> bool { u32::denotes(s.skip(0), v.request_id) && OpenMiningChannelErrorCode::denotes(s.skip(OpenExtendedMiningChannelError::pos1(s)->Some_0), v.error_code) }
=== fn stratumv2::mining::open_extended_mining_channel_error::<OpenExtendedMiningChannelError as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::open_extended_mining_channel_error::<OpenExtendedMiningChannelError as Frameable>
open spec fn mt() -> MessageType { MessageType::OpenExtendedMiningChannelError }

=== type stratumv2::mining::update_channel::UpdateChannel
derive- PartialEq, Eq
=== impl stratumv2::mining::update_channel::UpdateChannel
pub open spec fn pos1(s: Seq<u8>) -> Option<int> { match Some(0int) { Some(p) => match u32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos2(s: Seq<u8>) -> Option<int> { match Self::pos1(s) { Some(p) => match f32::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
pub open spec fn pos3(s: Seq<u8>) -> Option<int> { match Self::pos2(s) { Some(p) => match U256::accepts(s.skip(p)) { Some(n) => Some(p + n), None => None }, None => None } }
=== fn stratumv2::mining::update_channel::UpdateChannel::new
ensures:
[keep] r is Ok ==> r->Ok_0.channel_id == channel_id
[keep] r is Ok ==> r->Ok_0.nominal_hash_rate == nominal_hash_rate
[keep] r is Ok ==> max_target.conv(r->Ok_0.max_target)
[accept] true ==> r is Ok
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl stratumv2::mining::update_channel::<UpdateChannel as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.channel_id.enc() + (self.nominal_hash_rate.enc() + (self.max_target.enc())) }
open spec fn wf(&self) -> bool { self.channel_id.wf() && self.nominal_hash_rate.wf() && self.max_target.wf() }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::mining::update_channel::<UpdateChannel as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
proof { reveal_with_fuel(crate::vshim::sum, 5); }
=== impl stratumv2::mining::update_channel::<UpdateChannel as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { UpdateChannel::pos3(s) }
open spec fn denotes(s: Seq<u8>, v: UpdateChannel) -> bool { u32::denotes(s.skip(0), v.channel_id) && f32::denotes(s.skip(UpdateChannel::pos1(s)->Some_0), v.nominal_hash_rate) && U256::denotes(s.skip(UpdateChannel::pos2(s)->Some_0), v.max_target) }
=== fn stratumv2::mining::update_channel::<UpdateChannel as Deserializable>::deserialize
start:
broadcast use {crate::vshim::lemma_str_chars, crate::stratumv2::types::strings::lemma_STR0_255_denotes, crate::stratumv2::types::strings::lemma_STR0_255_accepts};
=== impl stratumv2::mining::update_channel::<UpdateChannel as Frameable>
open spec fn mt() -> MessageType { MessageType::UpdateChannel }
