=== type stratumv2::types::message_type::MessageType
derive+ Structural, Eq
=== type stratumv2::codec::frame::Message
derive- PartialEq, Eq
=== mod stratumv2::types::message_type
/// the Stratum V2 table: (extension type, message number, channel bit)
pub open spec fn row(m: MessageType) -> (int, int, bool) {
    match m {
        MessageType::SetupConnection => (0, 0x00, false),
        MessageType::SetupConnectionSuccess => (0, 0x01, false),
        MessageType::SetupConnectionError => (0, 0x02, false),
        MessageType::ChannelEndpointChanged => (0, 0x03, true),
        MessageType::OpenStandardMiningChannel => (0, 0x10, false),
        MessageType::OpenStandardMiningChannelSuccess => (0, 0x11, false),
        MessageType::OpenStandardMiningChannelError => (0, 0x12, false),
        MessageType::OpenExtendedMiningChannel => (0, 0x13, false),
        MessageType::OpenExtendedMiningChannelSuccess => (0, 0x14, false),
        MessageType::OpenExtendedMiningChannelError => (0, 0x15, false),
        MessageType::UpdateChannel => (0, 0x16, true),
        MessageType::UpdateChannelError => (0, 0x17, true),
        MessageType::CloseChannel => (0, 0x18, true),
        MessageType::SetExtranoncePrefix => (0, 0x19, true),
        MessageType::SubmitSharesStandard => (0, 0x1a, true),
        MessageType::SubmitSharesExtended => (0, 0x1b, true),
        MessageType::SubmitSharesSuccess => (0, 0x1c, true),
        MessageType::SubmitSharesError => (0, 0x1d, true),
        MessageType::NewMiningJob => (0, 0x1e, true),
        MessageType::NewExtendedMiningJob => (0, 0x1f, true),
        MessageType::SetNewPrevHash => (0, 0x20, true),
        MessageType::SetTarget => (0, 0x21, true),
        MessageType::SetCustomMiningJob => (0, 0x22, false),
        MessageType::SetCustomMiningJobSuccess => (0, 0x23, false),
        MessageType::SetCustomMiningJobError => (0, 0x24, false),
        MessageType::Reconnect => (0, 0x25, false),
        MessageType::SetGroupChannel => (0, 0x26, false),
        MessageType::TestMessage1 => (0, 0xfe, false),
        MessageType::TestMessage2 => (0, 0xff, true),
    }
}
/// is (extension, number) in the table
pub open spec fn known(e: int, n: int) -> bool {
    e == 0 && (0 <= n <= 3 || 0x10 <= n <= 0x26 || n == 0xfe || n == 0xff)
}
/// one-to-one: the pair determines the type
pub proof fn lemma_table_injective(a: MessageType, b: MessageType)
    requires row(a).0 == row(b).0, row(a).1 == row(b).1
    ensures a == b
{}
/// every type is known
pub proof fn lemma_table_known(a: MessageType)
    ensures known(row(a).0, row(a).1)
{}
=== fn stratumv2::types::message_type::MessageType::new
ensures:
[table] r is Ok <==> known(ext_type as int, msg_type as int)
[table] r is Ok ==> row(r->Ok_0).0 == ext_type && row(r->Ok_0).1 == msg_type
[error] r is Err ==> r->Err_0 is UnknownMessageType
=== fn stratumv2::types::message_type::MessageType::ext_type
ensures:
[table] r == row(*self).0
=== fn stratumv2::types::message_type::MessageType::msg_type
ensures:
[table] r == row(*self).1
=== fn stratumv2::types::message_type::MessageType::channel_bit
ensures:
[table] r == row(*self).2

=== trait stratumv2::codec::frame::Frameable
/// the declared frame type
spec fn mt() -> MessageType;
=== fn stratumv2::codec::frame::Frameable::message_type
ensures:
[mt] r == Self::mt()

=== fn stratumv2::codec::frame::Message::new
ensures:
[keep] r.message_type == message_type
[keep] payload.conv(r.payload)

=== mod stratumv2::codec::frame
use crate::stratumv2::types::message_type::{row, known};
/// first two header bytes as a number
pub open spec fn head(m: MessageType) -> int { row(m).0 + if row(m).2 { 32768int } else { 0 } }
=== impl stratumv2::codec::frame::<Message as Serializable>
open spec fn enc(&self) -> Seq<u8> {
    le2(head(self.message_type)) + (seq![row(self.message_type).1 as u8] + (le3(self.payload@.len() as int) + self.payload@))
}
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { self.payload@.len() <= 16777215 }
=== fn stratumv2::codec::frame::<Message as Serializable>::serialize
start:
proof {
    reveal_with_fuel(crate::vshim::sum, 6);
    assert(0u16 | 0x8000u16 == 0x8000u16) by(bit_vector);
}
broadcast use crate::vshim::lemma_assoc;
=== impl stratumv2::codec::frame::<Message as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() >= 6 && known(un2(s) % 32768, s[2] as int) && s.len() >= 6 + un3(s.skip(3))
        && (exists|m: MessageType| #[trigger] row(m) == (un2(s) % 32768, s[2] as int, un2(s) >= 32768)) {
        Some(6 + un3(s.skip(3)))
    } else { None }
}
open spec fn denotes(s: Seq<u8>, v: Message) -> bool {
    row(v.message_type) == (un2(s) % 32768, s[2] as int, un2(s) >= 32768)
        && v.payload@ == s.subrange(6, 6 + un3(s.skip(3)))
}
=== fn stratumv2::codec::frame::<Message as Deserializable>::deserialize
start:
proof {
    assert(forall|x: u16| #![auto] (x & 0x8000u16 != 0) == (x >= 0x8000u16)) by(bit_vector);
    assert(forall|x: u16| #![auto] x & 0x7FFFu16 == x % 0x8000u16) by(bit_vector);
    assert forall|a: MessageType, b: MessageType| #![trigger row(a), row(b)] row(a).0 == row(b).0 && row(a).1 == row(b).1 implies a == b by {
        crate::stratumv2::types::message_type::lemma_table_injective(a, b);
    }
}

=== fn stratumv2::codec::frame::frame
requires:
[wf] payload.wf()
ensures:
[frame] r is Ok <==> payload.encodable()
[frame] r is Ok ==> r->Ok_0.message_type == T::mt() && r->Ok_0.payload@ == payload.enc()
=== fn stratumv2::codec::frame::unframe
ensures:
[unframe] r is Ok <==> message.message_type == T::mt() && T::accepts(message.payload@) is Some
[unframe] r is Ok ==> T::denotes(message.payload@, r->Ok_0)
[unframe] message.message_type != T::mt() ==> (r matches Err(Error::UnexpectedMessageType(e, n)) && e == row(T::mt()).0 && n == row(T::mt()).1)

=== fn stratumv2::types::unix_timestamp::system_unix_time_to_u32
ensures:
[time] r is Ok <==> 0 <= time.nanos() && time.nanos() / 1000000000 <= 4294967295
[time] r is Ok ==> r->Ok_0 == time.nanos() / 1000000000
=== fn stratumv2::types::unix_timestamp::unix_u32_now
ensures:
[now] exists|t: int| #[trigger] crate::ext::time::clock(t) && (r is Ok <==> 0 <= t && t / 1000000000 <= 4294967295) && (r is Ok ==> r->Ok_0 == t / 1000000000)

=== type stratumv2::common::setup_connection::Protocol
derive+ Structural, Eq
=== mod stratumv2::common::setup_connection
pub open spec fn pbyte(p: Protocol) -> int {
    match p { Protocol::Mining => 0, Protocol::JobNegotiation => 1, Protocol::TemplateDistribution => 2, Protocol::JobDistribution => 3 }
}
=== fn stratumv2::common::setup_connection::<u8 as From<&Protocol>>::from
ensures:
[protocol] r == pbyte(*protocol)
=== after stratumv2::common::setup_connection::<u8 as From<&Protocol>>
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Protocol> for u8 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Protocol) -> u8 { pbyte(*v) as u8 } }
=== fn stratumv2::common::setup_connection::<u8 as From<Protocol>>::from
ensures:
[protocol] r == pbyte(protocol)
=== after stratumv2::common::setup_connection::<u8 as From<Protocol>>
impl vstd::std_specs::convert::FromSpecImpl<Protocol> for u8 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Protocol) -> u8 { pbyte(v) as u8 } }
=== fn stratumv2::common::setup_connection::<Protocol as TryFrom<u8>>::try_from
ensures:
[protocol] r is Ok <==> byte <= 3
[protocol] r is Ok ==> pbyte(r->Ok_0) == byte
=== after stratumv2::common::setup_connection::<Protocol as TryFrom<u8>>
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for Protocol { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: u8) -> core::result::Result<Protocol, Error> { arbitrary() } }
=== impl stratumv2::common::setup_connection::<Protocol as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![pbyte(*self) as u8] }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::common::setup_connection::<Protocol as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 1 && s[0] <= 3 { Some(1) } else { None } }
open spec fn denotes(s: Seq<u8>, v: Protocol) -> bool { pbyte(v) == s[0] }

=== impl stratumv2::common::setup_connection::<SetupConnection as Serializable>
open spec fn enc(&self) -> Seq<u8> {
    match self {
        SetupConnection::Mining(v) => seq![0u8] + v.enc(),
        SetupConnection::JobNegotiation(v) => seq![1u8] + v.enc(),
    }
}
open spec fn wf(&self) -> bool { match self { SetupConnection::Mining(v) => v.wf(), SetupConnection::JobNegotiation(v) => v.wf() } }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::common::setup_connection::<SetupConnection as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() == 0 { None } else {
        let n = if s[0] == 0 { mining::SetupConnection::accepts(s.skip(1)) } else if s[0] == 1 { job_negotiation::SetupConnection::accepts(s.skip(1)) } else { None };
        match n { Some(n) => Some(n + 1), None => None }
    }
}
open spec fn denotes(s: Seq<u8>, v: SetupConnection) -> bool {
    match v {
        SetupConnection::Mining(m) => s[0] == 0 && mining::SetupConnection::denotes(s.skip(1), m),
        SetupConnection::JobNegotiation(m) => s[0] == 1 && job_negotiation::SetupConnection::denotes(s.skip(1), m),
    }
}
=== impl stratumv2::common::setup_connection::<SetupConnection as Frameable>
open spec fn mt() -> MessageType { MessageType::SetupConnection }

=== fn stratumv2::common::setup_connection::SetupConnection::new_mining
ensures:
[variant] r is Ok ==> r->Ok_0 is Mining
[keep] r is Ok ==> r->Ok_0->Mining_0.min_version == min_version
[keep] r is Ok ==> r->Ok_0->Mining_0.max_version == max_version
[keep] r is Ok ==> r->Ok_0->Mining_0.flags == flags
[keep] r is Ok ==> r->Ok_0->Mining_0.endpoint_port == endpoint_port
[keep] r is Ok ==> endpoint_host.conv(r->Ok_0->Mining_0.endpoint_host.data)
[wf] r is Ok ==> r->Ok_0->Mining_0.endpoint_host.wf()
[keep] r is Ok ==> vendor.conv(r->Ok_0->Mining_0.vendor.data)
[wf] r is Ok ==> r->Ok_0->Mining_0.vendor.wf()
[keep] r is Ok ==> hardware_version.conv(r->Ok_0->Mining_0.hardware_version.data)
[wf] r is Ok ==> r->Ok_0->Mining_0.hardware_version.wf()
[keep] r is Ok ==> firmware.conv(r->Ok_0->Mining_0.firmware.data)
[wf] r is Ok ==> r->Ok_0->Mining_0.firmware.wf()
[keep] r is Ok ==> device_id.conv(r->Ok_0->Mining_0.device_id.data)
[wf] r is Ok ==> r->Ok_0->Mining_0.device_id.wf()
[valid] r is Ok ==> r->Ok_0->Mining_0.vendor.data@.len() > 0
[valid] r is Ok ==> r->Ok_0->Mining_0.firmware.data@.len() > 0
[valid] r is Ok ==> r->Ok_0->Mining_0.min_version >= 2 && r->Ok_0->Mining_0.max_version >= 2
[accept] (forall|s: String| endpoint_host.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| vendor.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| hardware_version.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| firmware.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| device_id.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| vendor.conv(s) ==> s@.len() > 0) && (forall|s: String| firmware.conv(s) ==> s@.len() > 0) && min_version >= 2 && max_version >= 2 ==> r is Ok
=== fn stratumv2::common::setup_connection::SetupConnection::new_job_negotation
ensures:
[variant] r is Ok ==> r->Ok_0 is JobNegotiation
[keep] r is Ok ==> r->Ok_0->JobNegotiation_0.min_version == min_version
[keep] r is Ok ==> r->Ok_0->JobNegotiation_0.max_version == max_version
[keep] r is Ok ==> r->Ok_0->JobNegotiation_0.flags == flags
[keep] r is Ok ==> r->Ok_0->JobNegotiation_0.endpoint_port == endpoint_port
[keep] r is Ok ==> endpoint_host.conv(r->Ok_0->JobNegotiation_0.endpoint_host.data)
[wf] r is Ok ==> r->Ok_0->JobNegotiation_0.endpoint_host.wf()
[keep] r is Ok ==> vendor.conv(r->Ok_0->JobNegotiation_0.vendor.data)
[wf] r is Ok ==> r->Ok_0->JobNegotiation_0.vendor.wf()
[keep] r is Ok ==> hardware_version.conv(r->Ok_0->JobNegotiation_0.hardware_version.data)
[wf] r is Ok ==> r->Ok_0->JobNegotiation_0.hardware_version.wf()
[keep] r is Ok ==> firmware.conv(r->Ok_0->JobNegotiation_0.firmware.data)
[wf] r is Ok ==> r->Ok_0->JobNegotiation_0.firmware.wf()
[keep] r is Ok ==> device_id.conv(r->Ok_0->JobNegotiation_0.device_id.data)
[wf] r is Ok ==> r->Ok_0->JobNegotiation_0.device_id.wf()
[valid] r is Ok ==> r->Ok_0->JobNegotiation_0.vendor.data@.len() > 0
[valid] r is Ok ==> r->Ok_0->JobNegotiation_0.firmware.data@.len() > 0
[valid] r is Ok ==> r->Ok_0->JobNegotiation_0.min_version >= 2 && r->Ok_0->JobNegotiation_0.max_version >= 2
[accept] (forall|s: String| endpoint_host.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| vendor.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| hardware_version.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| firmware.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| device_id.conv(s) ==> sbytes(s).len() <= 255) && (forall|s: String| vendor.conv(s) ==> s@.len() > 0) && (forall|s: String| firmware.conv(s) ==> s@.len() > 0) && min_version >= 2 && max_version >= 2 ==> r is Ok
