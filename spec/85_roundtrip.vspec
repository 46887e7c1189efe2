#! generated by gen.py
=== mod stratumv2::types::fixed
pub proof fn lemma_C01_rt_bool(v: bool, w: bool, rest: Seq<u8>)
    ensures bool::accepts(v.enc() + rest) == Some(v.enc().len() as int), bool::denotes(v.enc() + rest, w) ==> w == v {}
pub proof fn lemma_C01_rt_u8(v: u8, w: u8, rest: Seq<u8>)
    ensures u8::accepts(v.enc() + rest) == Some(v.enc().len() as int), u8::denotes(v.enc() + rest, w) ==> w == v {}
pub proof fn lemma_C01_canon_u8(s: Seq<u8>, v: u8)
    requires u8::accepts(s) is Some, u8::denotes(s, v) ensures u8::accepts(s) == Some(1int), v.enc() == s.take(1)
{ assert(v.enc() =~= s.take(1)); }
pub proof fn lemma_C01_rt_u16(v: u16, w: u16, rest: Seq<u8>)
    requires true
    ensures u16::accepts(v.enc() + rest) == Some(v.enc().len() as int), u16::denotes(v.enc() + rest, w) ==> w == v
{ lemma_le2(v as int); let s = v.enc() + rest; assert(un2(s) == un2(le2(v as int))); }
pub proof fn lemma_C01_canon_u16(s: Seq<u8>, v: u16)
    requires u16::accepts(s) is Some, u16::denotes(s, v) ensures u16::accepts(s) == Some(2int), v.enc() == s.take(2)
{ lemma_un2(s.take(2)); assert(un2(s.take(2)) == un2(s)); }
pub proof fn lemma_C01_rt_u32(v: u32, w: u32, rest: Seq<u8>)
    requires true
    ensures u32::accepts(v.enc() + rest) == Some(v.enc().len() as int), u32::denotes(v.enc() + rest, w) ==> w == v
{ lemma_le4(v as int); let s = v.enc() + rest; assert(un4(s) == un4(le4(v as int))); }
pub proof fn lemma_C01_canon_u32(s: Seq<u8>, v: u32)
    requires u32::accepts(s) is Some, u32::denotes(s, v) ensures u32::accepts(s) == Some(4int), v.enc() == s.take(4)
{ lemma_un4(s.take(4)); assert(un4(s.take(4)) == un4(s)); }
pub proof fn lemma_C01_rt_f32(v: f32, w: f32, rest: Seq<u8>)
    requires true
    ensures f32::accepts(v.enc() + rest) == Some(v.enc().len() as int), f32::denotes(v.enc() + rest, w) ==> f32_bits(w) == f32_bits(v)
{ broadcast use crate::vshim::axiom_f32_bits; lemma_le4(f32_bits(v)); let s = v.enc() + rest; assert(un4(s) == un4(le4(f32_bits(v)))); }
pub proof fn lemma_C01_canon_f32(s: Seq<u8>, v: f32)
    requires f32::accepts(s) is Some, f32::denotes(s, v) ensures f32::accepts(s) == Some(4int), v.enc() == s.take(4)
{ lemma_un4(s.take(4)); assert(un4(s.take(4)) == un4(s)); }
pub proof fn lemma_C01_rt_U24(v: U24, w: U24, rest: Seq<u8>)
    requires v.wf()
    ensures U24::accepts(v.enc() + rest) == Some(v.enc().len() as int), U24::denotes(v.enc() + rest, w) ==> w.0 == v.0
{ lemma_le3(v.0 as int); let s = v.enc() + rest; assert(un3(s) == un3(le3(v.0 as int))); }
pub proof fn lemma_C01_canon_U24(s: Seq<u8>, v: U24)
    requires U24::accepts(s) is Some, U24::denotes(s, v) ensures U24::accepts(s) == Some(3int), v.enc() == s.take(3)
{ lemma_un3(s.take(3)); assert(un3(s.take(3)) == un3(s)); }
pub proof fn lemma_C01_rt_U256(v: U256, w: U256, rest: Seq<u8>)
    ensures U256::accepts(v.enc() + rest) == Some(v.enc().len() as int), U256::denotes(v.enc() + rest, w) ==> w.0@ == v.0@
{ assert((v.enc() + rest).take(32) =~= v.enc()); }
pub proof fn lemma_C01_canon_U256(s: Seq<u8>, v: U256)
    requires U256::accepts(s) is Some, U256::denotes(s, v) ensures U256::accepts(s) == Some(32int), v.enc() == s.take(32) {}
=== mod stratumv2::types::bytes
pub proof fn lemma_C02_rt_B0_31(v: B0_31, w: B0_31, rest: Seq<u8>)
    requires v.wf()
    ensures B0_31::accepts(v.enc() + rest) == Some(v.enc().len() as int), B0_31::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.length == v.length
{ let s = v.enc() + rest; assert((s[0] as int) == v.data@.len()); assert(s.subrange(1, 1 + (s[0] as int)) =~= v.data@); }
pub proof fn lemma_C02_canon_B0_31(s: Seq<u8>, v: B0_31)
    requires B0_31::accepts(s) is Some, B0_31::denotes(s, v)
    ensures v.enc() == s.take(B0_31::accepts(s)->Some_0), 0 <= B0_31::accepts(s)->Some_0 <= s.len()
{ assert(seq![s[0]] =~= s.take(1)); assert(v.data@.len() == (s[0] as int)); assert(s.take(1) + s.subrange(1, 1 + (s[0] as int)) =~= s.take(1 + (s[0] as int))); }
pub proof fn lemma_C02_rt_B0_32(v: B0_32, w: B0_32, rest: Seq<u8>)
    requires v.wf()
    ensures B0_32::accepts(v.enc() + rest) == Some(v.enc().len() as int), B0_32::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.length == v.length
{ let s = v.enc() + rest; assert((s[0] as int) == v.data@.len()); assert(s.subrange(1, 1 + (s[0] as int)) =~= v.data@); }
pub proof fn lemma_C02_canon_B0_32(s: Seq<u8>, v: B0_32)
    requires B0_32::accepts(s) is Some, B0_32::denotes(s, v)
    ensures v.enc() == s.take(B0_32::accepts(s)->Some_0), 0 <= B0_32::accepts(s)->Some_0 <= s.len()
{ assert(seq![s[0]] =~= s.take(1)); assert(v.data@.len() == (s[0] as int)); assert(s.take(1) + s.subrange(1, 1 + (s[0] as int)) =~= s.take(1 + (s[0] as int))); }
pub proof fn lemma_C02_rt_B0_255(v: B0_255, w: B0_255, rest: Seq<u8>)
    requires v.wf()
    ensures B0_255::accepts(v.enc() + rest) == Some(v.enc().len() as int), B0_255::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.length == v.length
{ let s = v.enc() + rest; assert((s[0] as int) == v.data@.len()); assert(s.subrange(1, 1 + (s[0] as int)) =~= v.data@); }
pub proof fn lemma_C02_canon_B0_255(s: Seq<u8>, v: B0_255)
    requires B0_255::accepts(s) is Some, B0_255::denotes(s, v)
    ensures v.enc() == s.take(B0_255::accepts(s)->Some_0), 0 <= B0_255::accepts(s)->Some_0 <= s.len()
{ assert(seq![s[0]] =~= s.take(1)); assert(v.data@.len() == (s[0] as int)); assert(s.take(1) + s.subrange(1, 1 + (s[0] as int)) =~= s.take(1 + (s[0] as int))); }
pub proof fn lemma_C02_rt_B0_64K(v: B0_64K, w: B0_64K, rest: Seq<u8>)
    requires v.wf()
    ensures B0_64K::accepts(v.enc() + rest) == Some(v.enc().len() as int), B0_64K::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.length == v.length
{ let s = v.enc() + rest; lemma_le2(v.data@.len() as int); assert(un2(s) == un2(le2(v.data@.len() as int))); assert(un2(s) == v.data@.len()); assert(s.subrange(2, 2 + un2(s)) =~= v.data@); }
pub proof fn lemma_C02_canon_B0_64K(s: Seq<u8>, v: B0_64K)
    requires B0_64K::accepts(s) is Some, B0_64K::denotes(s, v)
    ensures v.enc() == s.take(B0_64K::accepts(s)->Some_0), 0 <= B0_64K::accepts(s)->Some_0 <= s.len()
{ lemma_un2(s.take(2)); assert(un2(s.take(2)) == un2(s)); assert(v.data@.len() == un2(s)); assert(s.take(2) + s.subrange(2, 2 + un2(s)) =~= s.take(2 + un2(s))); }
pub proof fn lemma_C02_rt_B0_16M(v: B0_16M, w: B0_16M, rest: Seq<u8>)
    requires v.wf()
    ensures B0_16M::accepts(v.enc() + rest) == Some(v.enc().len() as int), B0_16M::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.length.0 == v.length.0
{ let s = v.enc() + rest; lemma_le3(v.data@.len() as int); assert(un3(s) == un3(le3(v.data@.len() as int))); assert(un3(s) == v.data@.len()); assert(s.subrange(3, 3 + un3(s)) =~= v.data@); }
pub proof fn lemma_C02_canon_B0_16M(s: Seq<u8>, v: B0_16M)
    requires B0_16M::accepts(s) is Some, B0_16M::denotes(s, v)
    ensures v.enc() == s.take(B0_16M::accepts(s)->Some_0), 0 <= B0_16M::accepts(s)->Some_0 <= s.len()
{ lemma_un3(s.take(3)); assert(un3(s.take(3)) == un3(s)); assert(v.data@.len() == un3(s)); assert(s.take(3) + s.subrange(3, 3 + un3(s)) =~= s.take(3 + un3(s))); }
=== mod stratumv2::types::strings
pub proof fn lemma_C02_rt_STR0_32(v: STR0_32, w: STR0_32, rest: Seq<u8>)
    requires v.wf()
    ensures STR0_32::accepts(v.enc() + rest) == Some(v.enc().len() as int), STR0_32::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.length == v.length
{ reveal(<STR0_32 as Deserializable>::accepts); reveal(<STR0_32 as Deserializable>::denotes); let s = v.enc() + rest; assert(s[0] == sbytes(v.data).len());
  assert(s.subrange(1, 1 + s[0]) =~= sbytes(v.data)); lemma_str_chars(v.data); lemma_str_chars(w.data); }
pub proof fn lemma_C02_canon_STR0_32(s: Seq<u8>, v: STR0_32)
    requires STR0_32::accepts(s) is Some, STR0_32::denotes(s, v)
    ensures v.enc() == s.take(STR0_32::accepts(s)->Some_0), 0 <= STR0_32::accepts(s)->Some_0 <= s.len()
{ reveal(<STR0_32 as Deserializable>::accepts); reveal(<STR0_32 as Deserializable>::denotes); assert(seq![s[0]] + s.subrange(1, 1 + s[0]) =~= s.take(1 + s[0])); }
pub proof fn lemma_C02_rt_STR0_255(v: STR0_255, w: STR0_255, rest: Seq<u8>)
    requires v.wf()
    ensures STR0_255::accepts(v.enc() + rest) == Some(v.enc().len() as int), STR0_255::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.length == v.length
{ reveal(<STR0_255 as Deserializable>::accepts); reveal(<STR0_255 as Deserializable>::denotes); let s = v.enc() + rest; assert(s[0] == sbytes(v.data).len());
  assert(s.subrange(1, 1 + s[0]) =~= sbytes(v.data)); lemma_str_chars(v.data); lemma_str_chars(w.data); }
pub proof fn lemma_C02_canon_STR0_255(s: Seq<u8>, v: STR0_255)
    requires STR0_255::accepts(s) is Some, STR0_255::denotes(s, v)
    ensures v.enc() == s.take(STR0_255::accepts(s)->Some_0), 0 <= STR0_255::accepts(s)->Some_0 <= s.len()
{ reveal(<STR0_255 as Deserializable>::accepts); reveal(<STR0_255 as Deserializable>::denotes); assert(seq![s[0]] + s.subrange(1, 1 + s[0]) =~= s.take(1 + s[0])); }
=== mod stratumv2::common::setup_connection_error_code
pub proof fn lemma_C11_rt_SetupConnectionErrorCode(v: SetupConnectionErrorCode, w: SetupConnectionErrorCode, rest: Seq<u8>)
    ensures SetupConnectionErrorCode::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionErrorCode::denotes(v.enc() + rest, w) ==> w == v,
        vstd::utf8::decode_utf8((v.enc() + rest).subrange(1, 1 + (v.enc() + rest)[0])) == code_str(v)
{ reveal(<STR0_255 as Deserializable>::accepts); lemma_code_len(v); lemma_code_len(w); let s = v.enc() + rest; let t = vstd::utf8::encode_utf8(code_str(v)); assert(s[0] == t.len());
  assert(s.subrange(1, 1 + s[0]) =~= t); vstd::utf8::encode_utf8_decode_utf8(code_str(v)); vstd::utf8::encode_utf8_valid_utf8(code_str(v));
  if code_str(w) == code_str(v) { lemma_code_injective(v, w); } }
pub proof fn lemma_C11_canon_SetupConnectionErrorCode(s: Seq<u8>, v: SetupConnectionErrorCode)
    requires SetupConnectionErrorCode::accepts(s) is Some, SetupConnectionErrorCode::denotes(s, v)
    ensures v.enc() == s.take(SetupConnectionErrorCode::accepts(s)->Some_0), 0 <= SetupConnectionErrorCode::accepts(s)->Some_0 <= s.len()
{ reveal(<STR0_255 as Deserializable>::accepts); lemma_code_len(v); let t = s.subrange(1, 1 + s[0]); vstd::utf8::decode_utf8_encode_utf8(t); assert(seq![s[0]] + t =~= s.take(1 + s[0])); }
=== mod stratumv2::mining::open_mining_channel_error
pub proof fn lemma_C11_rt_OpenMiningChannelErrorCode(v: OpenMiningChannelErrorCode, w: OpenMiningChannelErrorCode, rest: Seq<u8>)
    ensures OpenMiningChannelErrorCode::accepts(v.enc() + rest) == Some(v.enc().len() as int), OpenMiningChannelErrorCode::denotes(v.enc() + rest, w) ==> w == v,
        vstd::utf8::decode_utf8((v.enc() + rest).subrange(1, 1 + (v.enc() + rest)[0])) == code_str(v)
{ reveal(<STR0_255 as Deserializable>::accepts); lemma_code_len(v); lemma_code_len(w); let s = v.enc() + rest; let t = vstd::utf8::encode_utf8(code_str(v)); assert(s[0] == t.len());
  assert(s.subrange(1, 1 + s[0]) =~= t); vstd::utf8::encode_utf8_decode_utf8(code_str(v)); vstd::utf8::encode_utf8_valid_utf8(code_str(v));
  if code_str(w) == code_str(v) { lemma_code_injective(v, w); } }
pub proof fn lemma_C11_canon_OpenMiningChannelErrorCode(s: Seq<u8>, v: OpenMiningChannelErrorCode)
    requires OpenMiningChannelErrorCode::accepts(s) is Some, OpenMiningChannelErrorCode::denotes(s, v)
    ensures v.enc() == s.take(OpenMiningChannelErrorCode::accepts(s)->Some_0), 0 <= OpenMiningChannelErrorCode::accepts(s)->Some_0 <= s.len()
{ reveal(<STR0_255 as Deserializable>::accepts); lemma_code_len(v); let t = s.subrange(1, 1 + s[0]); vstd::utf8::decode_utf8_encode_utf8(t); assert(seq![s[0]] + t =~= s.take(1 + s[0])); }
=== mod stratumv2::mining::setup_connection
pub proof fn lemma_C10_rt_SetupConnectionFlags(v: SetupConnectionFlags, w: SetupConnectionFlags, rest: Seq<u8>)
    requires v.bits & !7u32 == 0
    ensures SetupConnectionFlags::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionFlags::denotes(v.enc() + rest, w) ==> w.bits == v.bits
{ lemma_le4(v.bits as int); let s = v.enc() + rest; assert(un4(s) == un4(le4(v.bits as int))); assert(un4(s) as u32 == v.bits); }
pub proof fn lemma_C10_canon_SetupConnectionFlags(s: Seq<u8>, v: SetupConnectionFlags)
    requires SetupConnectionFlags::accepts(s) is Some, SetupConnectionFlags::denotes(s, v) ensures SetupConnectionFlags::accepts(s) == Some(4int), v.enc() == s.take(4)
{ lemma_un4(s.take(4)); assert(un4(s.take(4)) == un4(s)); }
=== mod stratumv2::mining::setup_connection_success
pub proof fn lemma_C10_rt_SetupConnectionSuccessFlags(v: SetupConnectionSuccessFlags, w: SetupConnectionSuccessFlags, rest: Seq<u8>)
    requires v.bits & !3u32 == 0
    ensures SetupConnectionSuccessFlags::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionSuccessFlags::denotes(v.enc() + rest, w) ==> w.bits == v.bits
{ lemma_le4(v.bits as int); let s = v.enc() + rest; assert(un4(s) == un4(le4(v.bits as int))); assert(un4(s) as u32 == v.bits); }
pub proof fn lemma_C10_canon_SetupConnectionSuccessFlags(s: Seq<u8>, v: SetupConnectionSuccessFlags)
    requires SetupConnectionSuccessFlags::accepts(s) is Some, SetupConnectionSuccessFlags::denotes(s, v) ensures SetupConnectionSuccessFlags::accepts(s) == Some(4int), v.enc() == s.take(4)
{ lemma_un4(s.take(4)); assert(un4(s.take(4)) == un4(s)); }
=== mod stratumv2::job_negotiation::setup_connection
pub proof fn lemma_C10_rt_SetupConnectionFlags(v: SetupConnectionFlags, w: SetupConnectionFlags, rest: Seq<u8>)
    requires v.bits & !1u32 == 0
    ensures SetupConnectionFlags::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionFlags::denotes(v.enc() + rest, w) ==> w.bits == v.bits
{ lemma_le4(v.bits as int); let s = v.enc() + rest; assert(un4(s) == un4(le4(v.bits as int))); assert(un4(s) as u32 == v.bits); }
pub proof fn lemma_C10_canon_SetupConnectionFlags(s: Seq<u8>, v: SetupConnectionFlags)
    requires SetupConnectionFlags::accepts(s) is Some, SetupConnectionFlags::denotes(s, v) ensures SetupConnectionFlags::accepts(s) == Some(4int), v.enc() == s.take(4)
{ lemma_un4(s.take(4)); assert(un4(s.take(4)) == un4(s)); }
=== mod stratumv2::job_negotiation::setup_connection_success
pub proof fn lemma_C10_rt_SetupConnectionSuccessFlags(v: SetupConnectionSuccessFlags, w: SetupConnectionSuccessFlags, rest: Seq<u8>)
    requires v.bits & !0u32 == 0
    ensures SetupConnectionSuccessFlags::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionSuccessFlags::denotes(v.enc() + rest, w) ==> w.bits == v.bits
{ lemma_le4(v.bits as int); let s = v.enc() + rest; assert(un4(s) == un4(le4(v.bits as int))); assert(un4(s) as u32 == v.bits); }
pub proof fn lemma_C10_canon_SetupConnectionSuccessFlags(s: Seq<u8>, v: SetupConnectionSuccessFlags)
    requires SetupConnectionSuccessFlags::accepts(s) is Some, SetupConnectionSuccessFlags::denotes(s, v) ensures SetupConnectionSuccessFlags::accepts(s) == Some(4int), v.enc() == s.take(4)
{ lemma_un4(s.take(4)); assert(un4(s.take(4)) == un4(s)); }
=== mod stratumv2::common::channel_endpoint_changed
/// decoding the encoding of a valid ChannelEndpointChanged, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_ChannelEndpointChanged(v: ChannelEndpointChanged, w: ChannelEndpointChanged, rest: Seq<u8>)
    requires v.wf()
    ensures ChannelEndpointChanged::accepts(v.enc() + rest) == Some(v.enc().len() as int), ChannelEndpointChanged::denotes(v.enc() + rest, w) ==> w.channel_id == v.channel_id
{
    let s = v.enc() + rest; let t1 = rest; let p0 = 0int;
    let e1 = v.channel_id.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    assert(ChannelEndpointChanged::pos1(s) == Some(p1) && (u32::denotes(s.skip(p0), w.channel_id) ==> w.channel_id == v.channel_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.channel_id, w.channel_id, t1); }
    assert(v.enc().len() == e1.len());
}
proof fn lemma_join_ChannelEndpointChanged(s: Seq<u8>, p0: int, p1: int, e1: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)
    ensures e1 == s.subrange(p0, p1)
{
    let a1 = e1;
}
/// encoding a decoded ChannelEndpointChanged gives the bytes it was decoded from
pub proof fn lemma_C04_canon_ChannelEndpointChanged(s: Seq<u8>, v: ChannelEndpointChanged)
    requires ChannelEndpointChanged::accepts(s) is Some, ChannelEndpointChanged::denotes(s, v)
    ensures v.enc() == s.take(ChannelEndpointChanged::accepts(s)->Some_0), 0 <= ChannelEndpointChanged::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(ChannelEndpointChanged::pos1(s) is Some);
    let p1 = ChannelEndpointChanged::pos1(s)->Some_0; let e1 = v.channel_id.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p0), v.channel_id); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    lemma_join_ChannelEndpointChanged(s, p0, p1, e1);
    assert(s.subrange(0, p1) =~= s.take(p1));
}
=== mod stratumv2::mining::setup_connection
/// decoding the encoding of a valid SetupConnection, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_SetupConnection(v: SetupConnection, w: SetupConnection, rest: Seq<u8>)
    requires v.wf(), v.flags.bits & !7u32 == 0, v.min_version >= 2 && v.max_version >= 2 && v.vendor.data@.len() > 0 && v.firmware.data@.len() > 0
    ensures SetupConnection::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnection::denotes(v.enc() + rest, w) ==> w.min_version == v.min_version && w.max_version == v.max_version && w.flags.bits == v.flags.bits && w.endpoint_host.data@ == v.endpoint_host.data@ && w.endpoint_host.length == v.endpoint_host.length && w.endpoint_port == v.endpoint_port && w.vendor.data@ == v.vendor.data@ && w.vendor.length == v.vendor.length && w.hardware_version.data@ == v.hardware_version.data@ && w.hardware_version.length == v.hardware_version.length && w.firmware.data@ == v.firmware.data@ && w.firmware.length == v.firmware.length && w.device_id.data@ == v.device_id.data@ && w.device_id.length == v.device_id.length
{
    let s = v.enc() + rest; let t9 = rest; let p0 = 0int;
    let e9 = v.device_id.enc(); let t8 = e9 + t9;
    let e8 = v.firmware.enc(); let t7 = e8 + t8;
    let e7 = v.hardware_version.enc(); let t6 = e7 + t7;
    let e6 = v.vendor.enc(); let t5 = e6 + t6;
    let e5 = v.endpoint_port.enc(); let t4 = e5 + t5;
    let e4 = v.endpoint_host.enc(); let t3 = e4 + t4;
    let e3 = v.flags.enc(); let t2 = e3 + t3;
    let e2 = v.max_version.enc(); let t1 = e2 + t2;
    let e1 = v.min_version.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    let p3 = p2 + e3.len() as int; crate::vshim::lemma_step(s, p2, e3, t3);
    let p4 = p3 + e4.len() as int; crate::vshim::lemma_step(s, p3, e4, t4);
    let p5 = p4 + e5.len() as int; crate::vshim::lemma_step(s, p4, e5, t5);
    let p6 = p5 + e6.len() as int; crate::vshim::lemma_step(s, p5, e6, t6);
    let p7 = p6 + e7.len() as int; crate::vshim::lemma_step(s, p6, e7, t7);
    let p8 = p7 + e8.len() as int; crate::vshim::lemma_step(s, p7, e8, t8);
    let p9 = p8 + e9.len() as int; crate::vshim::lemma_step(s, p8, e9, t9);
    assert(SetupConnection::pos1(s) == Some(p1) && (u16::denotes(s.skip(p0), w.min_version) ==> w.min_version == v.min_version)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.min_version, w.min_version, t1); }
    assert(SetupConnection::pos2(s) == Some(p2) && (u16::denotes(s.skip(p1), w.max_version) ==> w.max_version == v.max_version)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.max_version, w.max_version, t2); }
    assert(SetupConnection::pos3(s) == Some(p3) && (SetupConnectionFlags::denotes(s.skip(p2), w.flags) ==> w.flags.bits == v.flags.bits)) by { crate::stratumv2::mining::setup_connection::lemma_C10_rt_SetupConnectionFlags(v.flags, w.flags, t3); }
    assert(SetupConnection::pos4(s) == Some(p4) && (STR0_255::denotes(s.skip(p3), w.endpoint_host) ==> w.endpoint_host.data@ == v.endpoint_host.data@ && w.endpoint_host.length == v.endpoint_host.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.endpoint_host, w.endpoint_host, t4); }
    assert(SetupConnection::pos5(s) == Some(p5) && (u16::denotes(s.skip(p4), w.endpoint_port) ==> w.endpoint_port == v.endpoint_port)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.endpoint_port, w.endpoint_port, t5); }
    assert(SetupConnection::pos6(s) == Some(p6) && (STR0_255::denotes(s.skip(p5), w.vendor) ==> w.vendor.data@ == v.vendor.data@ && w.vendor.length == v.vendor.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.vendor, w.vendor, t6); }
    assert(SetupConnection::pos7(s) == Some(p7) && (STR0_255::denotes(s.skip(p6), w.hardware_version) ==> w.hardware_version.data@ == v.hardware_version.data@ && w.hardware_version.length == v.hardware_version.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.hardware_version, w.hardware_version, t7); }
    assert(SetupConnection::pos8(s) == Some(p8) && (STR0_255::denotes(s.skip(p7), w.firmware) ==> w.firmware.data@ == v.firmware.data@ && w.firmware.length == v.firmware.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.firmware, w.firmware, t8); }
    assert(SetupConnection::pos9(s) == Some(p9) && (STR0_255::denotes(s.skip(p8), w.device_id) ==> w.device_id.data@ == v.device_id.data@ && w.device_id.length == v.device_id.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.device_id, w.device_id, t9); }
    lemma_le2(v.min_version as int); lemma_le2(v.max_version as int); assert(un2(t0) == un2(le2(v.min_version as int))); assert(un2(t1) == un2(le2(v.max_version as int)));
    lemma_str_chars(v.vendor.data); lemma_str_chars(v.firmware.data); assert(t5[0] == v.vendor.length); assert(t7[0] == v.firmware.length);
    assert(v.enc().len() == e1.len() + e2.len() + e3.len() + e4.len() + e5.len() + e6.len() + e7.len() + e8.len() + e9.len());
}
proof fn lemma_join_SetupConnection(s: Seq<u8>, p0: int, p1: int, p2: int, p3: int, p4: int, p5: int, p6: int, p7: int, p8: int, p9: int, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>, e4: Seq<u8>, e5: Seq<u8>, e6: Seq<u8>, e7: Seq<u8>, e8: Seq<u8>, e9: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2), 0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3), 0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4), 0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5), 0 <= p5 <= p6 <= s.len() && e6 == s.subrange(p5, p6), 0 <= p6 <= p7 <= s.len() && e7 == s.subrange(p6, p7), 0 <= p7 <= p8 <= s.len() && e8 == s.subrange(p7, p8), 0 <= p8 <= p9 <= s.len() && e9 == s.subrange(p8, p9)
    ensures e1 + (e2 + (e3 + (e4 + (e5 + (e6 + (e7 + (e8 + (e9)))))))) == s.subrange(p0, p9)
{
    let a9 = e9;
    let a8 = e8 + a9; assert(a8 == s.subrange(p7, p9)) by { assert(s.subrange(p7, p8) + s.subrange(p8, p9) =~= s.subrange(p7, p9)); }
    let a7 = e7 + a8; assert(a7 == s.subrange(p6, p9)) by { assert(s.subrange(p6, p7) + s.subrange(p7, p9) =~= s.subrange(p6, p9)); }
    let a6 = e6 + a7; assert(a6 == s.subrange(p5, p9)) by { assert(s.subrange(p5, p6) + s.subrange(p6, p9) =~= s.subrange(p5, p9)); }
    let a5 = e5 + a6; assert(a5 == s.subrange(p4, p9)) by { assert(s.subrange(p4, p5) + s.subrange(p5, p9) =~= s.subrange(p4, p9)); }
    let a4 = e4 + a5; assert(a4 == s.subrange(p3, p9)) by { assert(s.subrange(p3, p4) + s.subrange(p4, p9) =~= s.subrange(p3, p9)); }
    let a3 = e3 + a4; assert(a3 == s.subrange(p2, p9)) by { assert(s.subrange(p2, p3) + s.subrange(p3, p9) =~= s.subrange(p2, p9)); }
    let a2 = e2 + a3; assert(a2 == s.subrange(p1, p9)) by { assert(s.subrange(p1, p2) + s.subrange(p2, p9) =~= s.subrange(p1, p9)); }
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p9)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p9) =~= s.subrange(p0, p9)); }
}
/// encoding a decoded SetupConnection gives the bytes it was decoded from
pub proof fn lemma_C04_canon_SetupConnection(s: Seq<u8>, v: SetupConnection)
    requires SetupConnection::accepts(s) is Some, SetupConnection::denotes(s, v)
    ensures v.enc() == s.take(SetupConnection::accepts(s)->Some_0), 0 <= SetupConnection::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(SetupConnection::pos9(s) is Some);
    assert(SetupConnection::pos8(s) is Some);
    assert(SetupConnection::pos7(s) is Some);
    assert(SetupConnection::pos6(s) is Some);
    assert(SetupConnection::pos5(s) is Some);
    assert(SetupConnection::pos4(s) is Some);
    assert(SetupConnection::pos3(s) is Some);
    assert(SetupConnection::pos2(s) is Some);
    assert(SetupConnection::pos1(s) is Some);
    let p1 = SetupConnection::pos1(s)->Some_0; let e1 = v.min_version.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p0), v.min_version); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = SetupConnection::pos2(s)->Some_0; let e2 = v.max_version.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p1), v.max_version); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    let p3 = SetupConnection::pos3(s)->Some_0; let e3 = v.flags.enc(); assert(0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3)) by { crate::stratumv2::mining::setup_connection::lemma_C10_canon_SetupConnectionFlags(s.skip(p2), v.flags); assert(s.skip(p2).take(p3 - p2) =~= s.subrange(p2, p3)); }
    let p4 = SetupConnection::pos4(s)->Some_0; let e4 = v.endpoint_host.enc(); assert(0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p3), v.endpoint_host); assert(s.skip(p3).take(p4 - p3) =~= s.subrange(p3, p4)); }
    let p5 = SetupConnection::pos5(s)->Some_0; let e5 = v.endpoint_port.enc(); assert(0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p4), v.endpoint_port); assert(s.skip(p4).take(p5 - p4) =~= s.subrange(p4, p5)); }
    let p6 = SetupConnection::pos6(s)->Some_0; let e6 = v.vendor.enc(); assert(0 <= p5 <= p6 <= s.len() && e6 == s.subrange(p5, p6)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p5), v.vendor); assert(s.skip(p5).take(p6 - p5) =~= s.subrange(p5, p6)); }
    let p7 = SetupConnection::pos7(s)->Some_0; let e7 = v.hardware_version.enc(); assert(0 <= p6 <= p7 <= s.len() && e7 == s.subrange(p6, p7)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p6), v.hardware_version); assert(s.skip(p6).take(p7 - p6) =~= s.subrange(p6, p7)); }
    let p8 = SetupConnection::pos8(s)->Some_0; let e8 = v.firmware.enc(); assert(0 <= p7 <= p8 <= s.len() && e8 == s.subrange(p7, p8)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p7), v.firmware); assert(s.skip(p7).take(p8 - p7) =~= s.subrange(p7, p8)); }
    let p9 = SetupConnection::pos9(s)->Some_0; let e9 = v.device_id.enc(); assert(0 <= p8 <= p9 <= s.len() && e9 == s.subrange(p8, p9)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p8), v.device_id); assert(s.skip(p8).take(p9 - p8) =~= s.subrange(p8, p9)); }
    lemma_join_SetupConnection(s, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, e1, e2, e3, e4, e5, e6, e7, e8, e9);
    assert(s.subrange(0, p9) =~= s.take(p9));
}
=== mod stratumv2::mining::setup_connection_success
/// decoding the encoding of a valid SetupConnectionSuccess, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_SetupConnectionSuccess(v: SetupConnectionSuccess, w: SetupConnectionSuccess, rest: Seq<u8>)
    requires v.wf(), v.flags.bits & !3u32 == 0
    ensures SetupConnectionSuccess::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionSuccess::denotes(v.enc() + rest, w) ==> w.used_version == v.used_version && w.flags.bits == v.flags.bits
{
    let s = v.enc() + rest; let t2 = rest; let p0 = 0int;
    let e2 = v.flags.enc(); let t1 = e2 + t2;
    let e1 = v.used_version.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    assert(SetupConnectionSuccess::pos1(s) == Some(p1) && (u16::denotes(s.skip(p0), w.used_version) ==> w.used_version == v.used_version)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.used_version, w.used_version, t1); }
    assert(SetupConnectionSuccess::pos2(s) == Some(p2) && (SetupConnectionSuccessFlags::denotes(s.skip(p1), w.flags) ==> w.flags.bits == v.flags.bits)) by { crate::stratumv2::mining::setup_connection_success::lemma_C10_rt_SetupConnectionSuccessFlags(v.flags, w.flags, t2); }
    assert(v.enc().len() == e1.len() + e2.len());
}
proof fn lemma_join_SetupConnectionSuccess(s: Seq<u8>, p0: int, p1: int, p2: int, e1: Seq<u8>, e2: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)
    ensures e1 + (e2) == s.subrange(p0, p2)
{
    let a2 = e2;
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p2)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p2) =~= s.subrange(p0, p2)); }
}
/// encoding a decoded SetupConnectionSuccess gives the bytes it was decoded from
pub proof fn lemma_C04_canon_SetupConnectionSuccess(s: Seq<u8>, v: SetupConnectionSuccess)
    requires SetupConnectionSuccess::accepts(s) is Some, SetupConnectionSuccess::denotes(s, v)
    ensures v.enc() == s.take(SetupConnectionSuccess::accepts(s)->Some_0), 0 <= SetupConnectionSuccess::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(SetupConnectionSuccess::pos2(s) is Some);
    assert(SetupConnectionSuccess::pos1(s) is Some);
    let p1 = SetupConnectionSuccess::pos1(s)->Some_0; let e1 = v.used_version.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p0), v.used_version); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = SetupConnectionSuccess::pos2(s)->Some_0; let e2 = v.flags.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::mining::setup_connection_success::lemma_C10_canon_SetupConnectionSuccessFlags(s.skip(p1), v.flags); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    lemma_join_SetupConnectionSuccess(s, p0, p1, p2, e1, e2);
    assert(s.subrange(0, p2) =~= s.take(p2));
}
=== mod stratumv2::mining::setup_connection_error
/// decoding the encoding of a valid SetupConnectionError, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_SetupConnectionError(v: SetupConnectionError, w: SetupConnectionError, rest: Seq<u8>)
    requires v.wf(), v.flags.bits & !7u32 == 0, !(v.flags.bits == 0 && v.error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags)
    ensures SetupConnectionError::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionError::denotes(v.enc() + rest, w) ==> w.flags.bits == v.flags.bits && w.error_code == v.error_code
{
    let s = v.enc() + rest; let t2 = rest; let p0 = 0int;
    let e2 = v.error_code.enc(); let t1 = e2 + t2;
    let e1 = v.flags.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    assert(SetupConnectionError::pos1(s) == Some(p1) && (SetupConnectionFlags::denotes(s.skip(p0), w.flags) ==> w.flags.bits == v.flags.bits)) by { crate::stratumv2::mining::setup_connection::lemma_C10_rt_SetupConnectionFlags(v.flags, w.flags, t1); }
    assert(SetupConnectionError::pos2(s) == Some(p2) && (SetupConnectionErrorCode::denotes(s.skip(p1), w.error_code) ==> w.error_code == v.error_code)) by { crate::stratumv2::common::setup_connection_error_code::lemma_C11_rt_SetupConnectionErrorCode(v.error_code, w.error_code, t2); }
    lemma_le4(v.flags.bits as int); assert(un4(t0) == un4(le4(v.flags.bits as int))); assert(s.skip(4) == t1); crate::stratumv2::common::setup_connection_error_code::lemma_C11_rt_SetupConnectionErrorCode(v.error_code, w.error_code, t2); let dc = vstd::utf8::decode_utf8(t1.subrange(1, 1 + t1[0])); assert(dc == crate::stratumv2::common::setup_connection_error_code::code_str(v.error_code)); if dc == "unsupported-feature-flags"@ { crate::stratumv2::common::setup_connection_error_code::lemma_code_injective(v.error_code, SetupConnectionErrorCode::UnsupportedFeatureFlags); }
    assert(v.enc().len() == e1.len() + e2.len());
}
proof fn lemma_join_SetupConnectionError(s: Seq<u8>, p0: int, p1: int, p2: int, e1: Seq<u8>, e2: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)
    ensures e1 + (e2) == s.subrange(p0, p2)
{
    let a2 = e2;
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p2)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p2) =~= s.subrange(p0, p2)); }
}
/// encoding a decoded SetupConnectionError gives the bytes it was decoded from
pub proof fn lemma_C04_canon_SetupConnectionError(s: Seq<u8>, v: SetupConnectionError)
    requires SetupConnectionError::accepts(s) is Some, SetupConnectionError::denotes(s, v)
    ensures v.enc() == s.take(SetupConnectionError::accepts(s)->Some_0), 0 <= SetupConnectionError::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(SetupConnectionError::pos2(s) is Some);
    assert(SetupConnectionError::pos1(s) is Some);
    let p1 = SetupConnectionError::pos1(s)->Some_0; let e1 = v.flags.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::mining::setup_connection::lemma_C10_canon_SetupConnectionFlags(s.skip(p0), v.flags); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = SetupConnectionError::pos2(s)->Some_0; let e2 = v.error_code.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::common::setup_connection_error_code::lemma_C11_canon_SetupConnectionErrorCode(s.skip(p1), v.error_code); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    lemma_join_SetupConnectionError(s, p0, p1, p2, e1, e2);
    assert(s.subrange(0, p2) =~= s.take(p2));
}
=== mod stratumv2::job_negotiation::setup_connection
/// decoding the encoding of a valid SetupConnection, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_SetupConnection(v: SetupConnection, w: SetupConnection, rest: Seq<u8>)
    requires v.wf(), v.flags.bits & !1u32 == 0, v.min_version >= 2 && v.max_version >= 2 && v.vendor.data@.len() > 0 && v.firmware.data@.len() > 0
    ensures SetupConnection::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnection::denotes(v.enc() + rest, w) ==> w.min_version == v.min_version && w.max_version == v.max_version && w.flags.bits == v.flags.bits && w.endpoint_host.data@ == v.endpoint_host.data@ && w.endpoint_host.length == v.endpoint_host.length && w.endpoint_port == v.endpoint_port && w.vendor.data@ == v.vendor.data@ && w.vendor.length == v.vendor.length && w.hardware_version.data@ == v.hardware_version.data@ && w.hardware_version.length == v.hardware_version.length && w.firmware.data@ == v.firmware.data@ && w.firmware.length == v.firmware.length && w.device_id.data@ == v.device_id.data@ && w.device_id.length == v.device_id.length
{
    let s = v.enc() + rest; let t9 = rest; let p0 = 0int;
    let e9 = v.device_id.enc(); let t8 = e9 + t9;
    let e8 = v.firmware.enc(); let t7 = e8 + t8;
    let e7 = v.hardware_version.enc(); let t6 = e7 + t7;
    let e6 = v.vendor.enc(); let t5 = e6 + t6;
    let e5 = v.endpoint_port.enc(); let t4 = e5 + t5;
    let e4 = v.endpoint_host.enc(); let t3 = e4 + t4;
    let e3 = v.flags.enc(); let t2 = e3 + t3;
    let e2 = v.max_version.enc(); let t1 = e2 + t2;
    let e1 = v.min_version.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    let p3 = p2 + e3.len() as int; crate::vshim::lemma_step(s, p2, e3, t3);
    let p4 = p3 + e4.len() as int; crate::vshim::lemma_step(s, p3, e4, t4);
    let p5 = p4 + e5.len() as int; crate::vshim::lemma_step(s, p4, e5, t5);
    let p6 = p5 + e6.len() as int; crate::vshim::lemma_step(s, p5, e6, t6);
    let p7 = p6 + e7.len() as int; crate::vshim::lemma_step(s, p6, e7, t7);
    let p8 = p7 + e8.len() as int; crate::vshim::lemma_step(s, p7, e8, t8);
    let p9 = p8 + e9.len() as int; crate::vshim::lemma_step(s, p8, e9, t9);
    assert(SetupConnection::pos1(s) == Some(p1) && (u16::denotes(s.skip(p0), w.min_version) ==> w.min_version == v.min_version)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.min_version, w.min_version, t1); }
    assert(SetupConnection::pos2(s) == Some(p2) && (u16::denotes(s.skip(p1), w.max_version) ==> w.max_version == v.max_version)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.max_version, w.max_version, t2); }
    assert(SetupConnection::pos3(s) == Some(p3) && (SetupConnectionFlags::denotes(s.skip(p2), w.flags) ==> w.flags.bits == v.flags.bits)) by { crate::stratumv2::job_negotiation::setup_connection::lemma_C10_rt_SetupConnectionFlags(v.flags, w.flags, t3); }
    assert(SetupConnection::pos4(s) == Some(p4) && (STR0_255::denotes(s.skip(p3), w.endpoint_host) ==> w.endpoint_host.data@ == v.endpoint_host.data@ && w.endpoint_host.length == v.endpoint_host.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.endpoint_host, w.endpoint_host, t4); }
    assert(SetupConnection::pos5(s) == Some(p5) && (u16::denotes(s.skip(p4), w.endpoint_port) ==> w.endpoint_port == v.endpoint_port)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.endpoint_port, w.endpoint_port, t5); }
    assert(SetupConnection::pos6(s) == Some(p6) && (STR0_255::denotes(s.skip(p5), w.vendor) ==> w.vendor.data@ == v.vendor.data@ && w.vendor.length == v.vendor.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.vendor, w.vendor, t6); }
    assert(SetupConnection::pos7(s) == Some(p7) && (STR0_255::denotes(s.skip(p6), w.hardware_version) ==> w.hardware_version.data@ == v.hardware_version.data@ && w.hardware_version.length == v.hardware_version.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.hardware_version, w.hardware_version, t7); }
    assert(SetupConnection::pos8(s) == Some(p8) && (STR0_255::denotes(s.skip(p7), w.firmware) ==> w.firmware.data@ == v.firmware.data@ && w.firmware.length == v.firmware.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.firmware, w.firmware, t8); }
    assert(SetupConnection::pos9(s) == Some(p9) && (STR0_255::denotes(s.skip(p8), w.device_id) ==> w.device_id.data@ == v.device_id.data@ && w.device_id.length == v.device_id.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.device_id, w.device_id, t9); }
    lemma_le2(v.min_version as int); lemma_le2(v.max_version as int); assert(un2(t0) == un2(le2(v.min_version as int))); assert(un2(t1) == un2(le2(v.max_version as int)));
    lemma_str_chars(v.vendor.data); lemma_str_chars(v.firmware.data); assert(t5[0] == v.vendor.length); assert(t7[0] == v.firmware.length);
    assert(v.enc().len() == e1.len() + e2.len() + e3.len() + e4.len() + e5.len() + e6.len() + e7.len() + e8.len() + e9.len());
}
proof fn lemma_join_SetupConnection(s: Seq<u8>, p0: int, p1: int, p2: int, p3: int, p4: int, p5: int, p6: int, p7: int, p8: int, p9: int, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>, e4: Seq<u8>, e5: Seq<u8>, e6: Seq<u8>, e7: Seq<u8>, e8: Seq<u8>, e9: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2), 0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3), 0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4), 0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5), 0 <= p5 <= p6 <= s.len() && e6 == s.subrange(p5, p6), 0 <= p6 <= p7 <= s.len() && e7 == s.subrange(p6, p7), 0 <= p7 <= p8 <= s.len() && e8 == s.subrange(p7, p8), 0 <= p8 <= p9 <= s.len() && e9 == s.subrange(p8, p9)
    ensures e1 + (e2 + (e3 + (e4 + (e5 + (e6 + (e7 + (e8 + (e9)))))))) == s.subrange(p0, p9)
{
    let a9 = e9;
    let a8 = e8 + a9; assert(a8 == s.subrange(p7, p9)) by { assert(s.subrange(p7, p8) + s.subrange(p8, p9) =~= s.subrange(p7, p9)); }
    let a7 = e7 + a8; assert(a7 == s.subrange(p6, p9)) by { assert(s.subrange(p6, p7) + s.subrange(p7, p9) =~= s.subrange(p6, p9)); }
    let a6 = e6 + a7; assert(a6 == s.subrange(p5, p9)) by { assert(s.subrange(p5, p6) + s.subrange(p6, p9) =~= s.subrange(p5, p9)); }
    let a5 = e5 + a6; assert(a5 == s.subrange(p4, p9)) by { assert(s.subrange(p4, p5) + s.subrange(p5, p9) =~= s.subrange(p4, p9)); }
    let a4 = e4 + a5; assert(a4 == s.subrange(p3, p9)) by { assert(s.subrange(p3, p4) + s.subrange(p4, p9) =~= s.subrange(p3, p9)); }
    let a3 = e3 + a4; assert(a3 == s.subrange(p2, p9)) by { assert(s.subrange(p2, p3) + s.subrange(p3, p9) =~= s.subrange(p2, p9)); }
    let a2 = e2 + a3; assert(a2 == s.subrange(p1, p9)) by { assert(s.subrange(p1, p2) + s.subrange(p2, p9) =~= s.subrange(p1, p9)); }
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p9)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p9) =~= s.subrange(p0, p9)); }
}
/// encoding a decoded SetupConnection gives the bytes it was decoded from
pub proof fn lemma_C04_canon_SetupConnection(s: Seq<u8>, v: SetupConnection)
    requires SetupConnection::accepts(s) is Some, SetupConnection::denotes(s, v)
    ensures v.enc() == s.take(SetupConnection::accepts(s)->Some_0), 0 <= SetupConnection::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(SetupConnection::pos9(s) is Some);
    assert(SetupConnection::pos8(s) is Some);
    assert(SetupConnection::pos7(s) is Some);
    assert(SetupConnection::pos6(s) is Some);
    assert(SetupConnection::pos5(s) is Some);
    assert(SetupConnection::pos4(s) is Some);
    assert(SetupConnection::pos3(s) is Some);
    assert(SetupConnection::pos2(s) is Some);
    assert(SetupConnection::pos1(s) is Some);
    let p1 = SetupConnection::pos1(s)->Some_0; let e1 = v.min_version.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p0), v.min_version); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = SetupConnection::pos2(s)->Some_0; let e2 = v.max_version.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p1), v.max_version); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    let p3 = SetupConnection::pos3(s)->Some_0; let e3 = v.flags.enc(); assert(0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3)) by { crate::stratumv2::job_negotiation::setup_connection::lemma_C10_canon_SetupConnectionFlags(s.skip(p2), v.flags); assert(s.skip(p2).take(p3 - p2) =~= s.subrange(p2, p3)); }
    let p4 = SetupConnection::pos4(s)->Some_0; let e4 = v.endpoint_host.enc(); assert(0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p3), v.endpoint_host); assert(s.skip(p3).take(p4 - p3) =~= s.subrange(p3, p4)); }
    let p5 = SetupConnection::pos5(s)->Some_0; let e5 = v.endpoint_port.enc(); assert(0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p4), v.endpoint_port); assert(s.skip(p4).take(p5 - p4) =~= s.subrange(p4, p5)); }
    let p6 = SetupConnection::pos6(s)->Some_0; let e6 = v.vendor.enc(); assert(0 <= p5 <= p6 <= s.len() && e6 == s.subrange(p5, p6)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p5), v.vendor); assert(s.skip(p5).take(p6 - p5) =~= s.subrange(p5, p6)); }
    let p7 = SetupConnection::pos7(s)->Some_0; let e7 = v.hardware_version.enc(); assert(0 <= p6 <= p7 <= s.len() && e7 == s.subrange(p6, p7)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p6), v.hardware_version); assert(s.skip(p6).take(p7 - p6) =~= s.subrange(p6, p7)); }
    let p8 = SetupConnection::pos8(s)->Some_0; let e8 = v.firmware.enc(); assert(0 <= p7 <= p8 <= s.len() && e8 == s.subrange(p7, p8)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p7), v.firmware); assert(s.skip(p7).take(p8 - p7) =~= s.subrange(p7, p8)); }
    let p9 = SetupConnection::pos9(s)->Some_0; let e9 = v.device_id.enc(); assert(0 <= p8 <= p9 <= s.len() && e9 == s.subrange(p8, p9)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p8), v.device_id); assert(s.skip(p8).take(p9 - p8) =~= s.subrange(p8, p9)); }
    lemma_join_SetupConnection(s, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, e1, e2, e3, e4, e5, e6, e7, e8, e9);
    assert(s.subrange(0, p9) =~= s.take(p9));
}
=== mod stratumv2::job_negotiation::setup_connection_success
/// decoding the encoding of a valid SetupConnectionSuccess, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_SetupConnectionSuccess(v: SetupConnectionSuccess, w: SetupConnectionSuccess, rest: Seq<u8>)
    requires v.wf(), v.flags.bits & !0u32 == 0
    ensures SetupConnectionSuccess::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionSuccess::denotes(v.enc() + rest, w) ==> w.used_version == v.used_version && w.flags.bits == v.flags.bits
{
    let s = v.enc() + rest; let t2 = rest; let p0 = 0int;
    let e2 = v.flags.enc(); let t1 = e2 + t2;
    let e1 = v.used_version.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    assert(SetupConnectionSuccess::pos1(s) == Some(p1) && (u16::denotes(s.skip(p0), w.used_version) ==> w.used_version == v.used_version)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.used_version, w.used_version, t1); }
    assert(SetupConnectionSuccess::pos2(s) == Some(p2) && (SetupConnectionSuccessFlags::denotes(s.skip(p1), w.flags) ==> w.flags.bits == v.flags.bits)) by { crate::stratumv2::job_negotiation::setup_connection_success::lemma_C10_rt_SetupConnectionSuccessFlags(v.flags, w.flags, t2); }
    assert(v.enc().len() == e1.len() + e2.len());
}
proof fn lemma_join_SetupConnectionSuccess(s: Seq<u8>, p0: int, p1: int, p2: int, e1: Seq<u8>, e2: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)
    ensures e1 + (e2) == s.subrange(p0, p2)
{
    let a2 = e2;
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p2)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p2) =~= s.subrange(p0, p2)); }
}
/// encoding a decoded SetupConnectionSuccess gives the bytes it was decoded from
pub proof fn lemma_C04_canon_SetupConnectionSuccess(s: Seq<u8>, v: SetupConnectionSuccess)
    requires SetupConnectionSuccess::accepts(s) is Some, SetupConnectionSuccess::denotes(s, v)
    ensures v.enc() == s.take(SetupConnectionSuccess::accepts(s)->Some_0), 0 <= SetupConnectionSuccess::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(SetupConnectionSuccess::pos2(s) is Some);
    assert(SetupConnectionSuccess::pos1(s) is Some);
    let p1 = SetupConnectionSuccess::pos1(s)->Some_0; let e1 = v.used_version.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p0), v.used_version); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = SetupConnectionSuccess::pos2(s)->Some_0; let e2 = v.flags.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::job_negotiation::setup_connection_success::lemma_C10_canon_SetupConnectionSuccessFlags(s.skip(p1), v.flags); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    lemma_join_SetupConnectionSuccess(s, p0, p1, p2, e1, e2);
    assert(s.subrange(0, p2) =~= s.take(p2));
}
=== mod stratumv2::job_negotiation::setup_connection_error
/// decoding the encoding of a valid SetupConnectionError, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_SetupConnectionError(v: SetupConnectionError, w: SetupConnectionError, rest: Seq<u8>)
    requires v.wf(), v.flags.bits & !1u32 == 0, !(v.flags.bits == 0 && v.error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags)
    ensures SetupConnectionError::accepts(v.enc() + rest) == Some(v.enc().len() as int), SetupConnectionError::denotes(v.enc() + rest, w) ==> w.flags.bits == v.flags.bits && w.error_code == v.error_code
{
    let s = v.enc() + rest; let t2 = rest; let p0 = 0int;
    let e2 = v.error_code.enc(); let t1 = e2 + t2;
    let e1 = v.flags.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    assert(SetupConnectionError::pos1(s) == Some(p1) && (SetupConnectionFlags::denotes(s.skip(p0), w.flags) ==> w.flags.bits == v.flags.bits)) by { crate::stratumv2::job_negotiation::setup_connection::lemma_C10_rt_SetupConnectionFlags(v.flags, w.flags, t1); }
    assert(SetupConnectionError::pos2(s) == Some(p2) && (SetupConnectionErrorCode::denotes(s.skip(p1), w.error_code) ==> w.error_code == v.error_code)) by { crate::stratumv2::common::setup_connection_error_code::lemma_C11_rt_SetupConnectionErrorCode(v.error_code, w.error_code, t2); }
    lemma_le4(v.flags.bits as int); assert(un4(t0) == un4(le4(v.flags.bits as int))); assert(s.skip(4) == t1); crate::stratumv2::common::setup_connection_error_code::lemma_C11_rt_SetupConnectionErrorCode(v.error_code, w.error_code, t2); let dc = vstd::utf8::decode_utf8(t1.subrange(1, 1 + t1[0])); assert(dc == crate::stratumv2::common::setup_connection_error_code::code_str(v.error_code)); if dc == "unsupported-feature-flags"@ { crate::stratumv2::common::setup_connection_error_code::lemma_code_injective(v.error_code, SetupConnectionErrorCode::UnsupportedFeatureFlags); }
    assert(v.enc().len() == e1.len() + e2.len());
}
proof fn lemma_join_SetupConnectionError(s: Seq<u8>, p0: int, p1: int, p2: int, e1: Seq<u8>, e2: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)
    ensures e1 + (e2) == s.subrange(p0, p2)
{
    let a2 = e2;
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p2)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p2) =~= s.subrange(p0, p2)); }
}
/// encoding a decoded SetupConnectionError gives the bytes it was decoded from
pub proof fn lemma_C04_canon_SetupConnectionError(s: Seq<u8>, v: SetupConnectionError)
    requires SetupConnectionError::accepts(s) is Some, SetupConnectionError::denotes(s, v)
    ensures v.enc() == s.take(SetupConnectionError::accepts(s)->Some_0), 0 <= SetupConnectionError::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(SetupConnectionError::pos2(s) is Some);
    assert(SetupConnectionError::pos1(s) is Some);
    let p1 = SetupConnectionError::pos1(s)->Some_0; let e1 = v.flags.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::job_negotiation::setup_connection::lemma_C10_canon_SetupConnectionFlags(s.skip(p0), v.flags); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = SetupConnectionError::pos2(s)->Some_0; let e2 = v.error_code.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::common::setup_connection_error_code::lemma_C11_canon_SetupConnectionErrorCode(s.skip(p1), v.error_code); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    lemma_join_SetupConnectionError(s, p0, p1, p2, e1, e2);
    assert(s.subrange(0, p2) =~= s.take(p2));
}
=== mod stratumv2::mining::open_standard_mining_channel
/// decoding the encoding of a valid OpenStandardMiningChannel, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_OpenStandardMiningChannel(v: OpenStandardMiningChannel, w: OpenStandardMiningChannel, rest: Seq<u8>)
    requires v.wf()
    ensures OpenStandardMiningChannel::accepts(v.enc() + rest) == Some(v.enc().len() as int), OpenStandardMiningChannel::denotes(v.enc() + rest, w) ==> w.request_id == v.request_id && w.user_identity.data@ == v.user_identity.data@ && w.user_identity.length == v.user_identity.length && f32_bits(w.nominal_hash_rate) == f32_bits(v.nominal_hash_rate) && w.max_target.0@ == v.max_target.0@
{
    let s = v.enc() + rest; let t4 = rest; let p0 = 0int;
    let e4 = v.max_target.enc(); let t3 = e4 + t4;
    let e3 = v.nominal_hash_rate.enc(); let t2 = e3 + t3;
    let e2 = v.user_identity.enc(); let t1 = e2 + t2;
    let e1 = v.request_id.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    let p3 = p2 + e3.len() as int; crate::vshim::lemma_step(s, p2, e3, t3);
    let p4 = p3 + e4.len() as int; crate::vshim::lemma_step(s, p3, e4, t4);
    assert(OpenStandardMiningChannel::pos1(s) == Some(p1) && (u32::denotes(s.skip(p0), w.request_id) ==> w.request_id == v.request_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.request_id, w.request_id, t1); }
    assert(OpenStandardMiningChannel::pos2(s) == Some(p2) && (STR0_255::denotes(s.skip(p1), w.user_identity) ==> w.user_identity.data@ == v.user_identity.data@ && w.user_identity.length == v.user_identity.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.user_identity, w.user_identity, t2); }
    assert(OpenStandardMiningChannel::pos3(s) == Some(p3) && (f32::denotes(s.skip(p2), w.nominal_hash_rate) ==> f32_bits(w.nominal_hash_rate) == f32_bits(v.nominal_hash_rate))) by { crate::stratumv2::types::fixed::lemma_C01_rt_f32(v.nominal_hash_rate, w.nominal_hash_rate, t3); }
    assert(OpenStandardMiningChannel::pos4(s) == Some(p4) && (U256::denotes(s.skip(p3), w.max_target) ==> w.max_target.0@ == v.max_target.0@)) by { crate::stratumv2::types::fixed::lemma_C01_rt_U256(v.max_target, w.max_target, t4); }
    assert(v.enc().len() == e1.len() + e2.len() + e3.len() + e4.len());
}
proof fn lemma_join_OpenStandardMiningChannel(s: Seq<u8>, p0: int, p1: int, p2: int, p3: int, p4: int, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>, e4: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2), 0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3), 0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4)
    ensures e1 + (e2 + (e3 + (e4))) == s.subrange(p0, p4)
{
    let a4 = e4;
    let a3 = e3 + a4; assert(a3 == s.subrange(p2, p4)) by { assert(s.subrange(p2, p3) + s.subrange(p3, p4) =~= s.subrange(p2, p4)); }
    let a2 = e2 + a3; assert(a2 == s.subrange(p1, p4)) by { assert(s.subrange(p1, p2) + s.subrange(p2, p4) =~= s.subrange(p1, p4)); }
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p4)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p4) =~= s.subrange(p0, p4)); }
}
/// encoding a decoded OpenStandardMiningChannel gives the bytes it was decoded from
pub proof fn lemma_C04_canon_OpenStandardMiningChannel(s: Seq<u8>, v: OpenStandardMiningChannel)
    requires OpenStandardMiningChannel::accepts(s) is Some, OpenStandardMiningChannel::denotes(s, v)
    ensures v.enc() == s.take(OpenStandardMiningChannel::accepts(s)->Some_0), 0 <= OpenStandardMiningChannel::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(OpenStandardMiningChannel::pos4(s) is Some);
    assert(OpenStandardMiningChannel::pos3(s) is Some);
    assert(OpenStandardMiningChannel::pos2(s) is Some);
    assert(OpenStandardMiningChannel::pos1(s) is Some);
    let p1 = OpenStandardMiningChannel::pos1(s)->Some_0; let e1 = v.request_id.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p0), v.request_id); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = OpenStandardMiningChannel::pos2(s)->Some_0; let e2 = v.user_identity.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p1), v.user_identity); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    let p3 = OpenStandardMiningChannel::pos3(s)->Some_0; let e3 = v.nominal_hash_rate.enc(); assert(0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3)) by { crate::stratumv2::types::fixed::lemma_C01_canon_f32(s.skip(p2), v.nominal_hash_rate); assert(s.skip(p2).take(p3 - p2) =~= s.subrange(p2, p3)); }
    let p4 = OpenStandardMiningChannel::pos4(s)->Some_0; let e4 = v.max_target.enc(); assert(0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4)) by { crate::stratumv2::types::fixed::lemma_C01_canon_U256(s.skip(p3), v.max_target); assert(s.skip(p3).take(p4 - p3) =~= s.subrange(p3, p4)); }
    lemma_join_OpenStandardMiningChannel(s, p0, p1, p2, p3, p4, e1, e2, e3, e4);
    assert(s.subrange(0, p4) =~= s.take(p4));
}
=== mod stratumv2::mining::open_standard_mining_channel_success
/// decoding the encoding of a valid OpenStandardMiningChannelSuccess, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_OpenStandardMiningChannelSuccess(v: OpenStandardMiningChannelSuccess, w: OpenStandardMiningChannelSuccess, rest: Seq<u8>)
    requires v.wf()
    ensures OpenStandardMiningChannelSuccess::accepts(v.enc() + rest) == Some(v.enc().len() as int), OpenStandardMiningChannelSuccess::denotes(v.enc() + rest, w) ==> w.request_id == v.request_id && w.channel_id == v.channel_id && w.target.0@ == v.target.0@ && w.extranonce_prefix.data@ == v.extranonce_prefix.data@ && w.extranonce_prefix.length == v.extranonce_prefix.length && w.group_channel_id == v.group_channel_id
{
    let s = v.enc() + rest; let t5 = rest; let p0 = 0int;
    let e5 = v.group_channel_id.enc(); let t4 = e5 + t5;
    let e4 = v.extranonce_prefix.enc(); let t3 = e4 + t4;
    let e3 = v.target.enc(); let t2 = e3 + t3;
    let e2 = v.channel_id.enc(); let t1 = e2 + t2;
    let e1 = v.request_id.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    let p3 = p2 + e3.len() as int; crate::vshim::lemma_step(s, p2, e3, t3);
    let p4 = p3 + e4.len() as int; crate::vshim::lemma_step(s, p3, e4, t4);
    let p5 = p4 + e5.len() as int; crate::vshim::lemma_step(s, p4, e5, t5);
    assert(OpenStandardMiningChannelSuccess::pos1(s) == Some(p1) && (u32::denotes(s.skip(p0), w.request_id) ==> w.request_id == v.request_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.request_id, w.request_id, t1); }
    assert(OpenStandardMiningChannelSuccess::pos2(s) == Some(p2) && (u32::denotes(s.skip(p1), w.channel_id) ==> w.channel_id == v.channel_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.channel_id, w.channel_id, t2); }
    assert(OpenStandardMiningChannelSuccess::pos3(s) == Some(p3) && (U256::denotes(s.skip(p2), w.target) ==> w.target.0@ == v.target.0@)) by { crate::stratumv2::types::fixed::lemma_C01_rt_U256(v.target, w.target, t3); }
    assert(OpenStandardMiningChannelSuccess::pos4(s) == Some(p4) && (B0_32::denotes(s.skip(p3), w.extranonce_prefix) ==> w.extranonce_prefix.data@ == v.extranonce_prefix.data@ && w.extranonce_prefix.length == v.extranonce_prefix.length)) by { crate::stratumv2::types::bytes::lemma_C02_rt_B0_32(v.extranonce_prefix, w.extranonce_prefix, t4); }
    assert(OpenStandardMiningChannelSuccess::pos5(s) == Some(p5) && (u32::denotes(s.skip(p4), w.group_channel_id) ==> w.group_channel_id == v.group_channel_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.group_channel_id, w.group_channel_id, t5); }
    assert(v.enc().len() == e1.len() + e2.len() + e3.len() + e4.len() + e5.len());
}
proof fn lemma_join_OpenStandardMiningChannelSuccess(s: Seq<u8>, p0: int, p1: int, p2: int, p3: int, p4: int, p5: int, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>, e4: Seq<u8>, e5: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2), 0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3), 0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4), 0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5)
    ensures e1 + (e2 + (e3 + (e4 + (e5)))) == s.subrange(p0, p5)
{
    let a5 = e5;
    let a4 = e4 + a5; assert(a4 == s.subrange(p3, p5)) by { assert(s.subrange(p3, p4) + s.subrange(p4, p5) =~= s.subrange(p3, p5)); }
    let a3 = e3 + a4; assert(a3 == s.subrange(p2, p5)) by { assert(s.subrange(p2, p3) + s.subrange(p3, p5) =~= s.subrange(p2, p5)); }
    let a2 = e2 + a3; assert(a2 == s.subrange(p1, p5)) by { assert(s.subrange(p1, p2) + s.subrange(p2, p5) =~= s.subrange(p1, p5)); }
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p5)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p5) =~= s.subrange(p0, p5)); }
}
/// encoding a decoded OpenStandardMiningChannelSuccess gives the bytes it was decoded from
pub proof fn lemma_C04_canon_OpenStandardMiningChannelSuccess(s: Seq<u8>, v: OpenStandardMiningChannelSuccess)
    requires OpenStandardMiningChannelSuccess::accepts(s) is Some, OpenStandardMiningChannelSuccess::denotes(s, v)
    ensures v.enc() == s.take(OpenStandardMiningChannelSuccess::accepts(s)->Some_0), 0 <= OpenStandardMiningChannelSuccess::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(OpenStandardMiningChannelSuccess::pos5(s) is Some);
    assert(OpenStandardMiningChannelSuccess::pos4(s) is Some);
    assert(OpenStandardMiningChannelSuccess::pos3(s) is Some);
    assert(OpenStandardMiningChannelSuccess::pos2(s) is Some);
    assert(OpenStandardMiningChannelSuccess::pos1(s) is Some);
    let p1 = OpenStandardMiningChannelSuccess::pos1(s)->Some_0; let e1 = v.request_id.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p0), v.request_id); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = OpenStandardMiningChannelSuccess::pos2(s)->Some_0; let e2 = v.channel_id.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p1), v.channel_id); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    let p3 = OpenStandardMiningChannelSuccess::pos3(s)->Some_0; let e3 = v.target.enc(); assert(0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3)) by { crate::stratumv2::types::fixed::lemma_C01_canon_U256(s.skip(p2), v.target); assert(s.skip(p2).take(p3 - p2) =~= s.subrange(p2, p3)); }
    let p4 = OpenStandardMiningChannelSuccess::pos4(s)->Some_0; let e4 = v.extranonce_prefix.enc(); assert(0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4)) by { crate::stratumv2::types::bytes::lemma_C02_canon_B0_32(s.skip(p3), v.extranonce_prefix); assert(s.skip(p3).take(p4 - p3) =~= s.subrange(p3, p4)); }
    let p5 = OpenStandardMiningChannelSuccess::pos5(s)->Some_0; let e5 = v.group_channel_id.enc(); assert(0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p4), v.group_channel_id); assert(s.skip(p4).take(p5 - p4) =~= s.subrange(p4, p5)); }
    lemma_join_OpenStandardMiningChannelSuccess(s, p0, p1, p2, p3, p4, p5, e1, e2, e3, e4, e5);
    assert(s.subrange(0, p5) =~= s.take(p5));
}
=== mod stratumv2::mining::open_standard_mining_channel_error
/// decoding the encoding of a valid OpenStandardMiningChannelError, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_OpenStandardMiningChannelError(v: OpenStandardMiningChannelError, w: OpenStandardMiningChannelError, rest: Seq<u8>)
    requires v.wf()
    ensures OpenStandardMiningChannelError::accepts(v.enc() + rest) == Some(v.enc().len() as int), OpenStandardMiningChannelError::denotes(v.enc() + rest, w) ==> w.request_id == v.request_id && w.error_code == v.error_code
{
    let s = v.enc() + rest; let t2 = rest; let p0 = 0int;
    let e2 = v.error_code.enc(); let t1 = e2 + t2;
    let e1 = v.request_id.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    assert(OpenStandardMiningChannelError::pos1(s) == Some(p1) && (u32::denotes(s.skip(p0), w.request_id) ==> w.request_id == v.request_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.request_id, w.request_id, t1); }
    assert(OpenStandardMiningChannelError::pos2(s) == Some(p2) && (OpenMiningChannelErrorCode::denotes(s.skip(p1), w.error_code) ==> w.error_code == v.error_code)) by { crate::stratumv2::mining::open_mining_channel_error::lemma_C11_rt_OpenMiningChannelErrorCode(v.error_code, w.error_code, t2); }
    assert(v.enc().len() == e1.len() + e2.len());
}
proof fn lemma_join_OpenStandardMiningChannelError(s: Seq<u8>, p0: int, p1: int, p2: int, e1: Seq<u8>, e2: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)
    ensures e1 + (e2) == s.subrange(p0, p2)
{
    let a2 = e2;
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p2)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p2) =~= s.subrange(p0, p2)); }
}
/// encoding a decoded OpenStandardMiningChannelError gives the bytes it was decoded from
pub proof fn lemma_C04_canon_OpenStandardMiningChannelError(s: Seq<u8>, v: OpenStandardMiningChannelError)
    requires OpenStandardMiningChannelError::accepts(s) is Some, OpenStandardMiningChannelError::denotes(s, v)
    ensures v.enc() == s.take(OpenStandardMiningChannelError::accepts(s)->Some_0), 0 <= OpenStandardMiningChannelError::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(OpenStandardMiningChannelError::pos2(s) is Some);
    assert(OpenStandardMiningChannelError::pos1(s) is Some);
    let p1 = OpenStandardMiningChannelError::pos1(s)->Some_0; let e1 = v.request_id.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p0), v.request_id); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = OpenStandardMiningChannelError::pos2(s)->Some_0; let e2 = v.error_code.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::mining::open_mining_channel_error::lemma_C11_canon_OpenMiningChannelErrorCode(s.skip(p1), v.error_code); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    lemma_join_OpenStandardMiningChannelError(s, p0, p1, p2, e1, e2);
    assert(s.subrange(0, p2) =~= s.take(p2));
}
=== mod stratumv2::mining::open_extended_mining_channel
/// decoding the encoding of a valid OpenExtendedMiningChannel, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_OpenExtendedMiningChannel(v: OpenExtendedMiningChannel, w: OpenExtendedMiningChannel, rest: Seq<u8>)
    requires v.wf()
    ensures OpenExtendedMiningChannel::accepts(v.enc() + rest) == Some(v.enc().len() as int), OpenExtendedMiningChannel::denotes(v.enc() + rest, w) ==> w.request_id == v.request_id && w.user_identity.data@ == v.user_identity.data@ && w.user_identity.length == v.user_identity.length && f32_bits(w.nominal_hash_rate) == f32_bits(v.nominal_hash_rate) && w.max_target.0@ == v.max_target.0@ && w.min_extranonce_size == v.min_extranonce_size
{
    let s = v.enc() + rest; let t5 = rest; let p0 = 0int;
    let e5 = v.min_extranonce_size.enc(); let t4 = e5 + t5;
    let e4 = v.max_target.enc(); let t3 = e4 + t4;
    let e3 = v.nominal_hash_rate.enc(); let t2 = e3 + t3;
    let e2 = v.user_identity.enc(); let t1 = e2 + t2;
    let e1 = v.request_id.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    let p3 = p2 + e3.len() as int; crate::vshim::lemma_step(s, p2, e3, t3);
    let p4 = p3 + e4.len() as int; crate::vshim::lemma_step(s, p3, e4, t4);
    let p5 = p4 + e5.len() as int; crate::vshim::lemma_step(s, p4, e5, t5);
    assert(OpenExtendedMiningChannel::pos1(s) == Some(p1) && (u32::denotes(s.skip(p0), w.request_id) ==> w.request_id == v.request_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.request_id, w.request_id, t1); }
    assert(OpenExtendedMiningChannel::pos2(s) == Some(p2) && (STR0_255::denotes(s.skip(p1), w.user_identity) ==> w.user_identity.data@ == v.user_identity.data@ && w.user_identity.length == v.user_identity.length)) by { crate::stratumv2::types::strings::lemma_C02_rt_STR0_255(v.user_identity, w.user_identity, t2); }
    assert(OpenExtendedMiningChannel::pos3(s) == Some(p3) && (f32::denotes(s.skip(p2), w.nominal_hash_rate) ==> f32_bits(w.nominal_hash_rate) == f32_bits(v.nominal_hash_rate))) by { crate::stratumv2::types::fixed::lemma_C01_rt_f32(v.nominal_hash_rate, w.nominal_hash_rate, t3); }
    assert(OpenExtendedMiningChannel::pos4(s) == Some(p4) && (U256::denotes(s.skip(p3), w.max_target) ==> w.max_target.0@ == v.max_target.0@)) by { crate::stratumv2::types::fixed::lemma_C01_rt_U256(v.max_target, w.max_target, t4); }
    assert(OpenExtendedMiningChannel::pos5(s) == Some(p5) && (u16::denotes(s.skip(p4), w.min_extranonce_size) ==> w.min_extranonce_size == v.min_extranonce_size)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.min_extranonce_size, w.min_extranonce_size, t5); }
    assert(v.enc().len() == e1.len() + e2.len() + e3.len() + e4.len() + e5.len());
}
proof fn lemma_join_OpenExtendedMiningChannel(s: Seq<u8>, p0: int, p1: int, p2: int, p3: int, p4: int, p5: int, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>, e4: Seq<u8>, e5: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2), 0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3), 0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4), 0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5)
    ensures e1 + (e2 + (e3 + (e4 + (e5)))) == s.subrange(p0, p5)
{
    let a5 = e5;
    let a4 = e4 + a5; assert(a4 == s.subrange(p3, p5)) by { assert(s.subrange(p3, p4) + s.subrange(p4, p5) =~= s.subrange(p3, p5)); }
    let a3 = e3 + a4; assert(a3 == s.subrange(p2, p5)) by { assert(s.subrange(p2, p3) + s.subrange(p3, p5) =~= s.subrange(p2, p5)); }
    let a2 = e2 + a3; assert(a2 == s.subrange(p1, p5)) by { assert(s.subrange(p1, p2) + s.subrange(p2, p5) =~= s.subrange(p1, p5)); }
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p5)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p5) =~= s.subrange(p0, p5)); }
}
/// encoding a decoded OpenExtendedMiningChannel gives the bytes it was decoded from
pub proof fn lemma_C04_canon_OpenExtendedMiningChannel(s: Seq<u8>, v: OpenExtendedMiningChannel)
    requires OpenExtendedMiningChannel::accepts(s) is Some, OpenExtendedMiningChannel::denotes(s, v)
    ensures v.enc() == s.take(OpenExtendedMiningChannel::accepts(s)->Some_0), 0 <= OpenExtendedMiningChannel::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(OpenExtendedMiningChannel::pos5(s) is Some);
    assert(OpenExtendedMiningChannel::pos4(s) is Some);
    assert(OpenExtendedMiningChannel::pos3(s) is Some);
    assert(OpenExtendedMiningChannel::pos2(s) is Some);
    assert(OpenExtendedMiningChannel::pos1(s) is Some);
    let p1 = OpenExtendedMiningChannel::pos1(s)->Some_0; let e1 = v.request_id.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p0), v.request_id); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = OpenExtendedMiningChannel::pos2(s)->Some_0; let e2 = v.user_identity.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::types::strings::lemma_C02_canon_STR0_255(s.skip(p1), v.user_identity); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    let p3 = OpenExtendedMiningChannel::pos3(s)->Some_0; let e3 = v.nominal_hash_rate.enc(); assert(0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3)) by { crate::stratumv2::types::fixed::lemma_C01_canon_f32(s.skip(p2), v.nominal_hash_rate); assert(s.skip(p2).take(p3 - p2) =~= s.subrange(p2, p3)); }
    let p4 = OpenExtendedMiningChannel::pos4(s)->Some_0; let e4 = v.max_target.enc(); assert(0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4)) by { crate::stratumv2::types::fixed::lemma_C01_canon_U256(s.skip(p3), v.max_target); assert(s.skip(p3).take(p4 - p3) =~= s.subrange(p3, p4)); }
    let p5 = OpenExtendedMiningChannel::pos5(s)->Some_0; let e5 = v.min_extranonce_size.enc(); assert(0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p4), v.min_extranonce_size); assert(s.skip(p4).take(p5 - p4) =~= s.subrange(p4, p5)); }
    lemma_join_OpenExtendedMiningChannel(s, p0, p1, p2, p3, p4, p5, e1, e2, e3, e4, e5);
    assert(s.subrange(0, p5) =~= s.take(p5));
}
=== mod stratumv2::mining::open_extended_mining_channel_success
/// decoding the encoding of a valid OpenExtendedMiningChannelSuccess, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_OpenExtendedMiningChannelSuccess(v: OpenExtendedMiningChannelSuccess, w: OpenExtendedMiningChannelSuccess, rest: Seq<u8>)
    requires v.wf()
    ensures OpenExtendedMiningChannelSuccess::accepts(v.enc() + rest) == Some(v.enc().len() as int), OpenExtendedMiningChannelSuccess::denotes(v.enc() + rest, w) ==> w.request_id == v.request_id && w.channel_id == v.channel_id && w.target.0@ == v.target.0@ && w.extranonce_size == v.extranonce_size && w.extranonce_prefix.data@ == v.extranonce_prefix.data@ && w.extranonce_prefix.length == v.extranonce_prefix.length
{
    let s = v.enc() + rest; let t5 = rest; let p0 = 0int;
    let e5 = v.extranonce_prefix.enc(); let t4 = e5 + t5;
    let e4 = v.extranonce_size.enc(); let t3 = e4 + t4;
    let e3 = v.target.enc(); let t2 = e3 + t3;
    let e2 = v.channel_id.enc(); let t1 = e2 + t2;
    let e1 = v.request_id.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    let p3 = p2 + e3.len() as int; crate::vshim::lemma_step(s, p2, e3, t3);
    let p4 = p3 + e4.len() as int; crate::vshim::lemma_step(s, p3, e4, t4);
    let p5 = p4 + e5.len() as int; crate::vshim::lemma_step(s, p4, e5, t5);
    assert(OpenExtendedMiningChannelSuccess::pos1(s) == Some(p1) && (u32::denotes(s.skip(p0), w.request_id) ==> w.request_id == v.request_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.request_id, w.request_id, t1); }
    assert(OpenExtendedMiningChannelSuccess::pos2(s) == Some(p2) && (u32::denotes(s.skip(p1), w.channel_id) ==> w.channel_id == v.channel_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.channel_id, w.channel_id, t2); }
    assert(OpenExtendedMiningChannelSuccess::pos3(s) == Some(p3) && (U256::denotes(s.skip(p2), w.target) ==> w.target.0@ == v.target.0@)) by { crate::stratumv2::types::fixed::lemma_C01_rt_U256(v.target, w.target, t3); }
    assert(OpenExtendedMiningChannelSuccess::pos4(s) == Some(p4) && (u16::denotes(s.skip(p3), w.extranonce_size) ==> w.extranonce_size == v.extranonce_size)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u16(v.extranonce_size, w.extranonce_size, t4); }
    assert(OpenExtendedMiningChannelSuccess::pos5(s) == Some(p5) && (B0_32::denotes(s.skip(p4), w.extranonce_prefix) ==> w.extranonce_prefix.data@ == v.extranonce_prefix.data@ && w.extranonce_prefix.length == v.extranonce_prefix.length)) by { crate::stratumv2::types::bytes::lemma_C02_rt_B0_32(v.extranonce_prefix, w.extranonce_prefix, t5); }
    assert(v.enc().len() == e1.len() + e2.len() + e3.len() + e4.len() + e5.len());
}
proof fn lemma_join_OpenExtendedMiningChannelSuccess(s: Seq<u8>, p0: int, p1: int, p2: int, p3: int, p4: int, p5: int, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>, e4: Seq<u8>, e5: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2), 0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3), 0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4), 0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5)
    ensures e1 + (e2 + (e3 + (e4 + (e5)))) == s.subrange(p0, p5)
{
    let a5 = e5;
    let a4 = e4 + a5; assert(a4 == s.subrange(p3, p5)) by { assert(s.subrange(p3, p4) + s.subrange(p4, p5) =~= s.subrange(p3, p5)); }
    let a3 = e3 + a4; assert(a3 == s.subrange(p2, p5)) by { assert(s.subrange(p2, p3) + s.subrange(p3, p5) =~= s.subrange(p2, p5)); }
    let a2 = e2 + a3; assert(a2 == s.subrange(p1, p5)) by { assert(s.subrange(p1, p2) + s.subrange(p2, p5) =~= s.subrange(p1, p5)); }
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p5)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p5) =~= s.subrange(p0, p5)); }
}
/// encoding a decoded OpenExtendedMiningChannelSuccess gives the bytes it was decoded from
pub proof fn lemma_C04_canon_OpenExtendedMiningChannelSuccess(s: Seq<u8>, v: OpenExtendedMiningChannelSuccess)
    requires OpenExtendedMiningChannelSuccess::accepts(s) is Some, OpenExtendedMiningChannelSuccess::denotes(s, v)
    ensures v.enc() == s.take(OpenExtendedMiningChannelSuccess::accepts(s)->Some_0), 0 <= OpenExtendedMiningChannelSuccess::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(OpenExtendedMiningChannelSuccess::pos5(s) is Some);
    assert(OpenExtendedMiningChannelSuccess::pos4(s) is Some);
    assert(OpenExtendedMiningChannelSuccess::pos3(s) is Some);
    assert(OpenExtendedMiningChannelSuccess::pos2(s) is Some);
    assert(OpenExtendedMiningChannelSuccess::pos1(s) is Some);
    let p1 = OpenExtendedMiningChannelSuccess::pos1(s)->Some_0; let e1 = v.request_id.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p0), v.request_id); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = OpenExtendedMiningChannelSuccess::pos2(s)->Some_0; let e2 = v.channel_id.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p1), v.channel_id); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    let p3 = OpenExtendedMiningChannelSuccess::pos3(s)->Some_0; let e3 = v.target.enc(); assert(0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3)) by { crate::stratumv2::types::fixed::lemma_C01_canon_U256(s.skip(p2), v.target); assert(s.skip(p2).take(p3 - p2) =~= s.subrange(p2, p3)); }
    let p4 = OpenExtendedMiningChannelSuccess::pos4(s)->Some_0; let e4 = v.extranonce_size.enc(); assert(0 <= p3 <= p4 <= s.len() && e4 == s.subrange(p3, p4)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u16(s.skip(p3), v.extranonce_size); assert(s.skip(p3).take(p4 - p3) =~= s.subrange(p3, p4)); }
    let p5 = OpenExtendedMiningChannelSuccess::pos5(s)->Some_0; let e5 = v.extranonce_prefix.enc(); assert(0 <= p4 <= p5 <= s.len() && e5 == s.subrange(p4, p5)) by { crate::stratumv2::types::bytes::lemma_C02_canon_B0_32(s.skip(p4), v.extranonce_prefix); assert(s.skip(p4).take(p5 - p4) =~= s.subrange(p4, p5)); }
    lemma_join_OpenExtendedMiningChannelSuccess(s, p0, p1, p2, p3, p4, p5, e1, e2, e3, e4, e5);
    assert(s.subrange(0, p5) =~= s.take(p5));
}
=== mod stratumv2::mining::open_extended_mining_channel_error
/// decoding the encoding of a valid OpenExtendedMiningChannelError, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_OpenExtendedMiningChannelError(v: OpenExtendedMiningChannelError, w: OpenExtendedMiningChannelError, rest: Seq<u8>)
    requires v.wf()
    ensures OpenExtendedMiningChannelError::accepts(v.enc() + rest) == Some(v.enc().len() as int), OpenExtendedMiningChannelError::denotes(v.enc() + rest, w) ==> w.request_id == v.request_id && w.error_code == v.error_code
{
    let s = v.enc() + rest; let t2 = rest; let p0 = 0int;
    let e2 = v.error_code.enc(); let t1 = e2 + t2;
    let e1 = v.request_id.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    assert(OpenExtendedMiningChannelError::pos1(s) == Some(p1) && (u32::denotes(s.skip(p0), w.request_id) ==> w.request_id == v.request_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.request_id, w.request_id, t1); }
    assert(OpenExtendedMiningChannelError::pos2(s) == Some(p2) && (OpenMiningChannelErrorCode::denotes(s.skip(p1), w.error_code) ==> w.error_code == v.error_code)) by { crate::stratumv2::mining::open_mining_channel_error::lemma_C11_rt_OpenMiningChannelErrorCode(v.error_code, w.error_code, t2); }
    assert(v.enc().len() == e1.len() + e2.len());
}
proof fn lemma_join_OpenExtendedMiningChannelError(s: Seq<u8>, p0: int, p1: int, p2: int, e1: Seq<u8>, e2: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)
    ensures e1 + (e2) == s.subrange(p0, p2)
{
    let a2 = e2;
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p2)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p2) =~= s.subrange(p0, p2)); }
}
/// encoding a decoded OpenExtendedMiningChannelError gives the bytes it was decoded from
pub proof fn lemma_C04_canon_OpenExtendedMiningChannelError(s: Seq<u8>, v: OpenExtendedMiningChannelError)
    requires OpenExtendedMiningChannelError::accepts(s) is Some, OpenExtendedMiningChannelError::denotes(s, v)
    ensures v.enc() == s.take(OpenExtendedMiningChannelError::accepts(s)->Some_0), 0 <= OpenExtendedMiningChannelError::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(OpenExtendedMiningChannelError::pos2(s) is Some);
    assert(OpenExtendedMiningChannelError::pos1(s) is Some);
    let p1 = OpenExtendedMiningChannelError::pos1(s)->Some_0; let e1 = v.request_id.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p0), v.request_id); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = OpenExtendedMiningChannelError::pos2(s)->Some_0; let e2 = v.error_code.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::mining::open_mining_channel_error::lemma_C11_canon_OpenMiningChannelErrorCode(s.skip(p1), v.error_code); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    lemma_join_OpenExtendedMiningChannelError(s, p0, p1, p2, e1, e2);
    assert(s.subrange(0, p2) =~= s.take(p2));
}
=== mod stratumv2::mining::update_channel
/// decoding the encoding of a valid UpdateChannel, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_UpdateChannel(v: UpdateChannel, w: UpdateChannel, rest: Seq<u8>)
    requires v.wf()
    ensures UpdateChannel::accepts(v.enc() + rest) == Some(v.enc().len() as int), UpdateChannel::denotes(v.enc() + rest, w) ==> w.channel_id == v.channel_id && f32_bits(w.nominal_hash_rate) == f32_bits(v.nominal_hash_rate) && w.max_target.0@ == v.max_target.0@
{
    let s = v.enc() + rest; let t3 = rest; let p0 = 0int;
    let e3 = v.max_target.enc(); let t2 = e3 + t3;
    let e2 = v.nominal_hash_rate.enc(); let t1 = e2 + t2;
    let e1 = v.channel_id.enc(); let t0 = e1 + t1;
    assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);
    let p1 = p0 + e1.len() as int; crate::vshim::lemma_step(s, p0, e1, t1);
    let p2 = p1 + e2.len() as int; crate::vshim::lemma_step(s, p1, e2, t2);
    let p3 = p2 + e3.len() as int; crate::vshim::lemma_step(s, p2, e3, t3);
    assert(UpdateChannel::pos1(s) == Some(p1) && (u32::denotes(s.skip(p0), w.channel_id) ==> w.channel_id == v.channel_id)) by { crate::stratumv2::types::fixed::lemma_C01_rt_u32(v.channel_id, w.channel_id, t1); }
    assert(UpdateChannel::pos2(s) == Some(p2) && (f32::denotes(s.skip(p1), w.nominal_hash_rate) ==> f32_bits(w.nominal_hash_rate) == f32_bits(v.nominal_hash_rate))) by { crate::stratumv2::types::fixed::lemma_C01_rt_f32(v.nominal_hash_rate, w.nominal_hash_rate, t2); }
    assert(UpdateChannel::pos3(s) == Some(p3) && (U256::denotes(s.skip(p2), w.max_target) ==> w.max_target.0@ == v.max_target.0@)) by { crate::stratumv2::types::fixed::lemma_C01_rt_U256(v.max_target, w.max_target, t3); }
    assert(v.enc().len() == e1.len() + e2.len() + e3.len());
}
proof fn lemma_join_UpdateChannel(s: Seq<u8>, p0: int, p1: int, p2: int, p3: int, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>)
    requires 0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1), 0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2), 0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3)
    ensures e1 + (e2 + (e3)) == s.subrange(p0, p3)
{
    let a3 = e3;
    let a2 = e2 + a3; assert(a2 == s.subrange(p1, p3)) by { assert(s.subrange(p1, p2) + s.subrange(p2, p3) =~= s.subrange(p1, p3)); }
    let a1 = e1 + a2; assert(a1 == s.subrange(p0, p3)) by { assert(s.subrange(p0, p1) + s.subrange(p1, p3) =~= s.subrange(p0, p3)); }
}
/// encoding a decoded UpdateChannel gives the bytes it was decoded from
pub proof fn lemma_C04_canon_UpdateChannel(s: Seq<u8>, v: UpdateChannel)
    requires UpdateChannel::accepts(s) is Some, UpdateChannel::denotes(s, v)
    ensures v.enc() == s.take(UpdateChannel::accepts(s)->Some_0), 0 <= UpdateChannel::accepts(s)->Some_0 <= s.len()
{
    crate::vshim::lemma_skip_zero(s); let p0 = 0int;
    assert(UpdateChannel::pos3(s) is Some);
    assert(UpdateChannel::pos2(s) is Some);
    assert(UpdateChannel::pos1(s) is Some);
    let p1 = UpdateChannel::pos1(s)->Some_0; let e1 = v.channel_id.enc(); assert(0 <= p0 <= p1 <= s.len() && e1 == s.subrange(p0, p1)) by { crate::stratumv2::types::fixed::lemma_C01_canon_u32(s.skip(p0), v.channel_id); assert(s.skip(p0).take(p1 - p0) =~= s.subrange(p0, p1)); }
    let p2 = UpdateChannel::pos2(s)->Some_0; let e2 = v.nominal_hash_rate.enc(); assert(0 <= p1 <= p2 <= s.len() && e2 == s.subrange(p1, p2)) by { crate::stratumv2::types::fixed::lemma_C01_canon_f32(s.skip(p1), v.nominal_hash_rate); assert(s.skip(p1).take(p2 - p1) =~= s.subrange(p1, p2)); }
    let p3 = UpdateChannel::pos3(s)->Some_0; let e3 = v.max_target.enc(); assert(0 <= p2 <= p3 <= s.len() && e3 == s.subrange(p2, p3)) by { crate::stratumv2::types::fixed::lemma_C01_canon_U256(s.skip(p2), v.max_target); assert(s.skip(p2).take(p3 - p2) =~= s.subrange(p2, p3)); }
    lemma_join_UpdateChannel(s, p0, p1, p2, p3, e1, e2, e3);
    assert(s.subrange(0, p3) =~= s.take(p3));
}
=== mod stratumv2::common::setup_connection
pub open spec fn sc_valid(v: SetupConnection) -> bool {
    v.wf() && match v {
        SetupConnection::Mining(m) => m.flags.bits & !7u32 == 0 && m.min_version >= 2 && m.max_version >= 2 && m.vendor.data@.len() > 0 && m.firmware.data@.len() > 0,
        SetupConnection::JobNegotiation(m) => m.flags.bits & !1u32 == 0 && m.min_version >= 2 && m.max_version >= 2 && m.vendor.data@.len() > 0 && m.firmware.data@.len() > 0,
    }
}
pub proof fn lemma_C04_C08_rt_SetupConnection(v: SetupConnection, w: SetupConnection, rest: Seq<u8>)
    requires sc_valid(v)
    ensures SetupConnection::accepts(v.enc() + rest) == Some(v.enc().len() as int),
        SetupConnection::denotes(v.enc() + rest, w) && v is Mining ==> w is Mining && w->Mining_0.min_version == v->Mining_0.min_version && w->Mining_0.max_version == v->Mining_0.max_version && w->Mining_0.flags.bits == v->Mining_0.flags.bits && w->Mining_0.endpoint_host.data@ == v->Mining_0.endpoint_host.data@ && w->Mining_0.endpoint_host.length == v->Mining_0.endpoint_host.length && w->Mining_0.endpoint_port == v->Mining_0.endpoint_port && w->Mining_0.vendor.data@ == v->Mining_0.vendor.data@ && w->Mining_0.vendor.length == v->Mining_0.vendor.length && w->Mining_0.hardware_version.data@ == v->Mining_0.hardware_version.data@ && w->Mining_0.hardware_version.length == v->Mining_0.hardware_version.length && w->Mining_0.firmware.data@ == v->Mining_0.firmware.data@ && w->Mining_0.firmware.length == v->Mining_0.firmware.length && w->Mining_0.device_id.data@ == v->Mining_0.device_id.data@ && w->Mining_0.device_id.length == v->Mining_0.device_id.length,
        SetupConnection::denotes(v.enc() + rest, w) && v is JobNegotiation ==> w is JobNegotiation && w->JobNegotiation_0.min_version == v->JobNegotiation_0.min_version && w->JobNegotiation_0.max_version == v->JobNegotiation_0.max_version && w->JobNegotiation_0.flags.bits == v->JobNegotiation_0.flags.bits && w->JobNegotiation_0.endpoint_host.data@ == v->JobNegotiation_0.endpoint_host.data@ && w->JobNegotiation_0.endpoint_host.length == v->JobNegotiation_0.endpoint_host.length && w->JobNegotiation_0.endpoint_port == v->JobNegotiation_0.endpoint_port && w->JobNegotiation_0.vendor.data@ == v->JobNegotiation_0.vendor.data@ && w->JobNegotiation_0.vendor.length == v->JobNegotiation_0.vendor.length && w->JobNegotiation_0.hardware_version.data@ == v->JobNegotiation_0.hardware_version.data@ && w->JobNegotiation_0.hardware_version.length == v->JobNegotiation_0.hardware_version.length && w->JobNegotiation_0.firmware.data@ == v->JobNegotiation_0.firmware.data@ && w->JobNegotiation_0.firmware.length == v->JobNegotiation_0.firmware.length && w->JobNegotiation_0.device_id.data@ == v->JobNegotiation_0.device_id.data@ && w->JobNegotiation_0.device_id.length == v->JobNegotiation_0.device_id.length,
{
    let s = v.enc() + rest;
    match v {
        SetupConnection::Mining(m) => { assert(s.skip(1) =~= m.enc() + rest); let x = match w { SetupConnection::Mining(y) => y, _ => m }; crate::stratumv2::mining::setup_connection::lemma_C04_C08_rt_SetupConnection(m, x, rest); }
        SetupConnection::JobNegotiation(m) => { assert(s.skip(1) =~= m.enc() + rest); let x = match w { SetupConnection::JobNegotiation(y) => y, _ => m }; crate::stratumv2::job_negotiation::setup_connection::lemma_C04_C08_rt_SetupConnection(m, x, rest); }
    }
}
=== mod stratumv2::noise::signature_noise_message
pub proof fn lemma_C04_rt_SignatureNoiseMessage(v: SignatureNoiseMessage, w: SignatureNoiseMessage, rest: Seq<u8>)
    ensures SignatureNoiseMessage::accepts(v.enc() + rest) == Some(v.enc().len() as int),
        SignatureNoiseMessage::denotes(v.enc() + rest, w) ==> w.version == v.version && w.valid_from == v.valid_from && w.not_valid_after == v.not_valid_after && w.signature.sig() == v.signature.sig()
{
    let s = v.enc() + rest; v.signature.axiom_sig_len();
    lemma_le2(v.version as int); lemma_le4(v.valid_from as int); lemma_le4(v.not_valid_after as int);
    assert(un2(s) == un2(le2(v.version as int)));
    assert(s.subrange(2, 6) =~= le4(v.valid_from as int)); assert(s.subrange(6, 10) =~= le4(v.not_valid_after as int)); assert(s.subrange(10, 74) =~= v.signature.sig());
    assert(s[73] == v.signature.sig()[63]);
}
=== mod stratumv2::codec::frame
/// decoding an encoded frame, whatever follows it, gives its type and its payload back
pub proof fn lemma_C06_rt_Message(v: Message, w: Message, rest: Seq<u8>)
    requires v.encodable()
    ensures Message::accepts(v.enc() + rest) == Some(v.enc().len() as int),
        Message::denotes(v.enc() + rest, w) ==> w.message_type == v.message_type && w.payload@ == v.payload@
{
    let s = v.enc() + rest; let h = head(v.message_type); let n = v.payload@.len() as int;
    lemma_le2(h); lemma_le3(n);
    assert(un2(s) == un2(le2(h))); assert(s[2] == row(v.message_type).1 as u8);
    assert(s.skip(3).take(3) =~= le3(n)); assert(un3(s.skip(3)) == un3(s.skip(3).take(3)));
    assert(s.subrange(6, 6 + n) =~= v.payload@);
    assert(row(v.message_type) == (un2(s) % 32768, s[2] as int, un2(s) >= 32768));
    crate::stratumv2::types::message_type::lemma_table_known(v.message_type);
    if row(w.message_type) == row(v.message_type) { crate::stratumv2::types::message_type::lemma_table_injective(v.message_type, w.message_type); }
}
/// an accepted frame is the encoding of exactly what it decodes to
pub proof fn lemma_C06_canon_Message(s: Seq<u8>, v: Message)
    requires Message::accepts(s) is Some, Message::denotes(s, v)
    ensures v.enc() == s.take(Message::accepts(s)->Some_0), v.encodable()
{
    let n = un3(s.skip(3)); lemma_un2(s.take(2)); lemma_un3(s.skip(3).take(3));
    assert(un2(s.take(2)) == un2(s)); assert(un3(s.skip(3).take(3)) == n);
    assert(head(v.message_type) == un2(s));
    assert(v.enc() =~= s.take(6 + n));
}
