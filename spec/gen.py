#!/usr/bin/env python3
"""Generates spec/20_fields.vspec and spec/30_messages.vspec (committed) from the protocol tables."""
import os
D = os.path.dirname(os.path.abspath(__file__))
out = []
def w(s): out.append(s)

def eqspec(P, A, B, f, ta, tb):
    """comparison of a wire type with its native type, in both directions (C23)"""
    for (X, Y, l, r, x, y) in [(A, B, "self."+f+ta, "(*other)"+tb, "self", "other"), (B, A, "(*self)"+tb, "other."+f+ta, "", "")]:
        w(f"""=== fn {P}::<{X} as PartialEq<{Y}>>::eq
ensures:
[C23:equal] r == ({l} == {r})
=== after {P}::<{X} as PartialEq<{Y}>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<{Y}> for {X} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &{Y}) -> bool {{ {l} == {r} }} }}
""")
eqspec("stratumv2::types::fixed", "U24", "u32", "0", "", "")
eqspec("stratumv2::types::fixed", "U256", "[u8;32]", "0", "@", "@")

# ---- variable-length fields -------------------------------------------------------------------
for T, L, MAX in [("B0_31","u8",31),("B0_32","u8",32),("B0_255","u8",255),("B0_64K","u16",65535),("B0_16M","U24",16777215)]:
    n = {"u8":1,"u16":2,"U24":3}[L]
    lenv = {"u8":"self.length as int","u16":"self.length as int","U24":"self.length.0 as int"}[L]
    pre = {"u8":"seq![{} as u8]","u16":"le2({})","U24":"le3({})"}[L]
    un = {"u8":"(s[0] as int)","u16":"un2(s)","U24":"un3(s)"}[L]
    vlen = lenv.replace("self","v")
    P = "stratumv2::types::bytes"
    w(f"""""")
    eqspec(P, T, "Vec<u8>", "data", "@", "@")
    w(f"""=== type {P}::{T}
derive- PartialEq, Eq
=== fn {P}::{T}::new
ensures:
[accept] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() <= {MAX}) ==> r is Ok
[reject] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() > {MAX}) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn {P}::<Vec<u8> as From<{T}>>::from
ensures:
[value] r == b.data
=== after {P}::<Vec<u8> as From<{T}>>
impl vstd::std_specs::convert::FromSpecImpl<{T}> for Vec<u8> {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(v: {T}) -> Vec<u8> {{ v.data }} }}
impl VInto<Vec<u8>> for {T} {{
    open spec fn conv(self, u: Vec<u8>) -> bool {{ u == self.data }}
    fn v_into(self) -> (r: Vec<u8>) {{ proof {{ let d = self.conv(arbitrary::<Vec<u8>>()); }} <Vec<u8> as From<{T}>>::from(self) }}
}}
=== impl {P}::<{T} as Serializable>
open spec fn enc(&self) -> Seq<u8> {{ {pre.format('self.data@.len() as int')} + self.data@ }}
open spec fn wf(&self) -> bool {{ {lenv} == self.data@.len() && self.data@.len() <= {MAX} }}
open spec fn encodable(&self) -> bool {{ true }}
=== fn {P}::<{T} as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl {P}::<{T} as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {{
    if s.len() >= {n} && {un} <= {MAX} && s.len() >= {n} + {un} {{ Some({n} + {un}) }} else {{ None }}
}}
open spec fn denotes(s: Seq<u8>, v: {T}) -> bool {{ v.data@ == s.subrange({n}, {n} + {un}) && {vlen} == {un} && v.wf() }}
""")
for T, MAX in [("STR0_32",32),("STR0_255",255)]:
    P = "stratumv2::types::strings"
    w(f"""""")
    eqspec(P, T, "String", "data", "@", "@")
    w(f"""=== type {P}::{T}
derive- PartialEq, Eq
=== fn {P}::{T}::new
ensures:
[accept] (forall|s: String| value.conv(s) ==> sbytes(s).len() <= {MAX}) ==> r is Ok
[reject] (forall|s: String| value.conv(s) ==> sbytes(s).len() > {MAX}) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn {P}::<String as From<{T}>>::from
ensures:
[value] r == s.data
=== after {P}::<String as From<{T}>>
impl vstd::std_specs::convert::FromSpecImpl<{T}> for String {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(v: {T}) -> String {{ v.data }} }}
impl VInto<String> for {T} {{
    open spec fn conv(self, u: String) -> bool {{ u == self.data }}
    fn v_into(self) -> (r: String) {{ proof {{ let d = self.conv(arbitrary::<String>()); }} <String as From<{T}>>::from(self) }}
}}
=== impl {P}::<{T} as Serializable>
open spec fn enc(&self) -> Seq<u8> {{ seq![sbytes(self.data).len() as u8] + sbytes(self.data) }}
open spec fn wf(&self) -> bool {{ self.length as int == sbytes(self.data).len() && self.length <= {MAX} }}
open spec fn encodable(&self) -> bool {{ true }}
=== fn {P}::<{T} as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl {P}::<{T} as Deserializable>
#[verifier::opaque]
open spec fn accepts(s: Seq<u8>) -> Option<int> {{
    if s.len() >= 1 && s[0] <= {MAX} && s.len() >= 1 + s[0] && vstd::utf8::valid_utf8(s.subrange(1, 1 + s[0])) {{ Some(1 + s[0]) }} else {{ None }}
}}
#[verifier::opaque]
open spec fn denotes(s: Seq<u8>, v: {T}) -> bool {{ sbytes(v.data) == s.subrange(1, 1 + s[0]) && v.length == s[0] && v.wf() }}
=== fn {P}::<{T} as Deserializable>::deserialize
start:
reveal(<{T} as Deserializable>::accepts); reveal(<{T} as Deserializable>::denotes);
=== mod {P}
/// what the users of {T}'s decoder need to know without unfolding it
pub broadcast proof fn lemma_{T}_denotes(s: Seq<u8>, v: {T})
    requires #[trigger] <{T} as Deserializable>::denotes(s, v)
    ensures sbytes(v.data).len() == s[0], v.wf()
{{ reveal(<{T} as Deserializable>::denotes); }}
pub broadcast proof fn lemma_{T}_accepts(s: Seq<u8>)
    ensures #[trigger] <{T} as Deserializable>::accepts(s) is Some ==> 1 <= <{T} as Deserializable>::accepts(s)->Some_0 <= s.len() && <{T} as Deserializable>::accepts(s)->Some_0 == 1 + s[0]
{{ reveal(<{T} as Deserializable>::accepts); }}
""")
open(f"{D}/20_fields.vspec","w").write("#! generated by gen.py\n"+"\n".join(out))

# ---- error codes ------------------------------------------------------------------------------
out = []
CODES = {
 "SetupConnectionErrorCode": ("stratumv2::common::setup_connection_error_code", [
    ("UnsupportedFeatureFlags","unsupported-feature-flags"),("UnsupportedProtocol","unsupported-protocol"),("ProtocolVersionMismatch","protocol-version-mismatch")]),
 "OpenMiningChannelErrorCode": ("stratumv2::mining::open_mining_channel_error", [
    ("UnknownUser","unknown-user"),("MaxTargetOutOfRange","max-target-out-of-range")]),
}
for C,(P,vs) in CODES.items():
    isc = " || ".join(f'c == "{s}"@' for _,s in vs)
    arms = ", ".join(f'{C}::{v} => "{s}"@' for v,s in vs)
    lens = "\n".join(f'    reveal_strlit("{s}"); vstd::utf8::is_ascii_chars_encode_utf8("{s}"@);' for v,s in vs)
    res = " ".join(f'r is Ok ==> code_str(r->Ok_0) == {{0}},' for _ in [0])
    w(f"""=== type {P}::{C}
derive+ Structural, Eq
=== mod {P}
/// the protocol string of each code
pub open spec fn code_str(e: {C}) -> Seq<char> {{ match e {{ {arms} }} }}
pub open spec fn is_code(c: Seq<char>) -> bool {{ {isc} }}
/// every code string is at most 255 bytes long and ASCII
pub proof fn lemma_code_len(e: {C})
    ensures vstd::utf8::encode_utf8(code_str(e)).len() == code_str(e).len(), 1 <= code_str(e).len() <= 255
{{
{lens}
}}
/// no two codes share a string
pub proof fn lemma_code_injective(a: {C}, b: {C})
    requires code_str(a) == code_str(b)
    ensures a == b
{{
{lens}
}}
=== fn {P}::<{C} as FromStr>::from_str
ensures:
[accept] r is Ok <==> is_code(s@)
[value] r is Ok ==> code_str(r->Ok_0) == s@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== fn {P}::<{C} as TryFrom<String>>::try_from
ensures:
[accept] r is Ok <==> is_code(s@)
[value] r is Ok ==> code_str(r->Ok_0) == s@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== after {P}::<{C} as TryFrom<String>>
impl vstd::std_specs::convert::TryFromSpecImpl<String> for {C} {{ open spec fn obeys_try_from_spec() -> bool {{ false }} open spec fn try_from_spec(v: String) -> core::result::Result<{C}, Error> {{ arbitrary() }} }}
=== fn {P}::<{C} as TryFrom<STR0_255>>::try_from
ensures:
[accept] r is Ok <==> is_code(s.data@)
[value] r is Ok ==> code_str(r->Ok_0) == s.data@
[error] r is Err ==> r->Err_0 is UnknownErrorCode
=== after {P}::<{C} as TryFrom<STR0_255>>
impl vstd::std_specs::convert::TryFromSpecImpl<STR0_255> for {C} {{ open spec fn obeys_try_from_spec() -> bool {{ false }} open spec fn try_from_spec(v: STR0_255) -> core::result::Result<{C}, Error> {{ arbitrary() }} }}
=== fn {P}::<String as From<&{C}>>::from
ensures:
[value] r@ == code_str(*error_code)
=== after {P}::<String as From<&{C}>>
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a {C}> for String {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: &'a {C}) -> String {{ arbitrary() }} }}
impl<'a> VInto<String> for &'a {C} {{
    open spec fn conv(self, u: String) -> bool {{ u@ == code_str(*self) }}
    fn v_into(self) -> (r: String) {{ proof {{ let d = self.conv(arbitrary::<String>()); }} <String as From<&{C}>>::from(self) }}
}}
=== impl {P}::<{C} as Display>
open spec fn text(&self) -> Seq<char> {{ code_str(*self) }}
=== fn {P}::<{C} as Display>::fmt
ensures:
[text] r is Ok && old(f).plain() ==> final(f).out() == old(f).out() + code_str(*self)
[text] old(f).reliable() ==> r is Ok
=== fn {P}::<STR0_255 as From<&{C}>>::from
ensures:
[value] r.data@ == code_str(*error_code)
[wf] r.wf()
start:
proof {{ lemma_code_len(*error_code); }}
=== after {P}::<STR0_255 as From<&{C}>>
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a {C}> for STR0_255 {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: &'a {C}) -> STR0_255 {{ arbitrary() }} }}
impl<'a> VInto<STR0_255> for &'a {C} {{
    open spec fn conv(self, u: STR0_255) -> bool {{ u.data@ == code_str(*self) && u.wf() }}
    fn v_into(self) -> (r: STR0_255) {{ proof {{ let d = self.conv(arbitrary::<STR0_255>()); }} <STR0_255 as From<&{C}>>::from(self) }}
}}
=== impl {P}::<{C} as Serializable>
open spec fn enc(&self) -> Seq<u8> {{ seq![code_str(*self).len() as u8] + vstd::utf8::encode_utf8(code_str(*self)) }}
open spec fn wf(&self) -> bool {{ true }}
open spec fn encodable(&self) -> bool {{ true }}
=== fn {P}::<{C} as Serializable>::serialize
start:
proof {{ lemma_code_len(*self); }}
=== impl {P}::<{C} as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {{
    match STR0_255::accepts(s) {{ Some(n) => if is_code(vstd::utf8::decode_utf8(s.subrange(1, n))) {{ Some(n) }} else {{ None }}, None => None }}
}}
open spec fn denotes(s: Seq<u8>, v: {C}) -> bool {{ code_str(v) == vstd::utf8::decode_utf8(s.subrange(1, 1 + s[0])) }}
=== fn {P}::<{C} as Deserializable>::deserialize
start:
broadcast use crate::vshim::lemma_str_chars;
reveal(<STR0_255 as Deserializable>::accepts); reveal(<STR0_255 as Deserializable>::denotes);
""")

# ---- flags ------------------------------------------------------------------------------------
FLAGS = [
 ("stratumv2::mining::setup_connection","SetupConnectionFlags",[("REQUIRES_STANDARD_JOBS",1),("REQUIRES_WORK_SELECTION",2),("REQUIRES_VERSION_ROLLING",4)]),
 ("stratumv2::mining::setup_connection_success","SetupConnectionSuccessFlags",[("NONE",0),("REQUIRES_FIXED_VERSION",1),("REQUIRES_EXTENDED_CHANNELS",2)]),
 ("stratumv2::job_negotiation::setup_connection","SetupConnectionFlags",[("REQUIRES_ASYNC_JOB_MINING",1)]),
 ("stratumv2::job_negotiation::setup_connection_success","SetupConnectionSuccessFlags",[("NONE",0)]),
]
for P,F,cs in FLAGS:
    M = 0
    for _,b in cs: M |= b
    for c,b in cs:
        w(f"""=== fn {P}::{F}::{c}
ensures:
[flag] Self::{c}.bits == {b}u32
start:
proof {{ assert(1u32 << 0u32 == 1u32 && 1u32 << 1u32 == 2u32 && 1u32 << 2u32 == 4u32) by(bit_vector); }}
""")
    w(f"""=== fn {P}::{F}::empty
ensures:
[flag] r.bits == 0
=== fn {P}::{F}::all
ensures:
[flag] r.bits == {M}u32
start:
proof {{ assert(0u32 | 1u32 == 1u32 && 1u32 | 2u32 == 3u32 && (0u32 | 1u32) | 2u32 == 3u32 && (1u32 | 2u32) | 4u32 == 7u32) by(bit_vector); }}
=== fn {P}::{F}::bits
ensures:
[flag] r == self.bits
=== fn {P}::{F}::from_bits
ensures:
[flag] r is Some <==> bits & !{M}u32 == 0
[flag] r is Some ==> r->Some_0.bits == bits
=== fn {P}::{F}::is_empty
ensures:
[flag] r == (self.bits == 0)
=== fn {P}::{F}::contains
ensures:
[flag] r == (self.bits & other.bits == other.bits)
=== fn {P}::{F}::from_bits_truncate
ensures:
[flag] r.bits == bits & {M}u32
=== fn {P}::{F}::intersects
ensures:
[flag] r == (self.bits & other.bits != 0)
=== fn {P}::{F}::union
ensures:
[flag] r.bits == self.bits | other.bits
=== fn {P}::{F}::intersection
ensures:
[flag] r.bits == self.bits & other.bits
=== fn {P}::{F}::difference
ensures:
[flag] r.bits == self.bits & !other.bits
=== fn {P}::{F}::complement
ensures:
[flag] r.bits == !self.bits & {M}u32
=== fn {P}::{F}::insert
ensures:
[flag] final(self).bits == old(self).bits | other.bits
=== fn {P}::{F}::remove
ensures:
[flag] final(self).bits == old(self).bits & !other.bits
=== impl {P}::<{F} as Serializable>
open spec fn enc(&self) -> Seq<u8> {{ le4(self.bits as int) }}
open spec fn wf(&self) -> bool {{ true }}
open spec fn encodable(&self) -> bool {{ true }}
=== impl {P}::<{F} as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {{ if s.len() >= 4 && (un4(s) as u32) & !{M}u32 == 0 {{ Some(4) }} else {{ None }} }}
open spec fn denotes(s: Seq<u8>, v: {F}) -> bool {{ v.bits as int == un4(s) }}
""")

# ---- messages ---------------------------------------------------------------------------------
SC = [("min_version","u16"),("max_version","u16"),("flags","SetupConnectionFlags"),("endpoint_host","STR0_255"),("endpoint_port","u16"),
      ("vendor","STR0_255"),("hardware_version","STR0_255"),("firmware","STR0_255"),("device_id","STR0_255")]
MSGS = [
 ("stratumv2::common::channel_endpoint_changed","ChannelEndpointChanged",[("channel_id","u32")]),
 ("stratumv2::mining::setup_connection","SetupConnection",SC),
 ("stratumv2::mining::setup_connection_success","SetupConnectionSuccess",[("used_version","u16"),("flags","SetupConnectionSuccessFlags")]),
 ("stratumv2::mining::setup_connection_error","SetupConnectionError",[("flags","SetupConnectionFlags"),("error_code","SetupConnectionErrorCode")]),
 ("stratumv2::job_negotiation::setup_connection","SetupConnection",SC),
 ("stratumv2::job_negotiation::setup_connection_success","SetupConnectionSuccess",[("used_version","u16"),("flags","SetupConnectionSuccessFlags")]),
 ("stratumv2::job_negotiation::setup_connection_error","SetupConnectionError",[("flags","SetupConnectionFlags"),("error_code","SetupConnectionErrorCode")]),
 ("stratumv2::mining::open_standard_mining_channel","OpenStandardMiningChannel",[("request_id","u32"),("user_identity","STR0_255"),("nominal_hash_rate","f32"),("max_target","U256")]),
 ("stratumv2::mining::open_standard_mining_channel_success","OpenStandardMiningChannelSuccess",[("request_id","u32"),("channel_id","u32"),("target","U256"),("extranonce_prefix","B0_32"),("group_channel_id","u32")]),
 ("stratumv2::mining::open_standard_mining_channel_error","OpenStandardMiningChannelError",[("request_id","u32"),("error_code","OpenMiningChannelErrorCode")]),
 ("stratumv2::mining::open_extended_mining_channel","OpenExtendedMiningChannel",[("request_id","u32"),("user_identity","STR0_255"),("nominal_hash_rate","f32"),("max_target","U256"),("min_extranonce_size","u16")]),
 ("stratumv2::mining::open_extended_mining_channel_success","OpenExtendedMiningChannelSuccess",[("request_id","u32"),("channel_id","u32"),("target","U256"),("extranonce_size","u16"),("extranonce_prefix","B0_32")]),
 ("stratumv2::mining::open_extended_mining_channel_error","OpenExtendedMiningChannelError",[("request_id","u32"),("error_code","OpenMiningChannelErrorCode")]),
 ("stratumv2::mining::update_channel","UpdateChannel",[("channel_id","u32"),("nominal_hash_rate","f32"),("max_target","U256")]),
]
for P,T,fs in MSGS:
    k = len(fs)
    rassoc = lambda xs: xs[0] if len(xs)==1 else f"{xs[0]} + ({rassoc(xs[1:])})"
    enc = rassoc([f"self.{f}.enc()" for f,_ in fs])
    wf = " && ".join(f"self.{f}.wf()" for f,_ in fs)
    pos = []
    for i,(f,t) in enumerate(fs):
        prev = "Some(0int)" if i==0 else f"Self::pos{i}(s)"
        pos.append(f"pub open spec fn pos{i+1}(s: Seq<u8>) -> Option<int> {{ match {prev} {{ Some(p) => match {t}::accepts(s.skip(p)) {{ Some(n) => Some(p + n), None => None }}, None => None }} }}")
    den = " && ".join(f"{t}::denotes(s.skip({'0' if i==0 else f'{T}::pos{i}(s)->Some_0'}), v.{f})" for i,(f,t) in enumerate(fs))
    valid = validv = None
    acc = f"{T}::pos{k}(s)"
    sc = T == "SetupConnection"
    er = T == "SetupConnectionError"
    if sc:
        # positions: vendor at pos5, firmware at pos7
        acc = f"if {T}::pos{k}(s) is Some && un2(s) >= 2 && un2(s.skip({T}::pos1(s)->Some_0)) >= 2 && s.skip({T}::pos5(s)->Some_0)[0] != 0 && s.skip({T}::pos7(s)->Some_0)[0] != 0 {{ {T}::pos{k}(s) }} else {{ None }}"
    if er:
        acc = f"if {T}::pos{k}(s) is Some && !(un4(s) == 0 && vstd::utf8::decode_utf8(s.skip(4).subrange(1, 1 + s.skip(4)[0])) == \"unsupported-feature-flags\"@) {{ {T}::pos{k}(s) }} else {{ None }}"
    ens = []
    accpre = []
    for f,t in fs:
        if t == "STR0_255":
            ens.append(f"[keep] r is Ok ==> {f}.conv(r->Ok_0.{f}.data)")
            ens.append(f"[wf] r is Ok ==> r->Ok_0.{f}.wf()")
            accpre.append(f"(forall|s: String| {f}.conv(s) ==> sbytes(s).len() <= 255)")
        elif t == "B0_32":
            ens.append(f"[keep] r is Ok ==> {f}.conv(r->Ok_0.{f}.data)")
            ens.append(f"[wf] r is Ok ==> r->Ok_0.{f}.wf()")
            accpre.append(f"(forall|s: Vec<u8>| {f}.conv(s) ==> s@.len() <= 32)")
        elif t == "U256":
            ens.append(f"[keep] r is Ok ==> {f}.conv(r->Ok_0.{f})")
        else:
            ens.append(f"[keep] r is Ok ==> r->Ok_0.{f} == {f}")
    newstart = ""
    if sc:
        for f in ("vendor","firmware"):
            ens.append(f"[valid] r is Ok ==> r->Ok_0.{f}.data@.len() > 0")
            accpre.append(f"(forall|s: String| {f}.conv(s) ==> s@.len() > 0)")
        ens.append("[valid] r is Ok ==> r->Ok_0.min_version >= 2 && r->Ok_0.max_version >= 2")
        accpre.append("min_version >= 2 && max_version >= 2")
    if er:
        ens.append("[rule] r is Ok ==> !(flags.bits == 0 && error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags)")
        accpre.append("!(flags.bits == 0 && error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags)")
    ens.append(f"[accept] {' && '.join(accpre) or 'true'} ==> r is Ok")
    L = "crate::stratumv2::types::strings::lemma_STR0_255"
    dstart = f"=== fn {P}::<{T} as Deserializable>::deserialize\nstart:\nbroadcast use {{crate::vshim::lemma_str_chars, {L}_denotes, {L}_accepts}};\n"
    if er:
        CE = "crate::stratumv2::common::setup_connection_error_code"
        dstart += f'proof {{ assert forall|a: SetupConnectionErrorCode, b: SetupConnectionErrorCode| #[trigger] {CE}::code_str(a) == #[trigger] {CE}::code_str(b) implies a == b by {{ {CE}::lemma_code_injective(a, b); }} assert({CE}::code_str(SetupConnectionErrorCode::UnsupportedFeatureFlags) == "unsupported-feature-flags"@); }}\n'
    if sc:
        es = [f"self.{f}.enc()" for f,_ in fs]
        left = "w"
        for e in es: left = f"({left} + {e})"
        chain = f"assert forall|w: Seq<u8>| #[trigger] {left} == w + self.enc() by {{ broadcast use crate::vshim::lemma_assoc; }}"
        sstart = f"proof {{ {chain} }}"
    else:
        sstart = "broadcast use crate::vshim::lemma_assoc;"
    has_code = any(t.endswith("ErrorCode") for _,t in fs)
    codefield = [f for f,t in fs if t.endswith("ErrorCode")]
    codemod = {"SetupConnectionErrorCode":"crate::stratumv2::common::setup_connection_error_code","OpenMiningChannelErrorCode":"crate::stratumv2::mining::open_mining_channel_error"}
    codelem = "".join(f" {codemod[t]}::lemma_code_len(self.{f});" for f,t in fs if t.endswith("ErrorCode"))
    same = []
    for f,t in fs:
        if t in ("STR0_255",): same.append(f"self.{f}.data@ == o.{f}.data@ && self.{f}.length == o.{f}.length")
        elif t == "B0_32": same.append(f"self.{f}.data@ == o.{f}.data@ && self.{f}.length == o.{f}.length")
        elif t == "U256": same.append(f"self.{f}.0@ == o.{f}.0@")
        elif t == "f32": same.append(f"f32_bits(self.{f}) == f32_bits(o.{f})")
        elif t.endswith("Flags"): same.append(f"self.{f}.bits == o.{f}.bits")
        else: same.append(f"self.{f} == o.{f}")
    w(f"""=== type {P}::{T}
derive- PartialEq, Eq
=== impl {P}::{T}
{chr(10).join(pos)}
=== fn {P}::{T}::new
ensures:
{chr(10).join(ens)}
start:
broadcast use crate::vshim::lemma_str_chars;
=== impl {P}::<{T} as Serializable>
open spec fn enc(&self) -> Seq<u8> {{ {enc} }}
open spec fn wf(&self) -> bool {{ {wf} }}
open spec fn encodable(&self) -> bool {{ true }}
=== fn {P}::<{T} as Serializable>::serialize
start:
{sstart}
proof {{ reveal_with_fuel(crate::vshim::sum, {k+2});{codelem} }}
=== impl {P}::<{T} as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {{ {acc} }}
open spec fn denotes(s: Seq<u8>, v: {T}) -> bool {{ {den} }}
{dstart}=== impl {P}::<{T} as Frameable>
open spec fn mt() -> MessageType {{ MessageType::{T} }}
""")
open(f"{D}/30_messages.vspec","w").write("#! generated by gen.py\n"+"\n".join(out))

# ---- round trips ------------------------------------------------------------------------------
# What the contracts of serialize and deserialize say together: decoding an encoding (with anything
# after it) consumes exactly the encoding and yields the same value, and re-encoding a decoded value
# gives the bytes it was decoded from. Lemmas over enc/accepts/denotes, the functions the contracts
# are written with.
out = []
FX = "crate::stratumv2::types::fixed"
ST = "crate::stratumv2::types::strings"
BY = "crate::stratumv2::types::bytes"
CEM = {"SetupConnectionErrorCode":"crate::stratumv2::common::setup_connection_error_code","OpenMiningChannelErrorCode":"crate::stratumv2::mining::open_mining_channel_error"}
w("=== mod stratumv2::types::fixed")
w("""pub proof fn lemma_C01_rt_bool(v: bool, w: bool, rest: Seq<u8>)
    ensures bool::accepts(v.enc() + rest) == Some(v.enc().len() as int), bool::denotes(v.enc() + rest, w) ==> w == v {}
pub proof fn lemma_C01_rt_u8(v: u8, w: u8, rest: Seq<u8>)
    ensures u8::accepts(v.enc() + rest) == Some(v.enc().len() as int), u8::denotes(v.enc() + rest, w) ==> w == v {}
pub proof fn lemma_C01_canon_u8(s: Seq<u8>, v: u8)
    requires u8::accepts(s) is Some, u8::denotes(s, v) ensures u8::accepts(s) == Some(1int), v.enc() == s.take(1)
{ assert(v.enc() =~= s.take(1)); }""")
for T,n,val,val2,req in [("u16",2,"v as int","w == v","true"),("u32",4,"v as int","w == v","true"),("f32",4,"f32_bits(v)","f32_bits(w) == f32_bits(v)","true"),("U24",3,"v.0 as int","w.0 == v.0","v.wf()")]:
    ax = "broadcast use crate::vshim::axiom_f32_bits; " if T=="f32" else ""
    w(f"""pub proof fn lemma_C01_rt_{T}(v: {T}, w: {T}, rest: Seq<u8>)
    requires {req}
    ensures {T}::accepts(v.enc() + rest) == Some(v.enc().len() as int), {T}::denotes(v.enc() + rest, w) ==> {val2}
{{ {ax}lemma_le{n}({val}); let s = v.enc() + rest; assert(un{n}(s) == un{n}(le{n}({val}))); }}
pub proof fn lemma_C01_canon_{T}(s: Seq<u8>, v: {T})
    requires {T}::accepts(s) is Some, {T}::denotes(s, v) ensures {T}::accepts(s) == Some({n}int), v.enc() == s.take({n})
{{ lemma_un{n}(s.take({n})); assert(un{n}(s.take({n})) == un{n}(s)); }}""")
w("""pub proof fn lemma_C01_rt_U256(v: U256, w: U256, rest: Seq<u8>)
    ensures U256::accepts(v.enc() + rest) == Some(v.enc().len() as int), U256::denotes(v.enc() + rest, w) ==> w.0@ == v.0@
{ assert((v.enc() + rest).take(32) =~= v.enc()); }
pub proof fn lemma_C01_canon_U256(s: Seq<u8>, v: U256)
    requires U256::accepts(s) is Some, U256::denotes(s, v) ensures U256::accepts(s) == Some(32int), v.enc() == s.take(32) {}""")
w("=== mod stratumv2::types::bytes")
for T, L, MAX in [("B0_31","u8",31),("B0_32","u8",32),("B0_255","u8",255),("B0_64K","u16",65535),("B0_16M","U24",16777215)]:
    n = {"u8":1,"u16":2,"U24":3}[L]
    le = "" if n==1 else f"lemma_le{n}(v.data@.len() as int); assert(un{n}(s) == un{n}(le{n}(v.data@.len() as int))); "
    can = f"assert(seq![s[0]] =~= s.take(1));" if n==1 else f"lemma_un{n}(s.take({n})); assert(un{n}(s.take({n})) == un{n}(s));"
    ln = {"u8":"length","u16":"length","U24":"length.0"}[L]
    L1 = {1:"(s[0] as int)",2:"un2(s)",3:"un3(s)"}[n]
    w(f"""pub proof fn lemma_C02_rt_{T}(v: {T}, w: {T}, rest: Seq<u8>)
    requires v.wf()
    ensures {T}::accepts(v.enc() + rest) == Some(v.enc().len() as int), {T}::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.{ln} == v.{ln}
{{ let s = v.enc() + rest; {le}assert({L1} == v.data@.len()); assert(s.subrange({n}, {n} + {L1}) =~= v.data@); }}
pub proof fn lemma_C02_canon_{T}(s: Seq<u8>, v: {T})
    requires {T}::accepts(s) is Some, {T}::denotes(s, v)
    ensures v.enc() == s.take({T}::accepts(s)->Some_0), 0 <= {T}::accepts(s)->Some_0 <= s.len()
{{ {can} assert(v.data@.len() == {L1}); assert(s.take({n}) + s.subrange({n}, {n} + {L1}) =~= s.take({n} + {L1})); }}""")
w("=== mod stratumv2::types::strings")
for T in ("STR0_32","STR0_255"):
    w(f"""pub proof fn lemma_C02_rt_{T}(v: {T}, w: {T}, rest: Seq<u8>)
    requires v.wf()
    ensures {T}::accepts(v.enc() + rest) == Some(v.enc().len() as int), {T}::denotes(v.enc() + rest, w) ==> w.data@ == v.data@ && w.length == v.length
{{ reveal(<{T} as Deserializable>::accepts); reveal(<{T} as Deserializable>::denotes); let s = v.enc() + rest; assert(s[0] == sbytes(v.data).len());
  assert(s.subrange(1, 1 + s[0]) =~= sbytes(v.data)); lemma_str_chars(v.data); lemma_str_chars(w.data); }}
pub proof fn lemma_C02_canon_{T}(s: Seq<u8>, v: {T})
    requires {T}::accepts(s) is Some, {T}::denotes(s, v)
    ensures v.enc() == s.take({T}::accepts(s)->Some_0), 0 <= {T}::accepts(s)->Some_0 <= s.len()
{{ reveal(<{T} as Deserializable>::accepts); reveal(<{T} as Deserializable>::denotes); assert(seq![s[0]] + s.subrange(1, 1 + s[0]) =~= s.take(1 + s[0])); }}""")
for C,(P,vs) in CODES.items():
    first = f"lemma_code_len(v); lemma_code_len(w);"
    w(f"""=== mod {P}
pub proof fn lemma_C11_rt_{C}(v: {C}, w: {C}, rest: Seq<u8>)
    ensures {C}::accepts(v.enc() + rest) == Some(v.enc().len() as int), {C}::denotes(v.enc() + rest, w) ==> w == v,
        vstd::utf8::decode_utf8((v.enc() + rest).subrange(1, 1 + (v.enc() + rest)[0])) == code_str(v)
{{ reveal(<STR0_255 as Deserializable>::accepts); {first} let s = v.enc() + rest; let t = vstd::utf8::encode_utf8(code_str(v)); assert(s[0] == t.len());
  assert(s.subrange(1, 1 + s[0]) =~= t); vstd::utf8::encode_utf8_decode_utf8(code_str(v)); vstd::utf8::encode_utf8_valid_utf8(code_str(v));
  if code_str(w) == code_str(v) {{ lemma_code_injective(v, w); }} }}
pub proof fn lemma_C11_canon_{C}(s: Seq<u8>, v: {C})
    requires {C}::accepts(s) is Some, {C}::denotes(s, v)
    ensures v.enc() == s.take({C}::accepts(s)->Some_0), 0 <= {C}::accepts(s)->Some_0 <= s.len()
{{ reveal(<STR0_255 as Deserializable>::accepts); lemma_code_len(v); let t = s.subrange(1, 1 + s[0]); vstd::utf8::decode_utf8_encode_utf8(t); assert(seq![s[0]] + t =~= s.take(1 + s[0])); }}""")
FMASK = {}
for P,F,cs in FLAGS:
    M = 0
    for _,b in cs: M |= b
    FMASK[(P,F)] = M
    w(f"""=== mod {P}
pub proof fn lemma_C10_rt_{F}(v: {F}, w: {F}, rest: Seq<u8>)
    requires v.bits & !{M}u32 == 0
    ensures {F}::accepts(v.enc() + rest) == Some(v.enc().len() as int), {F}::denotes(v.enc() + rest, w) ==> w.bits == v.bits
{{ lemma_le4(v.bits as int); let s = v.enc() + rest; assert(un4(s) == un4(le4(v.bits as int))); assert(un4(s) as u32 == v.bits); }}
pub proof fn lemma_C10_canon_{F}(s: Seq<u8>, v: {F})
    requires {F}::accepts(s) is Some, {F}::denotes(s, v) ensures {F}::accepts(s) == Some(4int), v.enc() == s.take(4)
{{ lemma_un4(s.take(4)); assert(un4(s.take(4)) == un4(s)); }}""")
def flem(P,t,kind):
    if t in ("u16","u32","f32","U256"): return f"{FX}::lemma_C01_{kind}_{t}"
    if t.startswith("STR"): return f"{ST}::lemma_C02_{kind}_{t}"
    if t.startswith("B0"): return f"{BY}::lemma_C02_{kind}_{t}"
    if t.endswith("ErrorCode"): return f"{CEM[t]}::lemma_C11_{kind}_{t}"
    mod = P
    if P.endswith("setup_connection_error"): mod = P.replace("_error","")
    return f"crate::{mod}::lemma_C10_{kind}_{t}"
def fmask(P,t):
    return FMASK[(P.replace("setup_connection_error","setup_connection") if P.endswith("_error") else P, t)]
for P,T,fs in MSGS:
    k = len(fs)
    sc = T == "SetupConnection"; er = T == "SetupConnectionError"
    same = []; req = ["v.wf()"]
    for f,t in fs:
        if t in ("STR0_255","B0_32"): same.append(f"w.{f}.data@ == v.{f}.data@ && w.{f}.length == v.{f}.length")
        elif t == "U256": same.append(f"w.{f}.0@ == v.{f}.0@")
        elif t == "f32": same.append(f"f32_bits(w.{f}) == f32_bits(v.{f})")
        elif t.endswith("Flags"):
            same.append(f"w.{f}.bits == v.{f}.bits"); req.append(f"v.{f}.bits & !{fmask(P,t)}u32 == 0")
        else: same.append(f"w.{f} == v.{f}")
    if sc: req.append("v.min_version >= 2 && v.max_version >= 2 && v.vendor.data@.len() > 0 && v.firmware.data@.len() > 0")
    if er: req.append("!(v.flags.bits == 0 && v.error_code == SetupConnectionErrorCode::UnsupportedFeatureFlags)")
    b = []
    b.append(f"let s = v.enc() + rest; let t{k} = rest; let p0 = 0int;")
    for i in range(k,0,-1): b.append(f"let e{i} = v.{fs[i-1][0]}.enc(); let t{i-1} = e{i} + t{i};")
    b.append("assert(s == t0) by { broadcast use crate::vshim::lemma_assoc; } crate::vshim::lemma_skip_zero(s);")
    for i,(f,t) in enumerate(fs,1):
        b.append(f"let p{i} = p{i-1} + e{i}.len() as int; crate::vshim::lemma_step(s, p{i-1}, e{i}, t{i});")
    for i,(f,t) in enumerate(fs,1):
        b.append(f"assert({T}::pos{i}(s) == Some(p{i}) && ({t}::denotes(s.skip(p{i-1}), w.{f}) ==> {same[i-1]})) by {{ {flem(P,t,'rt')}(v.{f}, w.{f}, t{i}); }}")
    if sc:
        b.append("lemma_le2(v.min_version as int); lemma_le2(v.max_version as int); assert(un2(t0) == un2(le2(v.min_version as int))); assert(un2(t1) == un2(le2(v.max_version as int)));")
        b.append("lemma_str_chars(v.vendor.data); lemma_str_chars(v.firmware.data); assert(t5[0] == v.vendor.length); assert(t7[0] == v.firmware.length);")
    if er:
        CE = CEM["SetupConnectionErrorCode"]
        b.append(f"lemma_le4(v.flags.bits as int); assert(un4(t0) == un4(le4(v.flags.bits as int))); assert(s.skip(4) == t1); {CE}::lemma_C11_rt_SetupConnectionErrorCode(v.error_code, w.error_code, t2); let dc = vstd::utf8::decode_utf8(t1.subrange(1, 1 + t1[0])); assert(dc == {CE}::code_str(v.error_code)); if dc == \"unsupported-feature-flags\"@ {{ {CE}::lemma_code_injective(v.error_code, SetupConnectionErrorCode::UnsupportedFeatureFlags); }}")
    tot = " + ".join(f"e{i}.len()" for i in range(1,k+1))
    b.append(f"assert(v.enc().len() == {tot});")
    c = [f"crate::vshim::lemma_skip_zero(s); let p0 = 0int;"]
    for i,(f,t) in enumerate(fs,1):
        c.append(f"let p{i} = {T}::pos{i}(s)->Some_0; let e{i} = v.{f}.enc(); assert(0 <= p{i-1} <= p{i} <= s.len() && e{i} == s.subrange(p{i-1}, p{i})) by {{ {flem(P,t,'canon')}(s.skip(p{i-1}), v.{f}); assert(s.skip(p{i-1}).take(p{i} - p{i-1}) =~= s.subrange(p{i-1}, p{i})); }}")
    c = [c[0]] + [f"assert({T}::pos{i}(s) is Some);" for i in range(k,0,-1)] + c[1:]
    R = range(1,k+1)
    c.append(f"lemma_join_{T}(s, {', '.join(f'p{i}' for i in range(0,k+1))}, {', '.join(f'e{i}' for i in R)});")
    c.append(f"assert(s.subrange(0, p{k}) =~= s.take(p{k}));")
    j = [f"let a{k} = e{k};"]
    for i in range(k-1,0,-1): j.append(f"let a{i} = e{i} + a{i+1}; assert(a{i} == s.subrange(p{i-1}, p{k})) by {{ assert(s.subrange(p{i-1}, p{i}) + s.subrange(p{i}, p{k}) =~= s.subrange(p{i-1}, p{k})); }}")
    join = f"""proof fn lemma_join_{T}(s: Seq<u8>, {', '.join(f'p{i}: int' for i in range(0,k+1))}, {', '.join(f'e{i}: Seq<u8>' for i in R)})
    requires {', '.join(f'0 <= p{i-1} <= p{i} <= s.len() && e{i} == s.subrange(p{i-1}, p{i})' for i in R)}
    ensures {rassoc([f'e{i}' for i in R])} == s.subrange(p0, p{k})
{{
    {(chr(10)+'    ').join(j)}
}}
"""
    nl = "\n    "
    w(f"""=== mod {P}
/// decoding the encoding of a valid {T}, whatever follows it, consumes exactly it and gives its fields back
pub proof fn lemma_C04_C08_rt_{T}(v: {T}, w: {T}, rest: Seq<u8>)
    requires {', '.join(req)}
    ensures {T}::accepts(v.enc() + rest) == Some(v.enc().len() as int), {T}::denotes(v.enc() + rest, w) ==> {' && '.join(same)}
{{
    {nl.join(b)}
}}
{join}/// encoding a decoded {T} gives the bytes it was decoded from
pub proof fn lemma_C04_canon_{T}(s: Seq<u8>, v: {T})
    requires {T}::accepts(s) is Some, {T}::denotes(s, v)
    ensures v.enc() == s.take({T}::accepts(s)->Some_0), 0 <= {T}::accepts(s)->Some_0 <= s.len()
{{
    {nl.join(c)}
}}""")
def scsame(m):
    o = []
    for f,t in SC:
        if t == "STR0_255": o.append(f"w->{m}_0.{f}.data@ == v->{m}_0.{f}.data@ && w->{m}_0.{f}.length == v->{m}_0.{f}.length")
        elif t.endswith("Flags"): o.append(f"w->{m}_0.{f}.bits == v->{m}_0.{f}.bits")
        else: o.append(f"w->{m}_0.{f} == v->{m}_0.{f}")
    return " && ".join(o)
w(f"""=== mod stratumv2::common::setup_connection
pub open spec fn sc_valid(v: SetupConnection) -> bool {{
    v.wf() && match v {{
        SetupConnection::Mining(m) => m.flags.bits & !7u32 == 0 && m.min_version >= 2 && m.max_version >= 2 && m.vendor.data@.len() > 0 && m.firmware.data@.len() > 0,
        SetupConnection::JobNegotiation(m) => m.flags.bits & !1u32 == 0 && m.min_version >= 2 && m.max_version >= 2 && m.vendor.data@.len() > 0 && m.firmware.data@.len() > 0,
    }}
}}
pub proof fn lemma_C04_C08_rt_SetupConnection(v: SetupConnection, w: SetupConnection, rest: Seq<u8>)
    requires sc_valid(v)
    ensures SetupConnection::accepts(v.enc() + rest) == Some(v.enc().len() as int),
        SetupConnection::denotes(v.enc() + rest, w) && v is Mining ==> w is Mining && {scsame('Mining')},
        SetupConnection::denotes(v.enc() + rest, w) && v is JobNegotiation ==> w is JobNegotiation && {scsame('JobNegotiation')},
{{
    let s = v.enc() + rest;
    match v {{
        SetupConnection::Mining(m) => {{ assert(s.skip(1) =~= m.enc() + rest); let x = match w {{ SetupConnection::Mining(y) => y, _ => m }}; crate::stratumv2::mining::setup_connection::lemma_C04_C08_rt_SetupConnection(m, x, rest); }}
        SetupConnection::JobNegotiation(m) => {{ assert(s.skip(1) =~= m.enc() + rest); let x = match w {{ SetupConnection::JobNegotiation(y) => y, _ => m }}; crate::stratumv2::job_negotiation::setup_connection::lemma_C04_C08_rt_SetupConnection(m, x, rest); }}
    }}
}}
=== mod stratumv2::noise::signature_noise_message
pub proof fn lemma_C04_rt_SignatureNoiseMessage(v: SignatureNoiseMessage, w: SignatureNoiseMessage, rest: Seq<u8>)
    ensures SignatureNoiseMessage::accepts(v.enc() + rest) == Some(v.enc().len() as int),
        SignatureNoiseMessage::denotes(v.enc() + rest, w) ==> w.version == v.version && w.valid_from == v.valid_from && w.not_valid_after == v.not_valid_after && w.signature.sig() == v.signature.sig()
{{
    let s = v.enc() + rest; v.signature.axiom_sig_len();
    lemma_le2(v.version as int); lemma_le4(v.valid_from as int); lemma_le4(v.not_valid_after as int);
    assert(un2(s) == un2(le2(v.version as int)));
    assert(s.subrange(2, 6) =~= le4(v.valid_from as int)); assert(s.subrange(6, 10) =~= le4(v.not_valid_after as int)); assert(s.subrange(10, 74) =~= v.signature.sig());
    assert(s[73] == v.signature.sig()[63]);
}}
=== mod stratumv2::codec::frame
/// decoding an encoded frame, whatever follows it, gives its type and its payload back
pub proof fn lemma_C06_rt_Message(v: Message, w: Message, rest: Seq<u8>)
    requires v.encodable()
    ensures Message::accepts(v.enc() + rest) == Some(v.enc().len() as int),
        Message::denotes(v.enc() + rest, w) ==> w.message_type == v.message_type && w.payload@ == v.payload@
{{
    let s = v.enc() + rest; let h = head(v.message_type); let n = v.payload@.len() as int;
    lemma_le2(h); lemma_le3(n);
    assert(un2(s) == un2(le2(h))); assert(s[2] == row(v.message_type).1 as u8);
    assert(s.skip(3).take(3) =~= le3(n)); assert(un3(s.skip(3)) == un3(s.skip(3).take(3)));
    assert(s.subrange(6, 6 + n) =~= v.payload@);
    assert(row(v.message_type) == (un2(s) % 32768, s[2] as int, un2(s) >= 32768));
    crate::stratumv2::types::message_type::lemma_table_known(v.message_type);
    if row(w.message_type) == row(v.message_type) {{ crate::stratumv2::types::message_type::lemma_table_injective(v.message_type, w.message_type); }}
}}
/// an accepted frame is the encoding of exactly what it decodes to
pub proof fn lemma_C06_canon_Message(s: Seq<u8>, v: Message)
    requires Message::accepts(s) is Some, Message::denotes(s, v)
    ensures v.enc() == s.take(Message::accepts(s)->Some_0), v.encodable()
{{
    let n = un3(s.skip(3)); lemma_un2(s.take(2)); lemma_un3(s.skip(3).take(3));
    assert(un2(s.take(2)) == un2(s)); assert(un3(s.skip(3).take(3)) == n);
    assert(head(v.message_type) == un2(s));
    assert(v.enc() =~= s.take(6 + n));
}}
""")
open(f"{D}/85_roundtrip.vspec","w").write("#! generated by gen.py\n"+"\n".join(out))
